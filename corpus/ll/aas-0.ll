declare void @ext_i64(i32, i64)
define i32 @vh_main() {
  %s = alloca { i64, i32, i32 }
  %a = getelementptr { i64, i32, i32 }, ptr %s, i32 0, i32 1
  %b = getelementptr { i64, i32, i32 }, ptr %s, i32 0, i32 2
  store i32 5, ptr %a
  store i32 7, ptr %b
  %x = load i64, ptr %a
  call void @ext_i64(i32 1, i64 %x)
  ret i32 0
}
