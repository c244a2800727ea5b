declare void @ext_i64(i32, i64)
define i32 @vh_main() {
  %s = alloca { i32, i32 }
  %a = getelementptr { i32, i32 }, ptr %s, i32 1
  %b = getelementptr { i32, i32 }, ptr %a, i32 -1, i32 1
  store i32 5, ptr %b
  %x = load i32, ptr %b
  %y = zext i32 %x to i64
  call void @ext_i64(i32 1, i64 %y)
  ret i32 0
}
