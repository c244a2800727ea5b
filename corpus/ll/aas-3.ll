declare void @ext_i64(i32, i64)
declare i32 @ext_i32(i32,i32)
define i32 @vh_main() {
  %s = alloca { i32, i32 }
  %z = call i32 @ext_i32(i32 0, i32 0)
  %zz = and i32 %z, 4
  %a = getelementptr i8, ptr %s, i32 %zz
  store i32 5, ptr %a
  %x = load i32, ptr %a
  %y = zext i32 %x to i64
  call void @ext_i64(i32 1, i64 %y)
  ret i32 0
}
