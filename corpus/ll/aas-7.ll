declare void @ext_i64(i32, i64)
declare i32 @ext_i32(i32,i32)
define i32 @vh_main() {
  %s = alloca { i32, i32 }
  %t = alloca { i32, i32 }
  %sb = getelementptr { i32, i32 }, ptr %s, i32 0, i32 1
  %tb = getelementptr { i32, i32 }, ptr %t, i32 0, i32 1
  store i32 1, ptr %sb
  store i32 2, ptr %tb
  %z = call i32 @ext_i32(i32 0, i32 0)
  %zz = trunc i32 %z to i1
  br i1 %zz, label %B, label %A
A:
  call void @ext_i64(i32 1, i64 1)
  br label %B
B:
  %p = phi ptr [ %s, %A ], [ %t, %0 ]
  %pb = getelementptr { i32, i32 }, ptr %p, i32 0, i32 1
  %x = load i32, ptr %pb
  %y = zext i32 %x to i64
  call void @ext_i64(i32 1, i64 %y)
  %x1 = load i32, ptr %sb
  %y1 = zext i32 %x1 to i64
  call void @ext_i64(i32 1, i64 %y1)
  ret i32 0
}
