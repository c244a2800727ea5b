define i32 @vh_main() {
entry:
  %p = alloca [8 x <4 x i32>], align 16
  call void @llvm.memset.p0.i64(ptr %p, i8 7, i64 128, i1 false)
  br label %l
l:
  %i = phi i64 [0, %entry], [%n, %l]
  %s = phi i32 [0, %entry], [%s2, %l]
  %q = getelementptr [8 x <4 x i32>], ptr %p, i64 0, i64 %i, i64 2
  %v = load i32, ptr %q
  %s2 = add i32 %s, %v
  store i32 %s2, ptr %q
  %n = add i64 %i, 1
  %c = icmp ult i64 %n, 8
  br i1 %c, label %l, label %e
e:
  %q2 = getelementptr <4 x i32>, ptr %p, i64 3, i64 2
  %v2 = load i32, ptr %q2
  %r = add i32 %s2, %v2
  ret i32 %r
}
declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)
