; nomask
; two blocks with variable length arrays, as clang makes them
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
declare void @ext_i64(i32, i64)
declare ptr @llvm.stacksave.p0()
declare void @llvm.stackrestore.p0(ptr)
define internal void @clobber() noinline {
entry:
  %x = alloca [64 x i64]
  br label %loop
loop:
  %i = phi i64 [0, %entry], [%i1, %loop]
  %p = getelementptr i64, ptr %x, i64 %i
  store volatile i64 -1, ptr %p
  %i1 = add i64 %i, 1
  %c = icmp slt i64 %i1, 64
  br i1 %c, label %loop, label %exit
exit:
  ret void
}
define internal i64 @two(i64 %n) noinline {
entry:
  %s1 = call ptr @llvm.stacksave.p0()
  %a = alloca i64, i64 %n
  store volatile i64 3, ptr %a
  %va = load volatile i64, ptr %a
  call void @llvm.stackrestore.p0(ptr %s1)
  %s2 = call ptr @llvm.stacksave.p0()
  %m = add i64 %n, 7
  %b = alloca i64, i64 %m
  store volatile i64 5, ptr %b
  call void @clobber()
  %vb = load volatile i64, ptr %b
  call void @llvm.stackrestore.p0(ptr %s2)
  %r = add i64 %va, %vb
  ret i64 %r
}
define i32 @vh_main() {
entry:
  %r = call i64 @two(i64 10)
  call void @ext_i64(i32 0, i64 %r)
  ret i32 0
}
