; passes: PredicateCorrelation,DeadNodeElimination,InvariantValueRedirection,DeadNodeElimination
; nomask
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
declare void @ext_i64(i32, i64)
define i32 @vh_main() {
entry:
  br label %loop
loop:
  %i = phi i64 [0, %entry], [%i1, %loop]
  %x = phi i8 [250, %entry], [%x1, %loop]
  %x1 = add i8 %x, 1
  %z = zext i8 %x to i64
  %t = mul i64 %z, 3
  call void @ext_i64(i32 0, i64 %t)
  %i1 = add i64 %i, 1
  %c = icmp slt i64 %i1, 15
  br i1 %c, label %loop, label %exit
exit:
  ret i32 0
}
