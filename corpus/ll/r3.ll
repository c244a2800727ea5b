target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

@gn1 = global { i64, ptr, ptr, [4 x i32] } { i64 271, ptr getelementptr inbounds (i8, ptr null, i64 24), ptr @gn1, [4 x i32] [i32 1, i32 2, i32 3, i32 -1701238890] }

define i32 @vh_main() {
if.then:
  br label %l.head1

l.head1:                                          ; preds = %l.latch3, %if.then
  br i1 false, label %l.latch3, label %sw.end

l.latch3:                                         ; preds = %l.head1
  store ptr null, ptr getelementptr inbounds ({ i64, ptr, ptr, [4 x i32] }, ptr @gn1, i64 0, i32 1), align 8
  br label %l.head1

sw.end:                                           ; preds = %l.head1
  ret i32 0
}
