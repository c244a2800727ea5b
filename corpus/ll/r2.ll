target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

define i8 @f4() {
g.end:
  br label %l.body

l.body:                                           ; preds = %l.head1, %g.end
  br label %l.head1

l.head1:                                          ; preds = %l.latch3, %l.body
  %.018 = phi i32 [ 0, %l.body ], [ 0, %l.latch3 ]
  br i1 false, label %l.latch3, label %l.body

l.latch3:                                         ; preds = %l.head1
  call void @ext_i64()
  br label %l.head1
}

declare void @ext_i64()

define i32 @vh_main() {
if.end:
  ret i32 0
}
