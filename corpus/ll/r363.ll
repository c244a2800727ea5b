target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

define i32 @vh_main() {
entry:
  %.076 = select i1 false, <4 x i32> zeroinitializer, <4 x i32> zeroinitializer
  ret i32 0
}
