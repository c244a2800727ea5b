; passes: InvariantValueRedirection,NodePushOut,IfConversion
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

define i32 @leaf(i32 %0, ptr %1) {
e:
  ret i32 0
}

define i32 @vh_main(i32 %.098) {
entry:
  br label %goto

goto:                                             ; preds = %goto10, %entry
  %.0981 = phi i32 [ 20, %entry ], [ %.2100, %goto10 ]
  switch i32 0, label %goto9 [
    i32 1, label %goto10
    i32 2, label %goto10
  ]

goto9:                                            ; preds = %goto
  br label %goto10

goto10:                                           ; preds = %goto9, %goto, %goto
  %.2100 = phi i32 [ %.098, %goto ], [ %.098, %goto ], [ 0, %goto9 ]
  br label %goto
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

declare void @ext_i64(i32, i64)

; Function Attrs: nocallback nofree nosync nounwind willreturn memory(none)
declare i16 @llvm.expect.i16(i16, i16) #1

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.umin.i32(i32, i32) #2

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.umax.i32(i32, i32) #2

declare void @ext_poke(ptr, i32, i32)

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i64 @llvm.smax.i64(i64, i64) #2

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg) #3

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i64 @llvm.umax.i64(i64, i64) #2

declare void @ext_peek(ptr, i32)

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
attributes #1 = { nocallback nofree nosync nounwind willreturn memory(none) }
attributes #2 = { nocallback nofree nosync nounwind speculatable willreturn memory(none) }
attributes #3 = { nocallback nofree nounwind willreturn memory(argmem: readwrite) }
