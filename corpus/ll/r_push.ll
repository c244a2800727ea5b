; passes: AAAndersenRegionAware,NodePushOut
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

@gb0 = global [64 x i8] zeroinitializer
@gcb = constant [64 x i8] c"\CB\CA\D1W\C0\F32\97k^bo2D\F7K\ABl9\16\B3k5\C6\B0\82;\FF@\D6\BB\19]N\8A\AD[\17\D0\1A\D0X\82:\AEO\D7\E06\97\C4+n\B5\00QS\C0ISOs\85~"

define i32 @leaf(i32 %0, ptr %1) {
e:
  ret i32 0
}

define i32 @vh_main(i32 %0) {
entry:
  call void @llvm.memcpy.p0.p0.i64(ptr @gb0, ptr @gcb, i64 19, i1 false)
  br label %goto

goto:                                             ; preds = %goto, %entry
  %.0 = phi i32 [ 25, %entry ], [ %0, %goto ]
  call void @llvm.memmove.p0.p0.i64(ptr getelementptr inbounds ([64 x i8], ptr @gb0, i64 0, i64 8), ptr @gb0, i64 15, i1 false)
  %1 = sub i32 %.0, 1
  %2 = icmp sgt i32 %1, 0
  br i1 %2, label %goto, label %goto.exit

goto.exit:                                        ; preds = %goto
  call void @ext_peek(ptr @gb0, i32 64)
  ret i32 29615
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare double @llvm.trunc.f64(double) #1

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg) #2

declare void @ext_i64(i32, i64)

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memmove.p0.p0.i64(ptr nocapture writeonly, ptr nocapture readonly, i64, i1 immarg) #2

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i16 @llvm.bswap.i16(i16) #1

declare void @ext_touch_kept(i32)

declare void @ext_f64(i32, double)

declare void @ext_peek(ptr, i32)

declare void @ext_peekf(ptr, i32)

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
attributes #1 = { nocallback nofree nosync nounwind speculatable willreturn memory(none) }
attributes #2 = { nocallback nofree nounwind willreturn memory(argmem: readwrite) }
