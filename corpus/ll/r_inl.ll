; passes: NodeReduction,FunctionInlining
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

define internal i32 @f0(ptr %0, i1 %1, ptr %gb1) {
entry:
  br i1 false, label %if.then, label %if.end

if.then:                                          ; preds = %entry
  %2 = call i32 @f0(ptr %0, i1 false, ptr null)
  ret i32 0

if.end:                                           ; preds = %entry
  ret i32 0
}

define i8 @f1(ptr %0, ptr %1) {
entry:
  ret i8 0
}

define i32 @leaf(i32 %0, ptr %1) {
e:
  ret i32 0
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare double @llvm.fabs.f64(double) #1

declare i32 @ext_va(i32, ...)

; Function Attrs: nocallback nofree nosync nounwind willreturn memory(none)
declare i32 @llvm.expect.i32(i32, i32) #2

declare void @ext_i64(i32, i64)

define i32 @vh_main() {
entry:
  %0 = call i32 @f0(ptr null, i1 true, ptr null)
  ret i32 0
}

declare ptr @malloc(i64)

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg) #3

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.abs.i32(i32, i1 immarg) #1

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.ctpop.i32(i32) #1

declare void @ext_f64(i32, double)

declare void @ext_peek(ptr, i32)

declare void @ext_peekf(ptr, i32)

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
attributes #1 = { nocallback nofree nosync nounwind speculatable willreturn memory(none) }
attributes #2 = { nocallback nofree nosync nounwind willreturn memory(none) }
attributes #3 = { nocallback nofree nounwind willreturn memory(argmem: readwrite) }
