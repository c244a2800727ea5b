; passes: PredicateCorrelation,NodePushOut,LoopUnswitching
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

%node.0 = type { i64, ptr, ptr, [4 x i32] }

define i32 @f0(i32 %0) {
entry:
  br label %l.head

l.head:                                           ; preds = %l.body, %entry
  %1 = load i32, ptr null, align 4
  %2 = icmp ult i32 %1, 1
  br i1 %2, label %l.body, label %l.exit

l.body:                                           ; preds = %l.head
  %3 = load ptr, ptr null, align 8
  %4 = getelementptr %node.0, ptr %3, i32 0, i32 1
  %5 = load ptr, ptr %4, align 8
  br label %l.head

l.exit:                                           ; preds = %l.head
  ret i32 0
}

define i32 @f1(i32 %0, ptr %1) {
entry:
  ret i32 0
}

define i8 @f2() {
entry:
  ret i8 0
}

define { i32, i64 } @f3(ptr %0) {
entry:
  ret { i32, i64 } zeroinitializer
}

define i32 @leaf(i32 %0, ptr %1) {
e:
  ret i32 0
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare double @llvm.fabs.f64(double) #1

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.abs.i32(i32, i1 immarg) #1

declare void @ext_i64(i32, i64)

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg) #2

declare i32 @ext_cb(ptr, i32, ptr)

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.fshl.i32(i32, i32, i32) #1

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i1 @llvm.abs.i1(i1, i1 immarg) #1

define i32 @vh_main() {
entry:
  ret i32 0
}

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.cttz.i32(i32, i1 immarg) #1

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memmove.p0.p0.i64(ptr nocapture writeonly, ptr nocapture readonly, i64, i1 immarg) #2

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i64 @llvm.cttz.i64(i64, i1 immarg) #1

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.bswap.i32(i32) #1

declare void @ext_f64(i32, double)

declare void @ext_peek(ptr, i32)

declare void @ext_peekf(ptr, i32)

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.ctlz.i32(i32, i1 immarg) #1

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
attributes #1 = { nocallback nofree nosync nounwind speculatable willreturn memory(none) }
attributes #2 = { nocallback nofree nounwind willreturn memory(argmem: readwrite) }
