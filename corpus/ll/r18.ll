; passes: AAAndersenRegionAware,StoreValueForwarding,CommonNodeElimination,NodeReduction
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

define i32 @f0(i32 %0, ptr %1) {
entry:
  ret i32 0
}

define i32 @f1(i32 %0, ptr %1) {
entry:
  ret i32 2147483647
}

define i32 @f2() {
entry:
  ret i32 0
}

define void @f3(i1 %0, i1 %1, i32 %2) {
entry:
  ret void
}

define i1 @f4() {
entry:
  unreachable
}

define i32 @leaf(i32 %0, ptr %1) {
e:
  ret i32 0
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.ctlz.i32(i32, i1 immarg) #1

declare void @ext_i64(i32, i64)

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i32 @llvm.abs.i32(i32, i1 immarg) #1

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memmove.p0.p0.i64(ptr nocapture writeonly, ptr nocapture readonly, i64, i1 immarg) #2

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i64 @llvm.bswap.i64(i64) #1

declare void @ext_exit(i32)

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memcpy.p0.p0.i64(ptr noalias nocapture writeonly, ptr noalias nocapture readonly, i64, i1 immarg) #2

define i32 @vh_main(ptr %gt0, ptr %0) {
entry:
  %1 = alloca [16 x i32], align 16
  call void @llvm.memset.p0.i64(ptr %1, i8 9, i64 64, i1 false)
  %2 = alloca [4 x ptr], align 8
  store ptr %1, ptr %2, align 8
  %3 = getelementptr ptr, ptr %2, i64 1
  store ptr %gt0, ptr %3, align 8
  %4 = load ptr, ptr %2, align 8
  store i8 0, ptr %0, align 1
  %5 = getelementptr i32, ptr %4, i64 1
  store i32 -1208787477, ptr %5, align 4
  %6 = getelementptr i32, ptr %1, i64 1
  store i32 0, ptr %6, align 4
  call void @ext_peek(ptr %1, i32 64)
  ret i32 0
}

declare void @ext_peek(ptr, i32)

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
attributes #1 = { nocallback nofree nosync nounwind speculatable willreturn memory(none) }
attributes #2 = { nocallback nofree nounwind willreturn memory(argmem: readwrite) }
