target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

@gb0 = global [16 x i32] [i32 1931154303, i32 -768404511, i32 -1593572973, i32 -864942269, i32 1069411260, i32 -527756008, i32 1544724159, i32 -1460284398, i32 -1506472585, i32 633944263, i32 1623969645, i32 449834076, i32 1897544159, i32 1298052519, i32 1812497380, i32 447321546]

define ptr @f0(double %0, ptr %1, ptr %.gb1) {
entry:
  ret ptr %1
}

define i64 @f1() {
entry:
  ret i64 1
}

define i32 @leaf(i32 %0, ptr %1) {
e:
  ret i32 0
}

declare void @ext_i64(i32, i64)

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

define i32 @vh_main() {
entry:
  %0 = getelementptr i32, ptr @gb0, i64 0
  %1 = load volatile i32, ptr %0, align 4
  tail call void @llvm.memset.p0.i64(ptr @gb0, i8 -40, i64 13, i1 false)
  ret i32 0
}

declare void @ext_f64(i32, double)

declare void @ext_peek(ptr, i32)

declare void @ext_peekf(ptr, i32)

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
