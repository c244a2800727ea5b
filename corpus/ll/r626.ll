target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

@gb0 = global [16 x i32] [i32 -740864064, i32 -1794233057, i32 -1596977600, i32 1135129768, i32 -4723458, i32 2033247815, i32 995901315, i32 -1917316627, i32 618942328, i32 -1117941517, i32 1133276184, i32 1582500632, i32 -610461507, i32 -851047680, i32 1306843908, i32 1804696509]

define internal { i32, i64 } @f0(i64 %0, ptr %1, i32 %2) {
entry:
  call void @ext_i64(i32 980, i64 0)
  store i32 0, ptr @gb0, align 4
  ret { i32, i64 } zeroinitializer
}

define i32 @f1(i32 %0, ptr %1) {
entry:
  ret i32 0
}

define i32 @f2() {
entry:
  ret i32 0
}

define fastcc i8 @f3(ptr %0, ptr %1) {
entry:
  ret i8 0
}

define i32 @leaf(i32 %0, ptr %1) {
e:
  ret i32 0
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

declare void @ext_i64(i32, i64)

declare void @ext_peek(ptr, i32)

define i32 @vh_main() {
entry:
  %0 = call { i32, i64 } @f0(i64 0, ptr null, i32 0)
  call void @ext_peek(ptr @gb0, i32 64)
  ret i32 0
}

; Function Attrs: nocallback nofree nosync nounwind willreturn memory(none)
declare i16 @llvm.expect.i16(i16, i16) #1

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i16 @llvm.bswap.i16(i16) #2

; Function Attrs: nocallback nofree nosync nounwind speculatable willreturn memory(none)
declare i64 @llvm.ctpop.i64(i64) #2

declare i32 @ext_i32(i32, i32)

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
attributes #1 = { nocallback nofree nosync nounwind willreturn memory(none) }
attributes #2 = { nocallback nofree nosync nounwind speculatable willreturn memory(none) }
