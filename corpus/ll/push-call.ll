; passes: CommonNodeElimination,InvariantValueRedirection,NodePushOut
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

define i64 @m0(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  ret i64 0
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: write)
declare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg) #0

define i64 @m1(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  %4 = load i32, ptr %2, align 4
  %5 = zext i32 %4 to i64
  call void @llvm.memset.p0.i64(ptr %2, i8 1, i64 9, i1 false)
  ret i64 %5
}

define i64 @m2(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  ret i64 0
}

; Function Attrs: nocallback nofree nounwind willreturn memory(argmem: readwrite)
declare void @llvm.memmove.p0.p0.i64(ptr nocapture writeonly, ptr nocapture readonly, i64, i1 immarg) #1

define i64 @m3(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  ret i64 0
}

declare void @ext_i64(i32, i64)

define i64 @m4(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  ret i64 0
}

declare ptr @malloc(i64)

declare void @free(ptr)

define i64 @m5(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  br label %h

h:                                                ; preds = %h, %e
  %.026 = phi i64 [ -1, %e ], [ %6, %h ]
  %4 = call i64 @m1(i64 %0, i64 7, ptr %2, ptr %2)
  %5 = icmp eq i64 %.026, 8
  %6 = add i64 %.026, 3
  br i1 %5, label %x, label %h

x:                                                ; preds = %h
  ret i64 %4
}

declare void @ext_peek(ptr, i32)

define i32 @vh_main(ptr %buf2, ptr %buf21) {
e:
  %0 = call i64 @m5(i64 -3, i64 -1781822383680218837, ptr %buf21, ptr %buf2)
  call void @ext_i64(i32 16, i64 %0)
  ret i32 0
}

declare i32 @ext_i32(i32, i32)

attributes #0 = { nocallback nofree nounwind willreturn memory(argmem: write) }
attributes #1 = { nocallback nofree nounwind willreturn memory(argmem: readwrite) }
