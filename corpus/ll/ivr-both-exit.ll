; passes: StoreValueForwarding,NodePushOut,NodeReduction,InvariantValueRedirection
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
target triple = "x86_64-unknown-linux-gnu"

define i64 @m0(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  ret i64 0
}

declare void @ext_i64(i32, i64)

define i64 @m1(i64 %0, i64 %1, ptr %2, ptr %3, ptr %4, i32 %5, i32 %6) {
e:
  %7 = alloca i64, align 8
  br label %c

c:                                                ; preds = %c1, %e
  store i64 0, ptr %7, align 8
  %8 = icmp ult i32 %5, 48
  br i1 %8, label %g, label %x

c1:                                               ; preds = %g
  store i64 0, ptr %7, align 8
  br label %c

c2:                                               ; preds = %g
  %9 = load i64, ptr %7, align 8
  call void @ext_i64(i32 4, i64 %9)
  ret i64 0

x:                                                ; preds = %c
  ret i64 0

g:                                                ; preds = %c
  br i1 false, label %c1, label %c2
}

define i64 @m2(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  ret i64 0
}

define i64 @m3(i64 %0, i64 %1, ptr %2, ptr %3) {
e:
  ret i64 0
}

define i32 @vh_main(ptr %buf2) {
e:
  %0 = call i64 @m1(i64 0, i64 -6573805543381287830, ptr %buf2, ptr null, ptr null, i32 0, i32 0)
  ret i32 0
}

declare void @ext_peek(ptr, i32)

declare i32 @ext_i32(i32, i32)
