; passes: AAAndersenAgnostic,LoadChainSeparation
target triple = "x86_64-unknown-linux-gnu"
@g = internal global i64 5
@budget = internal global i32 200
declare void @ext_i64(i32, i64)
define internal i64 @bump(i64 %x) noinline {
  %v = load i64, ptr @g
  %w = add i64 %v, %x
  store i64 %w, ptr @g
  ret i64 %w
}
define i32 @vh_main(i32 %unused) {
e:
  %a = load i64, ptr @g
  br label %l
l:
  %i = phi i64 [0,%e],[%j,%l]
  %j = add i64 %i, 1
  %r = call i64 @bump(i64 %j)
  %c = icmp ult i64 %j, 10
  br i1 %c, label %l, label %x
x:
  %b = load i64, ptr @g
  call void @ext_i64(i32 1, i64 %a)
  call void @ext_i64(i32 2, i64 %b)
  ret i32 0
}
