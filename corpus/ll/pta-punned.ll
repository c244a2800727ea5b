declare void @ext_i64(i32, i64)
@g1 = internal global i32 1
@g2 = internal global i32 2
@slot = internal global ptr @g1
define internal void @put(ptr %s, i64 %v) {
  store i64 %v, ptr %s
  ret void
}
define i32 @vh_main() {
  %l = alloca i32
  store i32 9, ptr %l
  %s = alloca ptr
  %s2 = alloca ptr
  store ptr %l, ptr %s
  ; the address is read as an integer and used as a pointer
  %i = load i64, ptr %s
  %p = inttoptr i64 %i to ptr
  store i32 10, ptr %p
  %a = load i32, ptr %l
  ; the address is written as an integer and read as a pointer
  %j = load i64, ptr @slot
  call void @put(ptr %s2, i64 %j)
  %q = load ptr, ptr %s2
  store i32 11, ptr %q
  %b = load i32, ptr @g1
  ; bytes are copied
  %s3 = alloca ptr
  store ptr @g2, ptr %s
  call void @llvm.memcpy.p0.p0.i64(ptr %s3, ptr %s, i64 8, i1 false)
  %r = load ptr, ptr %s3
  store i32 12, ptr %r
  %c = load i32, ptr @g2
  %z = add i32 %a, %b
  %y = add i32 %z, %c
  ret i32 %y
}
declare void @llvm.memcpy.p0.p0.i64(ptr, ptr, i64, i1)
