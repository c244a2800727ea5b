declare void @ext_i64(i32, i64)
@g1 = internal global i32 1
@g2 = internal global i32 2
@g3 = internal global i32 3
define internal void @use({ i32, { ptr, ptr }, ptr } %v, i32 %w) {
  %a = extractvalue { i32, { ptr, ptr }, ptr } %v, 2
  %b = extractvalue { i32, { ptr, ptr }, ptr } %v, 1, 0
  %c = extractvalue { i32, { ptr, ptr }, ptr } %v, 1, 1
  store i32 %w, ptr %a
  store i32 5, ptr %b
  store i32 6, ptr %c
  %x = load i32, ptr %a
  %y = zext i32 %x to i64
  call void @ext_i64(i32 1, i64 %y)
  ret void
}
define i32 @vh_main() {
  %l = alloca i32
  store i32 9, ptr %l
  %p = insertvalue { i32, { ptr, ptr }, ptr } undef, ptr @g1, 2
  %i0 = insertvalue { ptr, ptr } undef, ptr @g2, 0
  %i = insertvalue { ptr, ptr } %i0, ptr %l, 1
  %q = insertvalue { i32, { ptr, ptr }, ptr } %p, { ptr, ptr } %i, 1
  %r = insertvalue { i32, { ptr, ptr }, ptr } %q, i32 77, 0
  call void @use({ i32, { ptr, ptr }, ptr } %r, i32 12)
  %e = extractvalue { i32, { ptr, ptr }, ptr } %r, 2
  store i32 13, ptr %e
  %e1 = extractvalue { i32, { ptr, ptr }, ptr } %r, 1
  %e2 = extractvalue { ptr, ptr } %e1, 1
  store i32 14, ptr %e2
  %x = load i32, ptr @g1
  %y = load i32, ptr %l
  %z = load i32, ptr @g2
  %s = add i32 %x, %y
  %t = add i32 %s, %z
  ret i32 %t
}
