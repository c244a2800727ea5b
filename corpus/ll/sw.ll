declare void @ext_i64(i32, i64)
define i32 @f(i1 %c) {
  switch i1 %c, label %D [ i1 0, label %A
    i1 1, label %A ]
A: ret i32 1
D: ret i32 2
}
define i32 @vh_main() {
  %a = call i32 @f(i1 0)
  %b = call i32 @f(i1 1)
  %x = add i32 %a, %b
  ret i32 %x
}
