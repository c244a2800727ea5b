; passes: NodePushOut,PredicateCorrelation,InvariantValueRedirection,CommonNodeElimination,DeadNodeElimination,InvariantValueRedirection
; passes: PredicateCorrelation,InvariantValueRedirection,DeadNodeElimination,NodePushOut,CommonNodeElimination,DeadNodeElimination,InvariantValueRedirection,LoopUnswitching
declare void @ext_i64(i32, i64)
declare i32 @ext_i32(i32, i32)
define i64 @f(i64 %n, i64 %p, i64 %q) {
e:
  br label %h
h:
  %i = phi i64 [0, %e], [%i2, %j]
  %a = phi i64 [7, %e], [%a2, %j]
  call void @ext_i64(i32 1, i64 %a)
  %i2 = add i64 %i, 1
  %cond = icmp ult i64 %i2, %n
  %o = and i64 %i, 1
  %other = icmp eq i64 %o, 0
  br i1 %other, label %t, label %j
t:
  br i1 %cond, label %x, label %y
x:
  call void @ext_i64(i32 2, i64 %i)
  br label %z
y:
  call void @ext_i64(i32 3, i64 %i)
  br label %z
z:
  br label %j
j:
  %a2 = phi i64 [%p, %h], [%q, %z]
  br i1 %cond, label %h, label %end
end:
  ret i64 %i2
}
define i32 @vh_main() {
  %r = call i64 @f(i64 9, i64 100, i64 200)
  call void @ext_i64(i32 5, i64 %r)
  ret i32 0
}
