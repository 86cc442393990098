-------------------------------- MODULE Rat ---------------------------------
(* Exact rational numbers <<n, d>>, d > 0, in lowest terms. *)
EXTENDS Integers

LOCAL AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
R(n, d) == LET g == GCD(AbsI(n), AbsI(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RInt(n) == <<n, 1>>
RAdd(a, b) == R(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == R(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == LET x == R(a[1], b[2]) y == R(b[1], a[2]) IN R(x[1] * y[1], x[2] * y[2])
RDiv(a, b) == RMul(a, R(b[2], b[1]))
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
=============================================================================
