---------------------------------- MODULE Rat ----------------------------------
(* Exact rational numbers <<numerator, denominator>>, reduced, denominator > 0 *)
EXTENDS Integers, Sequences

RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

R(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == Gcd(RAbs(n), RAbs(d))
           IN <<(s * n) \div g, (s * d) \div g>>
RI(n) == <<n, 1>>
RAdd(a, b) == R(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == R(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == R(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == R(a[1] * b[2], a[2] * b[1])
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
RLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RI(0) ELSE RAdd(Head(s), RSum(Tail(s)))
================================================================================
