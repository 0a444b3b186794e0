------------------------------- MODULE Arith -------------------------------
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
NaN == 2000000001
Finite(x) == x # NaN
Within(a, b, tol) == a # NaN /\ b # NaN /\ Abs(a - b) <= tol
FloorDiv(a, b) == a \div b             \* TLA+ \div floors for b > 0
CeilDiv(a, b) == -((-a) \div b)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
=============================================================================
