-------------------------------- MODULE Dra ---------------------------------
(* Dynamic range adjustment from a histogram c[1..N].  Positions are bucket   *)
(* numbers from 0 in tenths; percentages are integers; the weights a and b    *)
(* are tenths.  The display range is the central part of the counts, widened  *)
(* by the weights and limited to the occupied buckets.                        *)
EXTENDS Arith, FiniteSets
RECURSIVE CumTo(_, _)
CumTo(c, i) == IF i = 0 THEN 0 ELSE c[i] + CumTo(c, i - 1)
Total(c) == CumTo(c, Len(c))
Occupied(c) == {i \in 1..Len(c) : c[i] # 0}
First(c) == (CHOOSE i \in Occupied(c) : \A j \in Occupied(c) : i <= j) - 1
Last(c) == (CHOOSE i \in Occupied(c) : \A j \in Occupied(c) : i >= j) - 1
Cums(c) == [i \in 1..Len(c) |-> CumTo(c, i)]
\* first bucket at which the low set point is reached; a bucket exactly at the set point may count as reached or not
LowSet(cum, p) ==
    LET n == Len(cum)  T == cum[n]
        ge == {i \in 1..n : 100 * cum[i] >= p * T}  gt == {i \in 1..n : 100 * cum[i] > p * T}
        mn(S) == IF S = {} THEN n ELSE CHOOSE i \in S : \A j \in S : i <= j
    IN {mn(ge) - 1, mn(gt) - 1}
\* last bucket up to which the counts do not exceed the high set point
HighSet(cum, p) ==
    LET n == Len(cum)  T == cum[n]
        le == {i \in 1..n : 100 * cum[i] <= p * T}  lt == {i \in 1..n : 100 * cum[i] < p * T}
        mx(S) == IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : i >= j
    IN {mx(le) - 1, mx(lt) - 1}
Range10(first, last, lo, hi0, a, b) ==
    LET hi == Max2(lo, hi0)
        mn == Max2(10 * first, 10 * lo - a * (hi - lo))
        mx == Max2(mn, Min2(10 * last, 10 * hi + b * (hi - lo)))
    IN <<mn, mx>>
Ranges10(c, minp, maxp, a, b) ==
    LET cum == Cums(c)  f == First(c)  l == Last(c)
    IN {Range10(f, l, lo, hi, a, b) : lo \in LowSet(cum, minp), hi \in HighSet(cum, maxp)}
\* the display mapping: values (tenths of buckets) to 0..m, truncating
Display(v, r, m) == IF v <= r[1] THEN 0 ELSE IF v >= r[2] THEN m ELSE ((v - r[1]) * m) \div (r[2] - r[1])
=============================================================================
