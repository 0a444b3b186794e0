------------------------------- MODULE MC_Dra -------------------------------
(* Every histogram reachable by counting up to T pixels into N buckets.       *)
EXTENDS Dra, TLC, Json
CONSTANTS Ns, T, LowPcts, HighPcts, Weights, EmitCases
VARIABLES c
Init == c \in {[i \in 1..n |-> 0] : n \in Ns}
Count == Total(c) < T /\ \E i \in 1..Len(c) : c' = [c EXCEPT ![i] = @ + 1]
Next == Count
Spec == Init /\ [][Next]_c
AllRanges(f(_)) == Total(c) > 0 => \A p \in LowPcts, q \in HighPcts, a, b \in Weights : \A r \in Ranges10(c, p, q, a, b) : f(r)
NeverInverts == AllRanges(LAMBDA r : r[1] <= r[2])
WithinData == AllRanges(LAMBDA r : 10 * First(c) <= r[1] /\ r[2] <= 10 * Last(c))
\* lower values never get higher display values, and the range spans the whole output
Monotone == AllRanges(LAMBDA r : /\ \A v \in 0..(10 * Len(c) - 1) : Display(v, r, 255) <= Display(v + 1, r, 255)
                                 /\ Display(r[1], r, 255) = 0 /\ (r[1] < r[2] => Display(r[2], r, 255) = 255))
\* excluding nothing keeps the whole data range
NothingExcluded == Total(c) > 0 => \A a, b \in Weights :
    \E r \in Ranges10(c, 0, 100, a, b) : r = <<10 * First(c), 10 * Last(c)>>
Emit == EmitCases => PrintT("BEHAVIOUR " \o ToJson([c |-> c]))
=============================================================================
