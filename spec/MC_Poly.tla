------------------------------ MODULE MC_Poly ------------------------------
(* Sections tile the image: every coordinate belongs to exactly one section,  *)
(* the index never decreases, and outside the image the nearest one is used.  *)
(* The walk moves a point through the image one unit at a time.               *)
EXTENDS Poly, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Sizes, Counts, Mins, EmitCases
VARIABLES min, size, n, v
vars == <<min, size, n, v>>
Init == min \in {m - 20 : m \in Mins} /\ size \in Sizes /\ n \in Counts /\ v = min - size - 1
Next == v < min + n * size + size + 1 /\ v' = v + 1 /\ UNCHANGED <<min, size, n>>
Spec == Init /\ [][Next]_vars

Sec == SectionOf(v, min, size, n)
Lo(k) == min + k * size
InRange == Sec \in 0..(n - 1)
Contained == (v >= min /\ v < min + n * size) => (Lo(Sec) <= v /\ v < Lo(Sec + 1))
ClampedLow == v < min => Sec = 0
ClampedHigh == v >= min + n * size => Sec = n - 1
Monotone == [][SectionOf(v', min, size, n) \in {Sec, Sec + 1}]_vars

\* polynomial sanity: agreement of the two polynomial forms where they overlap, and Horner-free definition on monomials
ASSUME \A x, y, z \in -2..2 :
   /\ RsmPoly([px |-> 1, py |-> 1, pz |-> 1, c |-> <<0, 1, 2, 0, 3, 0, 0, 0>>], x, y, z) = x + 2*y + 3*z
   /\ RsmPoly([px |-> 2, py |-> 0, pz |-> 1, c |-> <<1, 0, 5, 0, 7, 0>>], x, y, z) = 1 + 5*x*x + 7*x*z
   /\ Rpc8([i \in 1..20 |-> IF i = 15 THEN 1 ELSE 0], 2*x, 2*y, 2*z) = 8 * x*x*y
   /\ Rpc8([i \in 1..20 |-> IF i = 13 THEN 1 ELSE 0], 2*x, 2*y, 2*z) = 8 * x*y*y
   /\ Rpc8([i \in 1..20 |-> 1], x, 0, 0) = 8 + 4*x + 2*x*x + x*x*x
ASSUME \A i, j \in 1..20 : RpcTerms[i] = RpcTerms[j] => i = j
ASSUME {RpcTerms[i] : i \in 1..20} = {t \in (0..3) \X (0..3) \X (0..3) : t[1] + t[2] + t[3] <= 3}

Emit == EmitCases => PrintT("BEHAVIOUR " \o ToJson([min |-> min, size |-> size, n |-> n, v |-> v, sec |-> Sec]))
=============================================================================
