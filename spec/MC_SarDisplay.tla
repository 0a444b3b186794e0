---------------------------- MODULE MC_SarDisplay ---------------------------
(* Every image of up to N pixels over a set of pixels with integer magnitudes,*)
(* grown a pixel at a time, and turned in phase.                              *)
EXTENDS SarDisplay, TLC, Json
CONSTANTS N, EmitCases
VARIABLES img, turned
Pixels == { <<0, 0>>, <<1, 0>>, <<0, 0-2>>, <<3, 4>>, <<0-6, 8>>, <<0-5, 0-12>>, <<15, 8>>, <<0, 60>> }
Turn(p) == <<0 - p[2], p[1]>>
Init == img = <<>> /\ turned = <<>>
Add == Len(img) < N /\ \E p \in Pixels : img' = Append(img, p) /\ turned' = Append(turned, p)
Phase == \E i \in 1..Len(img) : turned[i] = img[i] /\ img[i] # <<0, 0>> /\ Len(img) = N /\ turned' = [turned EXCEPT ![i] = Turn(@)] /\ UNCHANGED img
Next == Add \/ Phase
Spec == Init /\ [][Next]_<<img, turned>>
P(q) == [i \in 1..Len(q) |-> Power(q[i])]
Mg(q) == [i \in 1..Len(q) |-> Root(Power(q[i]))]
InRange == \A v \in {P(img), Mg(img)} : \A i \in 1..Len(v) : \A s \in {3, 8} :
              0 <= DNum(v[i], Len(v), s, SumSeq(v)) /\ DNum(v[i], Len(v), s, SumSeq(v)) <= 255 * DDen(s, SumSeq(v))
InOrder == \A v \in {P(img), Mg(img)} : \A i, j \in 1..Len(v) : v[i] <= v[j] => Leq(v[i], v[j], Len(v), 3, SumSeq(v))
PhaseFree == P(img) = P(turned)
\* the order of brightness is that of magnitude for both displays
SameOrder == \A i, j \in 1..Len(img) : P(img)[i] <= P(img)[j] <=> Mg(img)[i] <= Mg(img)[j]
Emit == (EmitCases /\ Len(img) > 0 /\ (Len(img) < N \/ \A i \in 1..N : turned[i] # img[i] \/ img[i] = <<0, 0>>)) =>
            PrintT("BEHAVIOUR " \o ToJson([img |-> img, turned |-> turned]))
=============================================================================
