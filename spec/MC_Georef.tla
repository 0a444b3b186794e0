------------------------------ MODULE MC_Georef -----------------------------
(* An image whose corners (the tie points) are carried step by step around    *)
(* the world.  Tie points are stated with longitudes in the usual range, so   *)
(* west and east of the image can have very different numbers.  A model that  *)
(* takes longitudes relative to one tie point sees the same image everywhere: *)
(* the shape never changes, positions are recovered, and the ties of an       *)
(* affine transform determine it.  The naive reading of the numbers breaks    *)
(* exactly where the image crosses the antimeridian.                          *)
EXTENDS Georef, FiniteSets, TLC, Json, Sequences
CONSTANTS TurnLen, Coefs, Sizes, Steps, EmitCases
VARIABLES t, n, lon
vars == <<t, n, lon>>
Cs == {c - 2 : c \in Coefs}
Ts == {[a |-> a, b |-> b, c |-> c, d |-> d] : a, b, c, d \in Cs}
Small(tt, nn) == nn * (Abs(tt.a) + Abs(tt.b)) < TurnLen \div 2
Init == t \in {x \in Ts : AffineDet(x) # 0} /\ n \in Sizes /\ Small(t, n) /\ lon = 0
Next == \E s \in Steps : lon' = (lon + s) % TurnLen /\ UNCHANGED <<t, n>>
Spec == Init /\ [][Next]_vars

Corners == <<<<0, 0>>, <<n, 0>>, <<n, n>>, <<0, n>>>>
\* longitudes as stated
Stated(p) == Wrap(lon + AffineX(t, p[1], p[2]), TurnLen)
StatedLat(p) == AffineY(t, p[1], p[2])
Ref == Stated(Corners[1])
Seen(p) == Near(Stated(p), Ref, TurnLen) - Ref
StatedInRange == \A i \in 1..4 : -(TurnLen \div 2) <= Stated(Corners[i]) /\ Stated(Corners[i]) < TurnLen \div 2
SameShapeEverywhere == \A i \in 1..4 : Seen(Corners[i]) = AffineX(t, Corners[i][1], Corners[i][2])
Grounds == <<<<Seen(Corners[1]), StatedLat(Corners[1])>>, <<Seen(Corners[2]), StatedLat(Corners[2])>>,
             <<Seen(Corners[3]), StatedLat(Corners[3])>>, <<Seen(Corners[4]), StatedLat(Corners[4])>>>>
TiesDetermine == Determines(Corners) /\ Determines(Grounds)
\* the transform recovered from three of the ties is the transform
Recovered == [a |-> (Grounds[2][1] - Grounds[1][1]) \div n, b |-> (Grounds[4][1] - Grounds[1][1]) \div n,
              c |-> (Grounds[2][2] - Grounds[1][2]) \div n, d |-> (Grounds[4][2] - Grounds[1][2]) \div n]
RecoversTransform == Recovered = t
Places == {<<x, y>> : x, y \in 0..n}
\* ground positions are recovered from what is stated, whichever turn their longitude was given in
BothWays == \A p \in Places : \A k \in {-1, 0, 1} : Near(Stated(p) + k * TurnLen, Ref, TurnLen) - Ref = AffineX(t, p[1], p[2])
OnePlaceOnePosition == \A p, q \in Places : (Stated(p) = Stated(q) /\ StatedLat(p) = StatedLat(q)) => p = q
Crosses == \E p, q \in Places : Abs(Stated(p) - Stated(q)) >= TurnLen \div 2
NaiveIsWrongOnlyWhereItCrosses == (\A i \in 1..4 : Stated(Corners[i]) - Ref = AffineX(t, Corners[i][1], Corners[i][2])) = ~(\E i \in 2..4 : Abs(Stated(Corners[i]) - Ref) >= TurnLen \div 2)
Emit == EmitCases => PrintT("BEHAVIOUR " \o ToJson([t |-> t, n |-> n, lon |-> lon, cross |-> Crosses]))
=============================================================================
