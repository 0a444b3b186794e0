------------------------------ MODULE MC_Index ------------------------------
(* All collections of a few features over a small grid, and queries.          *)
EXTENDS Index, TLC, Json
CONSTANTS N, MaxFeatures, EmitCases
VARIABLES gs, other, space, q
vars == <<gs, other, space, q>>
Pt(x, y) == << <<<<x, y>>>> >>
Seg(a, b) == << <<a, b>> >>
BoxP(a, b, c, d) == <<<<a, b>>, <<c, b>>, <<c, d>>, <<a, d>>>>
Geoms == {<<>>, Pt(0, 0), Pt(1, 2), Seg(<<0, 0>>, <<N, N>>), Seg(<<2, 0>>, <<2, 2>>), <<BoxP(0, 0, 1, 1)>>, <<BoxP(1, 1, N, 2)>>,
          << <<<<0, N>>, <<N, N>>, <<0, 1>>>> >>, <<BoxP(0, 0, 0, 0), BoxP(2, 2, N, N)>>,
          <<BoxP(0, 0, N, 0), BoxP(0, N, N, N), BoxP(0, 0, 0, N), BoxP(N, 0, N, N)>>}
Init == /\ gs = <<>> /\ other = <<>> /\ space \in {"image", "world"} /\ q \in Geoms
Next == \E g \in Geoms : Len(gs) < MaxFeatures /\ gs' = Append(gs, g) /\ UNCHANGED <<other, space, q>>
Spec == Init /\ [][Next]_vars
\* set-theoretic reading on the half-integer refinement of the grid (exact for these shapes: all edges are axis-parallel or diagonal)
Half == {<<x, y>> : x \in 0..(2 * N), y \in 0..(2 * N)}
Dbl(p) == [i \in 1..Len(p) |-> <<2 * p[i][1], 2 * p[i][2]>>]
In(pt, p) == Meet(<<pt>>, Dbl(p))
Cover(g) == {pt \in Half : \E i \in 1..Len(g) : In(pt, g[i])}
ExactlyCommonPoints == \A i \in 1..Len(gs) : i \in Answer(gs, q) <=> Cover(gs[i]) \cap Cover(q) # {}
Symmetric == \A i \in 1..Len(gs) : Intersects(gs[i], q) = Intersects(q, gs[i])
NothingWithoutGeometry == \A i \in Answer(gs, q) : gs[i] # <<>> /\ q # <<>>
Boxy(g) == \A i \in 1..Len(g) : IsBox(g[i])
NearestIsIntersectingIfAny == (q # <<>> /\ Boxy(q) /\ \A i \in 1..Len(gs) : Boxy(gs[i]))
                              => (Answer(gs, q) # {} => Nearest(gs, q, 0) = Answer(gs, q))
\* adding a feature never changes the answer for the others
Local == [][\A i \in 1..Len(gs) : i \in Answer(gs, q) <=> i \in Answer(gs', q)]_vars
Emit == (EmitCases /\ Len(gs) = MaxFeatures) => PrintT("BEHAVIOUR " \o ToJson([gs |-> gs, space |-> space, q |-> q]))
=============================================================================
