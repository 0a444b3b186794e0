-------------------------------- MODULE Index -------------------------------
(* The spatial index of features.  A geometry is a sequence of convex pieces, *)
(* each a sequence of integer vertices (one vertex: a point, two: a segment); *)
(* the empty sequence is an absent or empty geometry.  Geometries are closed  *)
(* sets, so touching is intersecting.                                         *)
EXTENDS Arith, FiniteSets
LoX(p) == CHOOSE v \in {p[i][1] : i \in 1..Len(p)} : \A i \in 1..Len(p) : v <= p[i][1]
HiX(p) == CHOOSE v \in {p[i][1] : i \in 1..Len(p)} : \A i \in 1..Len(p) : v >= p[i][1]
LoY(p) == CHOOSE v \in {p[i][2] : i \in 1..Len(p)} : \A i \in 1..Len(p) : v <= p[i][2]
HiY(p) == CHOOSE v \in {p[i][2] : i \in 1..Len(p)} : \A i \in 1..Len(p) : v >= p[i][2]
BoxMeet(p, q) == LoX(p) <= HiX(q) /\ LoX(q) <= HiX(p) /\ LoY(p) <= HiY(q) /\ LoY(q) <= HiY(p)

Verts(p) == {<<p[i][1], p[i][2]>> : i \in 1..Len(p)}
IsBox(p) == \A v \in Verts(p) : v[1] \in {LoX(p), HiX(p)} /\ v[2] \in {LoY(p), HiY(p)}
                /\ \A x \in {LoX(p), HiX(p)}, y \in {LoY(p), HiY(p)} : <<x, y>> \in Verts(p)
\* separating axes of two convex sets: the normals of (and, for degenerate ones, the directions along) lines through their vertices
Dirs(p, q) == LET V == Verts(p) \cup Verts(q)
                  D == {<<b[1] - a[1], b[2] - a[2]>> : a \in V, b \in V} \ {<<0, 0>>}
              IN D \cup {<<-d[2], d[1]>> : d \in D}
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Separated(p, q, d) == \A a \in Verts(p), b \in Verts(q) : Dot(a, d) < Dot(b, d)
Meet(p, q) == IF ~BoxMeet(p, q) THEN FALSE
              ELSE IF IsBox(p) /\ IsBox(q) THEN TRUE
              ELSE ~\E d \in Dirs(p, q) : Separated(p, q, d)
Intersects(g, h) == \E i \in 1..Len(g), j \in 1..Len(h) : Meet(g[i], h[j])
\* the answer of a query: exactly the positions of the features whose geometry meets the queried one
Answer(gs, h) == {i \in 1..Len(gs) : Intersects(gs[i], h)}

\* nearest: squared distances between boxes
Gap(lo1, hi1, lo2, hi2) == Max2(0, Max2(lo1 - hi2, lo2 - hi1))
BoxDist2(p, q) == LET dx == Gap(LoX(p), HiX(p), LoX(q), HiX(q))
                      dy == Gap(LoY(p), HiY(p), LoY(q), HiY(q)) IN dx * dx + dy * dy
Least(S) == CHOOSE v \in S : \A w \in S : v <= w
Dist2(g, h) == Least({BoxDist2(g[i], h[j]) : i \in 1..Len(g), j \in 1..Len(h)})
Known(gs) == {i \in 1..Len(gs) : gs[i] # <<>>}
NearestDist2(gs, h) == Least({Dist2(gs[i], h) : i \in Known(gs)})
\* every feature at the smallest distance, if that is within the maximum distance
Nearest(gs, h, max) == IF h = <<>> \/ Known(gs) = {} THEN {}
                       ELSE LET m == NearestDist2(gs, h) IN
                            IF m > max * max THEN {} ELSE {i \in Known(gs) : Dist2(gs[i], h) = m}
=============================================================================
