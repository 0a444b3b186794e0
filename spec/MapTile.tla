------------------------------- MODULE MapTile ------------------------------
(* A map tile of an image.  Map places are integers u (eastwards), v          *)
(* (northwards); the image has w by h pixels and pixel coordinates            *)
(*     x = (m[1] u + m[2] v + m[3]) / m[7],  y = (m[4] u + m[5] v + m[6]) / m[7] *)
(* A map tile shows the box <<u0, v0, u1, v1>> by size <<W, H>> pixels, row 0 *)
(* in the north.  Places in the image are compared in 1/K pixels.             *)
EXTENDS Arith, FiniteSets
K == 16
\* centre of tile pixel i, j: its map place in 1/(2 W), 1/(2 H)
U2(box, size, i) == box[1] * 2 * size[1] + (box[3] - box[1]) * (2 * i + 1)
V2(box, size, j) == box[4] * 2 * size[2] - (box[4] - box[2]) * (2 * j + 1)
Frac(n, d) == IF d < 0 THEN (-n) \div (-d) ELSE n \div d
\* image place of a tile pixel in 1/K pixels, each term rounded down
Place(m, box, size, i, j) ==
    LET p(a, b, c) == Frac(K * a * U2(box, size, i), 2 * size[1] * m[7]) + Frac(K * b * V2(box, size, j), 2 * size[2] * m[7]) + Frac(K * c, m[7])
    IN <<p(m[1], m[2], m[3]), p(m[4], m[5], m[6])>>
Corner(m, u, v) == <<Frac(K * (m[1] * u + m[2] * v + m[3]), m[7]), Frac(K * (m[4] * u + m[5] * v + m[6]), m[7])>>
Corners(m, b) == {Corner(m, b[1], b[2]), Corner(m, b[3], b[2]), Corner(m, b[1], b[4]), Corner(m, b[3], b[4])}
\* extent of a tile pixel in the image in 1/K pixels, rounded up
Step(m, box, size) ==
    LET s(a, b) == CeilDiv(K * Abs(a) * (box[3] - box[1]), size[1] * Abs(m[7])) + CeilDiv(K * Abs(b) * (box[4] - box[2]), size[2] * Abs(m[7]))
    IN Max2(s(m[1], m[2]), s(m[4], m[5]))
WellInside(w, h, p, t) == p[1] >= t /\ p[2] >= t /\ p[1] <= w * K - t /\ p[2] <= h * K - t
WellOutside(w, h, p, t) == p[1] <= -t \/ p[2] <= -t \/ p[1] >= w * K + t \/ p[2] >= h * K + t
\* all of the places lie beyond the same side of the image
Beyond(w, h, ps, t) == \/ \A p \in ps : p[1] <= -t
                       \/ \A p \in ps : p[2] <= -t
                       \/ \A p \in ps : p[1] >= w * K + t
                       \/ \A p \in ps : p[2] >= h * K + t
=============================================================================
