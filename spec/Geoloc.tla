------------------------------- MODULE Geoloc -------------------------------
(* Geolocating image features with an approximation grid.                     *)
(* Image coordinates are in quarter pixels.  The ground model m gives, in     *)
(* sixteenths of a micro-degree relative to its base,                         *)
(*   lon(x, y) = a1 x + a2 y + a3 x^2 + a4 y^2 + a5 x y      (x, y in pixels) *)
(* and lat likewise with b1..b5; the elevation is e0 + e1 x metres.           *)
EXTENDS Arith, FiniteSets
Poly16(c, X, Y) == 4 * c[1] * X + 4 * c[2] * Y + c[3] * X * X + c[4] * Y * Y + c[5] * X * Y
\* bilinear interpolation of such a polynomial on a grid with spacing hx, hy (pixels) is off by at most this many sixteenths
GridError(c, hx, hy) == 4 * (Abs(c[3]) * hx * hx + Abs(c[4]) * hy * hy) + 1

\* exact value of the interpolation along one axis of x^2 between the knots k0 and k1, times (k1 - k0)
Interp2(k0, k1, x) == k0 * k0 * (k1 - x) + k1 * k1 * (x - k0)

MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxOf(S) == CHOOSE v \in S : \A w \in S : v >= w

(* A feature: struct names the geometry types and the number of vertices of   *)
(* every part and ring, v its vertices; bbox is <<>> or four numbers.         *)
\* does geolocating give the feature a geometry?
GetsGeometry(f) == f.struct # "none"
Corners(b) == {<<b[1], b[2]>>, <<b[1], b[4]>>, <<b[3], b[2]>>, <<b[3], b[4]>>}
Extent(fs, i) == LET pts == UNION {{fs[k].v[j] : j \in 1..Len(fs[k].v)} \cup (IF fs[k].bbox = <<>> THEN {} ELSE Corners(fs[k].bbox)) : k \in DOMAIN fs}
                     c == {p[i] : p \in pts}
                 IN IF c = {} THEN 0 ELSE MaxOf(c) - MinOf(c)
\* spacing of the grid, in pixels, rounded up: the features' extent and a margin
Spacing(ext4, n) == CeilDiv(CeilDiv(ext4, 4) + 24, n - 1)
=============================================================================
