------------------------------- MODULE TileGeo ------------------------------
(* Where the pixels of a tile lie in the image it was cut from, through any   *)
(* number of cuts and resizes.  A place is <<x, d>>: x / d source pixels; a   *)
(* mapping of one axis is <<n, d, o>>: position = (n * p + o) / d for tile    *)
(* coordinate p.                                                              *)
EXTENDS Integers, Sequences
Ident == <<1, 1, 0>>
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE GCD(b, a % b)
Reduced(m) == LET g == GCD(GCD(m[2], IF m[3] < 0 THEN -m[3] ELSE m[3]), m[1]) IN <<m[1] \div g, m[2] \div g, m[3] \div g>>
\* the window starts at w0 and its size a is shown by b pixels:  p -> w0 + p * a / b
Cut(m, w0, a, b) == Reduced(<<m[1] * a, m[2] * b, (m[1] * w0 + m[3]) * b>>)
At(m, p) == <<m[1] * p + m[3], m[2]>>
\* |x/d - y| * k <= t   for y, t in 1/k
Near(pl, y, k, t) == LET e == pl[1] * k - y * pl[2] IN e <= t * pl[2] /\ -e <= t * pl[2]
\* size of a tile pixel in source pixels, in 1/k, rounded up
PixelSize(m, k) == ((m[1] * k) + m[2] - 1) \div m[2]
=============================================================================
