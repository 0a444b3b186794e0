------------------------------- MODULE Georef -------------------------------
(* Georeferencing by an affine transform or by tie points.                    *)
(* Ground positions are integers on a plane (longitude or easting, latitude   *)
(* or northing); a full turn of longitude is TurnLen units.                   *)
EXTENDS Arith

\* the affine relation of a position (x, y), given in 1/u pixels: offsets from the origin of the transform, times u
AffineX(t, x, y) == t.a * x + t.b * y
AffineY(t, x, y) == t.c * x + t.d * y
AffineDet(t) == t.a * t.d - t.b * t.c

\* the projective relation: numerators over the common denominator
ProjDen(h, x, y) == h.g0 + h.gx * x + h.gy * y
ProjX(h, x, y) == h.a0 + h.ax * x + h.ay * y
ProjY(h, x, y) == h.b0 + h.bx * x + h.by * y
\* three positions are in line
InLine(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) = (q[2] - p[2]) * (r[1] - p[1])
\* four positions determine a projective relation when no three are in line
Determines(ps) == \A i, j, k \in DOMAIN ps : (i < j /\ j < k) => ~InLine(ps[i], ps[j], ps[k])

\* longitudes: the usual range, and the one closest to a reference
Wrap(v, turn) == ((v + turn \div 2) % turn) - turn \div 2
Near(v, ref, turn) == ref + Wrap(v - ref, turn)
=============================================================================
