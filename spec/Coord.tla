------------------------------- MODULE Coord --------------------------------
(* Coordinate values and the geodetic / geocentric pair.                      *)
EXTENDS Arith, FiniteSets

(* ---- value types: several names for each component *)
Names == [world |-> [x |-> 1, y |-> 2, z |-> 3],
          geodetic |-> [x |-> 1, y |-> 2, z |-> 3, longitude |-> 1, latitude |-> 2, elevation |-> 3],
          image |-> [x |-> 1, y |-> 2, c |-> 1, r |-> 2]]
Arity == [world |-> 3, geodetic |-> 3, image |-> 2]
Put(val, kind, name, v) == [val EXCEPT ![Names[kind][name]] = v]
Get(val, kind, name) == val[Names[kind][name]]
Shown(val, kind) == [n \in DOMAIN Names[kind] |-> Get(val, kind, n)]

(* ---- WGS-84 landmarks, in centimetres (per = 100) or decimetres (per = 10) *)
SemiMajor(per) == 6378137 * per
SemiMinor(per) == IF per = 100 THEN 635675231 ELSE 63567523
\* quarter turns of longitude q = 0..3 on the equator, pole p = 1 / -1
OnEquator(q, h, per) == LET r == SemiMajor(per) + h IN
    CASE q = 0 -> <<r, 0, 0>> [] q = 1 -> <<0, r, 0>> [] q = 2 -> <<0 - r, 0, 0>> [] q = 3 -> <<0, 0 - r, 0>>
AtPole(p, h, per) == <<0, 0, p * (SemiMinor(per) + h)>>
\* symmetries of the ellipsoid
QuarterTurn(v) == <<0 - v[2], v[1], v[3]>>
Mirror(v) == <<v[1], v[2], 0 - v[3]>>
Close(a, b, tol) == \A i \in 1..3 : Within(a[i], b[i], tol)
=============================================================================
