------------------------------- MODULE Tiles --------------------------------
(* The web mercator quad tile matrix set.  The map is a square; at zoom z it  *)
(* is divided into 2^z by 2^z equal tiles, columns counted from the west and  *)
(* rows from the south.  Positions along an axis are measured in units of     *)
(* 1/2^Z of the map, so a tile of zoom z is the closed interval of 2^(Z-z)    *)
(* units starting at its index.                                               *)
EXTENDS Arith, FiniteSets
Side(z) == Pow(2, z)
Lo(Z, z, t) == t * Side(Z - z)
Hi(Z, z, t) == (t + 1) * Side(Z - z)
Tiles(z) == 0..(Side(z) - 1)
Covers(Z, z, t, u) == Lo(Z, z, t) <= u /\ u <= Hi(Z, z, t)
\* the tiles a position may be given to: one inside, two on a shared edge
At(Z, z, u) == {t \in Tiles(z) : Covers(Z, z, t, u)}
Children(t) == {2 * t, 2 * t + 1}
Parent(t) == t \div 2
\* an answer for a position given as whole tile n and fraction f (1/m)
MayAnswer(z, n, f, m, tol, a) ==
    /\ 0 <= a /\ a < Side(z)
    /\ \/ a = n
       \/ a = n - 1 /\ f <= tol
       \/ a = n + 1 /\ f >= m - tol
=============================================================================
