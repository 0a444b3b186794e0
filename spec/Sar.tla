--------------------------------- MODULE Sar --------------------------------
(* SAR ground points.  An image location fixes a range and a range rate, that *)
(* is a circle; on the imaged side of the track the circle is a path that     *)
(* rises from the lowest to the highest terrain.  A path is a sequence of     *)
(* points [z, t]: z the height of the point, t the height of the terrain      *)
(* there (NoTerrain where the elevation model has none).  Ground points of    *)
(* the location are the places where the path passes through the terrain;     *)
(* the lowest one is the answer, and the default surface is the answer where  *)
(* there is none.                                                             *)
EXTENDS Arith, FiniteSets
NoTerrain == NaN
Side(p) == IF p.z > p.t THEN 1 ELSE IF p.z < p.t THEN 0 - 1 ELSE 0
Covered(p) == p.t # NoTerrain
\* the path passes through the terrain at point n, or between n and n + 1
Meets(path, n) ==
    /\ Covered(path[n])
    /\ \/ Side(path[n]) = 0
       \/ n < Len(path) /\ Covered(path[n + 1]) /\ Side(path[n]) * Side(path[n + 1]) < 0
Crossings(path) == {n \in 1..Len(path) : Meets(path, n)}
\* a crossing that a walk with steps shorter than k path points cannot overlook: the path stays on one side for k
\* points before it and on the other side for k points after it
Wide(path, n, k) ==
    /\ n - k >= 1 /\ n + k + 1 <= Len(path)
    /\ \A i \in (n - k)..(n + k + 1) : Covered(path[i])
    /\ \A i \in (n - k)..(n - 1) : Side(path[i]) # 0 /\ Side(path[i]) = Side(path[n - k])
    /\ \A i \in (n + 1)..(n + k + 1) : Side(path[i]) # 0 /\ Side(path[i]) = Side(path[n + k + 1])
    /\ Side(path[n - k]) # Side(path[n + k + 1])
Lowest(S) == CHOOSE n \in S : \A m \in S : n <= m

(* ---- judging an observed answer: height got, k the allowance in path points *)
ZAt(path, n) == path[Clamp(n, 1, Len(path))].z
AtCrossing(path, n, k, got, tol) == got >= ZAt(path, n - k) - tol /\ got <= ZAt(path, n + 1 + k) + tol
IsAnswer(path, k, got, dflt, tol) ==
    LET C == Crossings(path)
        wide == {n \in C : Wide(path, n, k)}
    IN IF wide = {}
       THEN Within(got, dflt, tol) \/ \E n \in C : AtCrossing(path, n, k, got, tol)
       ELSE LET w == Lowest(wide) IN \E n \in C : n <= w /\ AtCrossing(path, n, k, got, tol)
\* where the terrain jumps at a tile border the walk may not know of the other tile: any meeting will do
IsMeeting(path, k, got, dflt, tol) ==
    LET C == Crossings(path)
    IN \/ \E n \in C : AtCrossing(path, n, k, got, tol)
       \/ Within(got, dflt, tol) /\ \A n \in C : ~Wide(path, n, k)
=============================================================================
