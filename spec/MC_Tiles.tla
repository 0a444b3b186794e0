------------------------------ MODULE MC_Tiles ------------------------------
(* Exhaustive: every zoom level up to Z, every tile, every half-unit position *)
(* of one axis; descending into children is the only transition.              *)
EXTENDS Tiles, TLC, Json
CONSTANTS Z, EmitCases
VARIABLES z, t, u        \* u: position in half units of the finest tiles
vars == <<z, t, u>>
D == Z + 1
Init == z = 0 /\ t = 0 /\ u \in 0..Side(D)
Descend == z < Z /\ \E c \in Children(t) : t' = c /\ z' = z + 1 /\ UNCHANGED u
Next == Descend
Spec == Init /\ [][Next]_vars
Exists == t \in Tiles(z)
\* no gaps, and overlaps only on the shared edge of two neighbours
Partition == LET a == At(D, z, u) IN
    /\ Cardinality(a) \in {1, 2}
    /\ (Cardinality(a) = 2) <=> (u % Side(D - z) = 0 /\ u # 0 /\ u # Side(D))
    /\ \A x, y \in a : Abs(x - y) <= 1
WholeMap == Lo(D, z, 0) = 0 /\ Hi(D, z, Side(z) - 1) = Side(D)
\* a tile is exactly its children
Nesting == z < Z => /\ Lo(D, z, t) = Lo(D, z + 1, 2 * t) /\ Hi(D, z, t) = Hi(D, z + 1, 2 * t + 1)
                    /\ Hi(D, z + 1, 2 * t) = Lo(D, z + 1, 2 * t + 1)
                    /\ (Covers(D, z, t, u) <=> \E c \in Children(t) : Covers(D, z + 1, c, u))
\* the tile at a finer level lies in the tile at a coarser one
LocateNests == z < Z => {Parent(c) : c \in At(D, z + 1, u)} = At(D, z, u) \/ Cardinality(At(D, z + 1, u)) = 2
\* the acceptance rule used on recorded answers admits exactly the tiles containing the position
Rule == LET w == Side(D - z) IN
        At(D, z, u) = {a \in (0-1)..Side(z) : MayAnswer(z, u \div w, u % w, w, 0, a)}
Emit == (EmitCases /\ z > 0 /\ Covers(D, z, t, u)) => PrintT("BEHAVIOUR " \o ToJson([d |-> D, z |-> z, t |-> t, u |-> u]))
=============================================================================
