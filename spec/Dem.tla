-------------------------------- MODULE Dem --------------------------------
(* A tiled elevation model in front of a tile store, with a bounded cache of  *)
(* recently used tiles.                                                       *)
(*                                                                            *)
(* A store maps a tile name to [grid, nodata] (grid: sequence of rows of      *)
(* integer posts) or to Missing.  Grid locations are integers in 1/8 post, so *)
(* the bilinear surface is exact in 1/64 metre.                               *)
EXTENDS Arith, FiniteSets, TLC

Missing == [grid |-> <<>>, hasnd |-> FALSE, nodata |-> 0]
IsMissing(t) == t.grid = <<>>

Rows(t) == Len(t.grid)
Cols(t) == Len(t.grid[1])
Post(t, x, y) == t.grid[y + 1][x + 1]           \* x column, y row, both from 0

\* clamp to the posts: locations beyond the outermost post take its value
GX(t, x8) == Clamp(x8, 0, 8 * (Cols(t) - 1))
GY(t, y8) == Clamp(y8, 0, 8 * (Rows(t) - 1))

Corners(t, x8, y8) ==
    LET x == GX(t, x8)  y == GY(t, y8)
        x0 == x \div 8  y0 == y \div 8
        x1 == Min2(x0 + 1, Cols(t) - 1)  y1 == Min2(y0 + 1, Rows(t) - 1)
        fx == x % 8  fy == y % 8
    IN << <<x0, y0, (8 - fx) * (8 - fy)>>, <<x1, y0, fx * (8 - fy)>>, <<x0, y1, (8 - fx) * fy>>, <<x1, y1, fx * fy>> >>

\* elevation in 1/64 m
Bilinear(t, x8, y8) ==
    LET c == Corners(t, x8, y8)
    IN SumSeq([i \in 1..4 |-> c[i][3] * Post(t, c[i][1], c[i][2])])

\* a void post contributes to the location (nonzero weight) / touches it at all (floating point noise on a grid line)
VoidInside(t, x8, y8) ==
    LET c == Corners(t, x8, y8) IN t.hasnd /\ \E i \in 1..4 : c[i][3] > 0 /\ Post(t, c[i][1], c[i][2]) = t.nodata
VoidNear(t, x8, y8) ==
    t.hasnd /\ \E dx \in -1..1, dy \in -1..1 :
        LET x == Clamp((GX(t, x8) + dx) \div 8, 0, Cols(t) - 1)  y == Clamp((GY(t, y8) + dy) \div 8, 0, Rows(t) - 1)
            x2 == Clamp(CeilDiv(GX(t, x8) + dx, 8), 0, Cols(t) - 1)  y2 == Clamp(CeilDiv(GY(t, y8) + dy, 8), 0, Rows(t) - 1)
        IN t.nodata \in {Post(t, x, y), Post(t, x2, y), Post(t, x, y2), Post(t, x2, y2)}

(* The answers the store alone determines: the elevations (1/64 m) a location may end with. *)
Answer(store, tile, x8, y8, before) ==
    IF tile = "" \/ IsMissing(store[tile]) THEN {before}
    ELSE LET t == store[tile] IN
         IF VoidInside(t, x8, y8) THEN {before}
         ELSE IF VoidNear(t, x8, y8) THEN {before, Bilinear(t, x8, y8)}
         ELSE {Bilinear(t, x8, y8)}

ValidPosts(t) == {Post(t, x, y) : x \in 0..(Cols(t) - 1), y \in 0..(Rows(t) - 1)} \ (IF t.hasnd THEN {t.nodata} ELSE {})

(* ---- the cache: least recently used, most recent last ---- *)
RECURSIVE Without(_, _)
Without(q, x) == IF q = <<>> THEN <<>> ELSE IF Head(q) = x THEN Without(Tail(q), x) ELSE <<Head(q)>> \o Without(Tail(q), x)
Touch(q, x, cap) ==
    LET p == Append(Without(q, x), x) IN IF Len(p) > cap THEN SubSeq(p, Len(p) - cap + 1, Len(p)) ELSE p
InSeq(q, x) == \E i \in DOMAIN q : q[i] = x
=============================================================================
