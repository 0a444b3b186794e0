------------------------------- MODULE MC_Dem -------------------------------
(* All request histories over a few tiles.  The model keeps real content in   *)
(* the cache, answers from it, and evicts; the invariants say that no history *)
(* changes an answer and that the cache stays within its bound.               *)
EXTENDS Dem, Json, IOUtils, SequencesExt
CONSTANTS Tiles, Absent, Caps, MaxLen, Spots, EmitTraces
VARIABLES cap, order, content, last, hist
vars == <<cap, order, content, last, hist>>

T(k) == [grid |-> << <<10 * k, 20 * k, 5>>, <<k, 3 * k, 7>> >>, hasnd |-> (k = 2), nodata |-> 40]
Idx == CHOOSE f \in [Tiles -> 1..Cardinality(Tiles)] : \A a, b \in Tiles : f[a] = f[b] => a = b
Store == [t \in Tiles \cup Absent |-> IF t \in Absent THEN Missing ELSE T(Idx[t])]

Init == /\ cap \in Caps /\ order = <<>> /\ content = [t \in {} |-> Missing]
        /\ last = [tile |-> "", spot |-> <<0, 0>>, out |-> -1] /\ hist = <<>>

\* consult the cache, load on a miss, evict the least recently used
Request(tile, spot) ==
    LET hit == tile \in DOMAIN content
        c == IF hit THEN content[tile] ELSE Store[tile]
        ord == Touch(order, tile, cap)
        view == [t \in {tile} |-> c]
    IN /\ order' = ord
       /\ content' = [t \in {ord[i] : i \in DOMAIN ord} |-> IF t = tile THEN c ELSE content[t]]
       /\ last' = [tile |-> tile, spot |-> spot,
                   out |-> CHOOSE v \in Answer(view, tile, spot[1], spot[2], -1) : TRUE]
       /\ hist' = Append(hist, <<tile, spot>>)
       /\ UNCHANGED cap
NoTile(spot) == /\ last' = [tile |-> "", spot |-> spot, out |-> -1]
                /\ hist' = Append(hist, <<"", spot>>)
                /\ UNCHANGED <<cap, order, content>>

Next == /\ Len(hist) < MaxLen
        /\ \E k \in Spots : LET s == IF k = 0 THEN <<0, 0>> ELSE <<5, 3>> IN (\E t \in Tiles \cup Absent : Request(t, s)) \/ NoTile(s)
Spec == Init /\ [][Next]_vars

HistoryIndependent == hist # <<>> =>
    last.out \in Answer(Store, last.tile, last.spot[1], last.spot[2], -1)
CacheBounded == Len(order) <= cap /\ DOMAIN content = {order[i] : i \in DOMAIN order}
CacheCoherent == \A t \in DOMAIN content : content[t] = Store[t]
NoDuplicates == \A i, j \in DOMAIN order : order[i] = order[j] => i = j

\* bilinear surface stays between the posts it blends, and equals a post at a post
ASSUME \A t \in Tiles : \A x \in 0..16, y \in 0..8 :
          LET ps == {Post(Store[t], i, j) : i \in 0..2, j \in 0..1} IN
          /\ \E p \in ps : 64 * p >= Bilinear(Store[t], x, y)
          /\ \E p \in ps : 64 * p <= Bilinear(Store[t], x, y)
          /\ (x % 8 = 0 /\ y % 8 = 0) => Bilinear(Store[t], x, y) = 64 * Post(Store[t], x \div 8, y \div 8)

\* complete histories, printed for replay on the code
Emit == (EmitTraces /\ Len(hist) = MaxLen) =>
           PrintT("BEHAVIOUR " \o ToJson([cap |-> cap, h |-> [i \in DOMAIN hist |-> hist[i][1]]]))
=============================================================================
