------------------------------- MODULE Gen_Cut ------------------------------
(* Random histories of the design (TLC simulation).                           *)
EXTENDS MC_Cut
InsideWins(w, h) == {v \in Wins(w, h) : Inside([w |-> w, h |-> h], v)}
Stop == hist # <<>> /\ Len(hist) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson([w |-> W, h |-> H, hist |-> hist]))
        /\ hist' = Append(hist, <<"end", <<>> >>) /\ UNCHANGED <<img, opts, tile>>
GNext == \/ Len(hist) < MaxLen /\ Cut(RandomElement(Wins(img[3], img[4])))
         \/ Len(hist) < MaxLen /\ Cut(RandomElement(InsideWins(img[3], img[4])))
         \/ Len(hist) < MaxLen /\ Open
         \/ Stop
GSpec == Init /\ [][GNext]_vars
=============================================================================
