----------------------------- MODULE Gen_TileGeo ----------------------------
(* Random histories of the design in both axes (TLC simulation); sizes of the *)
(* image in units of the driver's choice.                                     *)
EXTENDS MC_TileGeo
CONSTANT H
VARIABLES y, ylast
gvars == <<img, meta, chain, last, hist, y, ylast>>
GInit == Init /\ y = H /\ ylast = 0
GCut == /\ Len(hist) < MaxLen
        /\ \E wx \in {RandomElement({w \in Wins(img[1]) : w[2] >= 2})}, wy \in {RandomElement({w \in Wins(y) : w[2] >= 2})} :
           \E bx \in {RandomElement({wx[2]} \cup Outs(wx[2]))}, by \in {RandomElement({wy[2]} \cup Outs(wy[2]))}, keep \in {RandomElement({TRUE, FALSE})} :
           LET same == keep \/ bx < 2 \/ by < 2
               ox == IF same THEN wx[2] ELSE bx
               oy == IF same THEN wy[2] ELSE by
           IN /\ last' = <<wx[1], wx[2], ox>> /\ meta' = Cut(img[2], wx[1], wx[2], ox) /\ ylast' = oy
              /\ hist' = Append(hist, <<"cut", wx[1], wy[1], wx[2], wy[2], ox, oy>>) /\ UNCHANGED <<img, chain, y>>
GOpen == Len(hist) < MaxLen /\ last # <<>> /\ last[3] >= 4 /\ ylast >= 4 /\ Open /\ y' = ylast /\ UNCHANGED ylast
Stop == hist # <<>> /\ Len(hist) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson([w |-> W, h |-> H, hist |-> hist]))
        /\ hist' = Append(hist, <<"end", 0, 0, 0>>) /\ UNCHANGED <<img, meta, chain, last, y, ylast>>
GNext == GCut \/ GOpen \/ Stop
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
