----------------------------- MODULE MC_ChipMeta ----------------------------
(* Every history of requests against one image: cutting (accepted or          *)
(* refused), encoding the current metadata and opening the result as the next *)
(* image.  The design remembers the metadata of the opened image; what it     *)
(* writes then depends on the last request alone, and a chip of a chip is the *)
(* chip of the composed window.                                               *)
EXTENDS ChipMeta, TLC, Json
CONSTANTS Kind, N, Grid, MaxLen, EmitCases
Wins(w, h) == {<<x, y, a, b>> \in {0, Grid} \X {0, Grid} \X (1..w) \X (1..h) :
                 /\ x + a <= w /\ y + b <= h /\ (a \in {1, Grid} \/ a = w) /\ (b \in {Grid + 1} \/ b = h)}
Outs(win) == {<<>>} \cup (IF EmitCases THEN {<<win[3] + 2, win[4]>>} ELSE {})
VARIABLES orig, cur, net, last, hist
vars == <<orig, cur, net, last, hist>>
\* the size of the opened image, its window in the very first image
\* SICD, SIDD (the full image) or SIDDCHIP (an image that is a chip of another, with corners of no parallelogram)
Full == CASE Kind = "SICD" -> <<7, 3, N, N>> [] Kind = "SIDD" -> <<>>
          [] OTHER -> <<N, N, << <<3840, 0>>, <<19200, 7680>>, <<23040, 30720>>, <<0, 15360>> >> >>
Init == /\ orig = Full /\ cur = Full /\ hist = <<>>
        /\ net = <<0, 0, N, N>> /\ last = <<0, 0, N, N>>
Compose(a, b) == <<a[1] + b[1], a[2] + b[2], b[3], b[4]>>
Cut(win, out) ==
    /\ IF Kind = "SICD" /\ Scales(win, out) THEN UNCHANGED <<cur, last>>
       ELSE /\ cur' = (IF Kind = "SICD" THEN SicdCut(orig, win) ELSE SiddCut(orig, win, out))
            /\ last' = Compose(net, win)
    /\ UNCHANGED <<orig, net>>
    /\ hist' = Append(hist, <<"cut", win, out>>)
Reopen == /\ hist # <<>> /\ hist[Len(hist)][1] # "reopen"
          /\ orig' = cur /\ net' = last /\ UNCHANGED <<cur, last>>
          /\ hist' = Append(hist, <<"reopen", <<>>, <<>>>>)
\* with EmitCases, sizes of images after scaling are no longer those of net
Size == IF Kind = "SICD" \/ orig = <<>> THEN <<net[3], net[4]>> ELSE <<orig[2], orig[1]>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E win \in Wins(Size[1], Size[2]) : \E out \in Outs(win) : Cut(win, out)
           \/ Reopen
Spec == Init /\ [][Next]_vars
\* (without scaling) the metadata is that of one cut, of the composed window, out of the first image
Composed == ~EmitCases => (last = <<0, 0, N, N>> /\ cur = Full) \/
              (IF Kind = "SICD" THEN cur = SicdCut(Full, last) ELSE Agree(cur, SiddCut(Full, last, <<>>), IF Kind = "SIDD" THEN 0 ELSE 1))
Emit == (EmitCases /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson([kind |-> Kind, n |-> N, hist |-> hist]))
=============================================================================
