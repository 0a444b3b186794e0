------------------------------- MODULE MC_Cut -------------------------------
(* Design: a factory holds an image and request options prepared once; each   *)
(* request adds its own to a copy of them, so tiles depend on nothing but     *)
(* their request; opening a tile as the next image composes the windows.      *)
(* img = <<x, y, w, h, known>> : the window of the first image the current    *)
(* image shows, known = the part of it that holds pixels of the first image   *)
EXTENDS Cut, TLC, Json
CONSTANTS W, H, MaxLen
VARIABLES img, opts, tile, hist
vars == <<img, opts, tile, hist>>
Coords(n) == {-1, 0, 1, n - 1, n}
Sizes(n) == {0, 1, 2, n}
Wins(w, h) == {<<x, y, a, b>> \in Coords(w) \X Coords(h) \X Sizes(w) \X Sizes(h) : TRUE}
Base == {<<"format", <<>> >>}
Init == img = <<0, 0, W, H, <<0, 0, W, H>> >> /\ opts = Base /\ tile = <<>> /\ hist = <<>>
Cut(win) ==
    LET o == opts \cup {<<"igeolo", win>>}
        abs == <<img[1] + win[1], img[2] + win[2], win[3], win[4]>>
    IN /\ hist' = Append(hist, <<"cut", win>>)
       /\ UNCHANGED <<img, opts>>
       /\ tile' = IF win[3] <= 0 \/ win[4] <= 0 THEN <<>>
                  ELSE <<abs[1], abs[2], abs[3], abs[4], Meet(img[5], abs), o>>
Open == /\ tile # <<>> /\ img' = <<tile[1], tile[2], tile[3], tile[4], tile[5]>> /\ tile' = <<>>
        /\ UNCHANGED opts /\ hist' = Append(hist, <<"open", <<>> >>)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E win \in Wins(img[3], img[4]) : Cut(win)
           \/ Open
Spec == Init /\ [][Next]_vars
\* windows of the history, from the last opened image outwards
RECURSIVE Sum(_, _, _)
Sum(hs, k, acc) == IF k > Len(hs) THEN acc ELSE
    IF hs[k][1] = "open" THEN Sum(hs, k + 1, <<acc[1] + hs[k - 1][2][1], acc[2] + hs[k - 1][2][2]>>) ELSE Sum(hs, k + 1, acc)
Last == hist[Len(hist)]
\* an open always follows the cut it opens here (Open clears tile)
TileIsItsOwnWindow ==
    (tile # <<>> /\ Last[1] = "cut") =>
        LET o == Sum(hist, 1, <<0, 0>>) IN
        /\ tile[1] = o[1] + Last[2][1] /\ tile[2] = o[2] + Last[2][2]
        /\ tile[3] = Last[2][3] /\ tile[4] = Last[2][4]
        /\ tile[6] = Base \cup {<<"igeolo", Last[2]>>}
KnownPixelsAreInTheImage ==
    \A t \in {img} \cup (IF tile = <<>> THEN {} ELSE {tile}) :
        LET r == t[5] IN r[3] = 0 \/ (/\ r[1] >= 0 /\ r[2] >= 0 /\ r[1] + r[3] <= W /\ r[2] + r[4] <= H
                                      /\ r[1] >= t[1] /\ r[2] >= t[2] /\ r[1] + r[3] <= t[1] + t[3] /\ r[2] + r[4] <= t[2] + t[4])
OptionsStayTheSame == opts = Base
=============================================================================
