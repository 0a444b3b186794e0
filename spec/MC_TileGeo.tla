----------------------------- MODULE MC_TileGeo -----------------------------
(* Design: a factory relates tiles to its image through metadata that states  *)
(* where the image itself lies (kept as read); each request derives the       *)
(* metadata of its tile from that and its own window alone.  meta is what the *)
(* updater writes for the last tile, chain the cuts that were opened.         *)
EXTENDS TileGeo, TLC, Json
CONSTANTS W, MaxLen, MaxOpen
VARIABLES img, meta, chain, last, hist
vars == <<img, meta, chain, last, hist>>
\* img: size and mapping of the current image (one axis is enough: axes do not mix)
Ratios == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<3, 2>>, <<2, 3>>}
Outs(a) == {b \in {(a * r[2]) \div r[1] : r \in {q \in Ratios : (a * q[2]) % q[1] = 0}} : b >= 1 /\ b <= 2 * W}
Wins(n) == {<<x, a>> \in {0, 1, n \div 3, n \div 2, n - 2} \X {1, 2, 3, n \div 2, n} : x >= 0 /\ a >= 1 /\ x + a <= n}
Init == img = <<W, Ident>> /\ meta = Ident /\ chain = <<>> /\ last = <<>> /\ hist = <<>>
Request(win, b) == /\ last' = <<win[1], win[2], b>> /\ meta' = Cut(img[2], win[1], win[2], b)
                   /\ hist' = Append(hist, <<"cut", win[1], win[2], b>>) /\ UNCHANGED <<img, chain>>
Open == /\ last # <<>> /\ Len(chain) < MaxOpen /\ img' = <<last[3], meta>> /\ chain' = Append(chain, last) /\ last' = <<>>
        /\ hist' = Append(hist, <<"open", 0, 0, 0>>) /\ UNCHANGED meta
Next == /\ Len(hist) < MaxLen
        /\ \/ \E win \in Wins(img[1]) : \E b \in Outs(win[2]) : Request(win, b)
           \/ Open
Spec == Init /\ [][Next]_vars
\* the place of coordinate p / d followed cut by cut, outwards
RECURSIVE Walk(_, _, _)
Walk(ch, k, pl) == IF k = 0 THEN pl ELSE Walk(ch, k - 1, <<ch[k][1] * pl[2] * ch[k][3] + pl[1] * ch[k][2], pl[2] * ch[k][3]>>)
Same(p, q) == p[1] * q[2] = q[1] * p[2]
TilePixelsKeepTheirPlace ==
    last # <<>> => LET ch == Append(chain, last) IN \A p \in {0, 1, last[3]} : Same(At(meta, p), Walk(ch, Len(ch), <<p, 1>>))
InsideTheImage == last # <<>> => /\ At(meta, 0)[1] >= 0
                                 /\ At(meta, last[3])[1] <= W * At(meta, last[3])[2]
OrderIsIrrelevant == last # <<>> => meta = Cut(img[2], last[1], last[2], last[3])
View == <<img, meta, chain, last, Len(hist)>>
=============================================================================
