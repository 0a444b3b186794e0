----------------------------- MODULE Tr_MapTile -----------------------------
(* Map tiles recorded from the real factory.  image: affine (places computed  *)
(* here from m) or another model (places recorded from it: pos, step); ov:    *)
(* reductions of its overviews; mode: "colour": band 1 tells the column, band *)
(* 2 the row (20 + 200 x / w), band 3 is blue; "gray": one band tells the      *)
(* column or row (axis); "shade": the same after a range adjustment, whole:   *)
(* the range is that of the image.  tile: s = <<i, j, alpha, c1, c2, c3>>.    *)
EXTENDS MapTile, TraceRun
TrS0 == [g |-> [w |-> 1], lut |-> {}, made |-> 0]
Affine(s) == s.g.kind = "affine"
Pos(s, e, k) == IF Affine(s) THEN Place(s.g.m, e.box, e.size, e.s[k][1], e.s[k][2]) ELSE e.pos[k]
StepOf(s, e) == IF Affine(s) THEN Step(s.g.m, e.box, e.size) ELSE e.step
\* overviews are used when they are not coarser than the tile
Reduction(s, e) == LET f == {r \in {s.g.ov[i] : i \in 1..Len(s.g.ov)} : 7 * r * K <= 8 * (StepOf(s, e) + K)} IN
                   IF f = {} THEN 1 ELSE CHOOSE r \in f : \A q \in f : q <= r
Quantum(n) == CeilDiv(K * n, 200)
Tol(s, e) == LET r == Reduction(s, e) IN K + StepOf(s, e) + Quantum(Max2(s.g.w, s.g.h)) + (IF r > 1 THEN r * K ELSE 0)
Out(s, e) == 4 * K * Reduction(s, e) + StepOf(s, e)
Ramp(c, n) == ((c - 20) * n * K) \div 200
Ax(s, p) == IF s.g.axis = "x" THEN p[1] ELSE p[2]
Extent(s) == IF s.g.axis = "x" THEN s.g.w ELSE s.g.h
Shades(s, e) == {<<Ax(s, Pos(s, e, k)), e.s[k][4]>> : k \in {k \in 1..Len(e.s) : e.s[k][3] = 255 /\ WellInside(s.g.w, s.g.h, Pos(s, e, k), Tol(s, e))}}
TrApply(s, e) ==
    CASE e.op = "image" -> [g |-> e, lut |-> {}, made |-> 0]
      [] e.op = "tile" /\ e.st = "tile" /\ s.g.mode = "shade" /\ s.g.whole -> [s EXCEPT !.lut = @ \cup {<<p[1], p[2], Tol(s, e)>> : p \in Shades(s, e)}]
      [] OTHER -> s
Rising(f) == \A p, q \in f : p[1] + p[3] < q[1] - q[3] => p[2] <= q[2] + 1
TrClauses(s, e) ==
    CASE e.op = "image" -> {<<"FactoryIsMade", e.st = "ok">>}
      [] e.op = "tile" ->
           LET t == Tol(s, e)
               ks == 1..Len(e.s)
               p(k) == Pos(s, e, k)
               inside == {k \in ks : WellInside(s.g.w, s.g.h, p(k), t)}
               out == {k \in ks : WellOutside(s.g.w, s.g.h, p(k), Out(s, e))}
           IN {<<"NoErrors", e.st \in {"tile", "none"}>>,
               <<"OverlapMakesATile", inside # {} => e.st = "tile">>,
               <<"NothingFarAway", e.far => e.st = "none">>}
              \cup (IF ~Affine(s) THEN {} ELSE {<<"NothingBesideTheImage", Beyond(s.g.w, s.g.h, Corners(s.g.m, e.box), K) => e.st = "none">>})
              \cup (IF e.st # "tile" THEN {} ELSE
               {<<"RequestedSize", e.got = e.size>>,
                <<"ColourAndOpacity", e.ch = 4>>})
              \cup (IF e.st # "tile" \/ e.got # e.size \/ e.ch # 4 THEN {} ELSE
               {<<"BlankOutside", \A k \in out : e.s[k][3] = 0>>}
               \cup (IF s.g.mode = "colour" THEN
                     {<<"ShowsTheImage", \A k \in inside : e.s[k][3] = 255>>,
                      <<"RightPlace", \A k \in inside : e.s[k][3] = 0 \/ (/\ Abs(Ramp(e.s[k][4], s.g.w) - p(k)[1]) <= t
                                                                         /\ Abs(Ramp(e.s[k][5], s.g.h) - p(k)[2]) <= t)>>,
                      <<"RightColours", \A k \in inside : e.s[k][3] = 0 \/ Abs(e.s[k][6] - s.g.blue) <= 2>>}
                     ELSE IF s.g.mode = "gray" THEN
                     {<<"ShowsTheImage", \A k \in inside : e.s[k][3] = 255>>,
                      <<"RightPlace", \A k \in inside : e.s[k][3] = 0 \/ Abs(Ramp(e.s[k][4], Extent(s)) - Ax(s, p(k))) <= t>>,
                      <<"GrayIsGray", \A k \in inside : e.s[k][4] = e.s[k][5] /\ e.s[k][5] = e.s[k][6]>>}
                     ELSE
                     {<<"ShowsTheImage", \A k \in inside : (s.g.whole /\ 2 * Ax(s, p(k)) > Extent(s) * K) => e.s[k][3] = 255>>,
                      <<IF s.g.whole THEN "SameShadesInAllTiles" ELSE "BrighterIsBrighter",
                        Rising(s.lut \cup {<<q[1], q[2], t>> : q \in Shades(s, e)})>>}))
      [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
