----------------------------- MODULE MC_MapTile -----------------------------
(* Design of making a map tile: locate the tile's pixels in the image, refuse *)
(* it when their bounds miss the image, choose the overview that is just      *)
(* finer than the tile, crop it to the bounds, add a border, look the pixels  *)
(* up.  Boxes have a multiple of size - 1 units so that all places are whole. *)
EXTENDS MapTile, TLC
CONSTANTS Widths, Heights, Origins, Scales, Sizes, Border
Mats == {<<1, 0, 0, 0, -1, 0, 1>>, <<0, 1, 0, 1, 0, 0, 1>>, <<1, 1, 0, 1, -1, 0, 1>>, <<-2, 0, 5, 0, 1, 2, 1>>, <<2, -1, 0, -1, -2, 6, 1>>}
Levels(w) == {<<1>>, <<1, 2, 4>>, <<1, 3>>, <<1, 4>>}
Some == {-17, -5, -1, 0, 3, 8}
More == {-40, -17, -9, -5, -3, -1, 0, 1, 2, 3, 5, 8, 12, 21}
VARIABLES stage, in, src, level, crop, out
vars == <<stage, in, src, level, crop, out>>
Px(n) == 0..(n - 1)
Init == /\ stage = "asked" /\ src = <<>> /\ level = 1 /\ crop = <<>> /\ out = <<>>
        /\ \E w \in Widths, h \in Heights, m \in Mats, u \in Origins, v \in Origins, k \in Scales, s \in Sizes, o \in Levels(0) :
              in = [w |-> w, h |-> h, m |-> m, n |-> s, o |-> o, u |-> u, v |-> v, k |-> k]
At(i, j) == LET u == in.u + in.k * i
                v == in.v - in.k * j
            IN <<in.m[1] * u + in.m[2] * v + in.m[3], in.m[4] * u + in.m[5] * v + in.m[6]>>
Xs(S) == {p[1] : p \in S}
Ys(S) == {p[2] : p \in S}
Lo(S) == CHOOSE a \in S : \A b \in S : a <= b
Hi(S) == CHOOSE a \in S : \A b \in S : a >= b
Bounds == LET S == {src[p] : p \in DOMAIN src} IN <<Lo(Xs(S)), Lo(Ys(S)), Hi(Xs(S)), Hi(Ys(S))>>
Locate == stage = "asked" /\ stage' = "located" /\ src' = [p \in Px(in.n) \X Px(in.n) |-> At(p[1], p[2])] /\ UNCHANGED <<in, level, crop, out>>
Misses(b) == b[1] >= in.w \/ b[2] >= in.h \/ b[3] <= 0 \/ b[4] <= 0
Refuse == stage = "located" /\ Misses(Bounds) /\ stage' = "none" /\ UNCHANGED <<in, src, level, crop, out>>
Choose == /\ stage = "located" /\ ~Misses(Bounds) /\ stage' = "chosen"
          /\ LET d == Min2(Bounds[3] - Bounds[1], Bounds[4] - Bounds[2])
                 fit == {i \in 1..Len(in.o) : in.o[i] = 1 \/ in.o[i] * in.n <= d}
             IN level' = in.o[Hi(fit)]
          /\ UNCHANGED <<in, src, crop, out>>
Ov(n) == CeilDiv(n, level)
Crop == /\ stage = "chosen" /\ stage' = "cropped"
        /\ LET b == Bounds IN
           crop' = <<FloorDiv(Max2(b[1], 0) * Ov(in.w), in.w), FloorDiv(Max2(b[2], 0) * Ov(in.h), in.h),
                     Min2(CeilDiv(Min2(b[3], in.w) * Ov(in.w), in.w), Ov(in.w)), Min2(CeilDiv(Min2(b[4], in.h) * Ov(in.h), in.h), Ov(in.h))>>
        /\ UNCHANGED <<in, src, level, out>>
\* the overview pixel shown for image coordinate x, as an interval of image coordinates, or blank
Look(x, n, lo, hi) == LET c == FloorDiv(x * Ov(n), n) - lo + Border
                      IN IF c < -1 \/ c > hi - lo + 2 * Border THEN <<>> ELSE <<lo + Clamp(c - Border, 0, hi - lo - 1)>>
Remap == /\ stage = "cropped" /\ stage' = "tile"
         /\ out' = [p \in DOMAIN src |-> Look(src[p][1], in.w, crop[1], crop[3]) \o Look(src[p][2], in.h, crop[2], crop[4])]
         /\ UNCHANGED <<in, src, level, crop>>
Next == Locate \/ Refuse \/ Choose \/ Crop \/ Remap \/ (stage \in {"none", "tile"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
In(p) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] < in.w /\ p[2] < in.h
Near1(x, o, n) == Abs(x * Ov(n) - o * n) <= n
CropHasPixels == stage \in {"cropped", "tile"} => crop[3] > crop[1] /\ crop[4] > crop[2] /\ crop[1] >= 0 /\ crop[2] >= 0
InsideIsShown == stage = "tile" => \A p \in DOMAIN src : In(src[p]) =>
                    Len(out[p]) = 2 /\ Near1(src[p][1], out[p][1], in.w) /\ Near1(src[p][2], out[p][2], in.h)
OutsideIsBlank == stage = "tile" => \A p \in DOMAIN src :
                    LET x == src[p][1]  y == src[p][2]  g == (Border + 2) * level
                    IN (x < -g \/ y < -g \/ x > in.w + g \/ y > in.h + g) => Len(out[p]) < 2
NothingIsRefused == stage = "none" => \A p \in DOMAIN src : src[p][1] <= 0 \/ src[p][2] <= 0 \/ ~In(src[p])
\* no finer image than the tile can show, no coarser one than a tile pixel
LevelFits == stage = "tile" /\ level > 1 => level * (in.n - 1) <= Min2(Bounds[3] - Bounds[1], Bounds[4] - Bounds[2])
Ends == <>(stage \in {"none", "tile"})
=============================================================================
