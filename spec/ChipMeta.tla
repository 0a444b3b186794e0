------------------------------- MODULE ChipMeta -----------------------------
(* Image extent and chip mapping in SICD and SIDD metadata.                   *)
(* SICD: ext = <<FirstRow, FirstCol, NumRows, NumCols>> places the image in   *)
(* the full image grid; scaling cannot be expressed.                          *)
(* SIDD: a geometric chip is <<rows, cols, corners>>, corners = the <<col,    *)
(* row>> of the centres of the UL, UR, LR, LL pixels of the chip in the full  *)
(* image (in units of 1/U pixel); <<>> is the full image itself.              *)
(* A request is a window <<x, y, w, h>> of the current image and an output    *)
(* size <<ow, oh>> (<<>> keeps the size of the window).                       *)
EXTENDS Arith, FiniteSets
U == 60
Scales(win, out) == out # <<>> /\ (out[1] # win[3] \/ out[2] # win[4])
SicdCut(ext, win) == <<ext[1] + win[2], ext[2] + win[1], win[4], win[3]>>
\* a + (b - a) * t / n, exact to 1 unit; nothing moves along a chip that is a single pixel wide
Lerp(a, b, t, n) == IF n = 0 THEN a ELSE a + ((b - a) * t) \div n
\* bilinear position of pixel <<x, y>> of chip g in the full image
Place(g, p) == LET m == IF g[2] > 1 THEN g[2] - 1 ELSE 0
                   n == IF g[1] > 1 THEN g[1] - 1 ELSE 0
                   c == g[3]
               IN [k \in 1..2 |-> Lerp(Lerp(c[1][k], c[2][k], p[1], m), Lerp(c[4][k], c[3][k], p[1], m), p[2], n)]
Corners(win) == << <<win[1], win[2]>>, <<win[1] + win[3] - 1, win[2]>>,
                   <<win[1] + win[3] - 1, win[2] + win[4] - 1>>, <<win[1], win[2] + win[4] - 1>> >>
SiddCut(g, win, out) ==
    << IF out = <<>> THEN win[4] ELSE out[2], IF out = <<>> THEN win[3] ELSE out[1],
       [i \in 1..4 |-> IF g = <<>> THEN [k \in 1..2 |-> Corners(win)[i][k] * U] ELSE Place(g, Corners(win)[i])] >>
\* two chip mappings agree to within tol units
Agree(a, b, tol) == /\ a # <<>> /\ b # <<>> /\ a[1] = b[1] /\ a[2] = b[2]
                    /\ \A i \in 1..4 : \A k \in 1..2 : Abs(a[3][i][k] - b[3][i][k]) <= tol
=============================================================================
