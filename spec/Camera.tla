------------------------------- MODULE Camera -------------------------------
(* Cameras as relations between image locations and ground locations on a     *)
(* surface.  A camera is a ground-to-image function w2i; image-to-ground is   *)
(* its inverse restricted to the surface requested by the caller: the         *)
(* caller's elevation where it assigns one, the camera's default elsewhere.   *)
EXTENDS Arith, FiniteSets

(* ---- one dimensional integer cameras: enough to show the interplay of     *)
(* scale, height parallax, terrain, chips and search hints                   *)
Void == 99
HeightAt(surf, dflt, g) == IF surf[g] = Void THEN dflt ELSE surf[g]
Project(cam, g, h) == cam.scale * g + cam.parallax * h + cam.offset
\* a chip sees full image location f at sign * (f - origin)
ToChip(chip, f) == chip.sign * (f - chip.origin)
ToFull(chip, c) == chip.origin + chip.sign * c
Miss(cam, surf, dflt, g, target) == Abs(Project(cam, g, HeightAt(surf, dflt, g)) - target)

(* ---- judging observed answers.  Image coordinates are 1/1000 pixel, heights millimetres *)
Near(ax, ay, bx, by, tol) ==
    /\ ax # NaN /\ ay # NaN /\ bx # NaN /\ by # NaN
    /\ Abs(ax - bx) <= tol /\ Abs(ay - by) <= tol
    /\ (ax - bx) * (ax - bx) + (ay - by) * (ay - by) <= tol * tol
=============================================================================
