------------------------------ MODULE Tr_Georef -----------------------------
(*  aff     position (x, y), in 1/u pixels, through an affine model: ground   *)
(*          offset gx, gy from the origin of the transform, times k           *)
(*  affinv  ground offset gx, gy to the position px, py, times k              *)
(*  tie pos position (x, y) through a tie point model made from the relation  *)
(*          h: ground offset from a base, times k; tie when the position is   *)
(*          one of the ties the model was given                               *)
(*  tieinv posinv  the ground of position (x, y), stated some turns away, to  *)
(*          the position px, py, times k                                      *)
EXTENDS Georef, TraceRun
TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]

\* longitude as given back, 1e-6 degree
InUsualRange(lon) == lon # NaN /\ -180000001 <= lon /\ lon <= 180000001
\* elevation in mm: of the elevation model if there is one
ElevationRight(e) == Within(e.el, e.em, 1)

AffClauses(e) ==
    {<<"AffinePosition", Within(e.gx * e.u, e.k * AffineX(e.t, e.x, e.y), e.tol * e.u) /\
                         Within(e.gy * e.u, e.k * AffineY(e.t, e.x, e.y), e.tol * e.u)>>,
     <<"Elevation", ElevationRight(e)>>}
AffInvClauses(e) ==
    {<<"AffineInverse", e.px # NaN /\ e.py # NaN /\
        Within(AffineX(e.t, e.px, e.py), e.k * e.gx, e.tol * (Abs(e.t.a) + Abs(e.t.b))) /\
        Within(AffineY(e.t, e.px, e.py), e.k * e.gy, e.tol * (Abs(e.t.c) + Abs(e.t.d)))>>}

\* orientation of a relation whose denominator is positive: negative for a view from above (y of images is down)
Sense(h) == h.ax * (h.by * h.g0 - h.gy * h.b0) - h.ay * (h.bx * h.g0 - h.gx * h.b0) + h.a0 * (h.bx * h.gy - h.gx * h.by)
\* the ties fix the relation, and are not a mirrored view across the antimeridian (those read as wider than half the world)
Decided(e) == Determines(e.ties) /\ (e.cross => Sense(e.h) < 0)
At(e) == LET d == ProjDen(e.h, e.x, e.y)
         IN d > 0 /\ e.gx # NaN /\ e.gy # NaN /\
            Abs(e.gx * d - e.k * ProjX(e.h, e.x, e.y)) <= e.tol * d /\
            Abs(e.gy * d - e.k * ProjY(e.h, e.x, e.y)) <= e.tol * d
TieClauses(e, name) ==
    {<<name, At(e)>>, <<"Elevation", ElevationRight(e)>>, <<"LongitudeInUsualRange", InUsualRange(e.lon)>>}
TieInvClauses(e, name) ==
    {<<name, Within(e.px, e.k * e.x, e.tol) /\ Within(e.py, e.k * e.y, e.tol)>>} \cup
    (IF e.turns = 0 THEN {} ELSE {<<"AnyTurnOfLongitude", Within(e.px, e.k * e.x, e.tol)>>})

TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"NoException", FALSE>>}
    ELSE CASE e.op = "aff" -> AffClauses(e)
           [] e.op = "affinv" -> AffInvClauses(e)
           [] e.op \in {"tie", "pos", "tieinv", "posinv"} ->
                IF ~Decided(e) THEN {}
                ELSE (CASE e.op = "tie" -> TieClauses(e, "TieGround")
                        [] e.op = "pos" -> TieClauses(e, "OneRelation")
                        [] e.op = "tieinv" -> TieInvClauses(e, "TiePosition")
                        [] OTHER -> TieInvClauses(e, "OneRelationInverse"))
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
