------------------------------ MODULE Tr_Layers -----------------------------
(*  down   chip integer location (x,y) -> where the full model was asked (fx,fy) *)
(*  up     full integer location (x,y) -> chip location answered (cx,cy)         *)
(*  pass   elevation model, options and answer as seen by the inner model        *)
(*  near   two image locations that must agree (1/1000 pixel)                    *)
(*  cpass  what the precise member of a composite was asked, and what came back  *)
EXTENDS Layers, TraceRun
TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]
NearPx(e) == /\ e.ax # NaN /\ e.ay # NaN /\ e.bx # NaN /\ e.by # NaN /\ Abs(e.ax - e.bx) <= e.tol /\ Abs(e.ay - e.by) <= e.tol
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"AnswersEveryQuestion", FALSE>>}
    ELSE CASE e.op = "down" -> {<<"ChipAsksTheFullModelAtTheFullLocation", MapsTo(Adj(Product(e.stack)), e.x, e.y, e.fx, e.fy, e.u, e.tol)>>}
           [] e.op = "up" -> {<<"FullAnswerMappedIntoTheChip", MapsTo(Product(e.stack), e.x, e.y, e.cx, e.cy, e.u, e.tol)>>}
           [] e.op = "pass" -> {<<"ElevationModelPassedThrough", e.em>>, <<"OptionsPassedThrough", e.opt>>,
                                <<"AnswerReturned", e.ans>>, <<"CallerOptionsUntouched", e.mine>>}
           [] e.op = "near" -> {<<"AgreesWithTheFullModel", NearPx(e)>>}
           [] e.op = "cnear" -> {<<"AgreesWithThePreciseModel", NearPx(e)>>}
           [] e.op = "cpass" ->
                {<<"PreciseAnswerReturned", e.ans>>, <<"PreciseAskedTheSameLocation", e.loc>>,
                 <<"ElevationModelPassedThrough", e.em>>, <<"OtherOptionsHonoured", e.opt>>,
                 <<"CallerOptionsUntouched", e.mine>>,
                 <<"StartsFromTheApproximateAnswer", e.guess>>}
           [] e.op = "cw2i" -> {<<"GroundToImageIsThePreciseOne", e.same>>}
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
