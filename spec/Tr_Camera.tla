------------------------------ MODULE Tr_Camera -----------------------------
(*  rt     image -> ground -> image: asked (x,y), came back (bx,by)           *)
(*  gr     ground -> image -> ground: ground distance (mm) and allowance      *)
(*  surf   elevation of an answer against the surface asked for               *)
(*  again  the same question asked again later; dig is a digest of the answer *)
(*  val    a value that must not have changed                                 *)
EXTENDS Camera, TraceRun
TrS0 == [seen |-> [k \in {} |-> ""]]
TrApply(s, e) ==
    IF e.op = "again" /\ e.st = "ok" /\ e.key \notin DOMAIN s.seen
    THEN [seen |-> [k \in DOMAIN s.seen \cup {e.key} |-> IF k = e.key THEN e.dig ELSE s.seen[k]]]
    ELSE s
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"AnswersEveryQuestion", FALSE>>}
    ELSE CASE e.op = "rt" -> {<<"RoundTripWithinTolerance", Near(e.x, e.y, e.bx, e.by, e.tol)>>}
           [] e.op = "gr" -> {<<"GroundRoundTrip", e.d # NaN /\ e.d <= e.tol>>}
           [] e.op = "surf" -> {<<"OnRequestedSurface", Within(e.got, e.want, e.tol)>>}
           [] e.op = "dflt" -> {<<"DefaultElevation", Within(e.got, e.want, e.tol)>>}
           [] e.op = "again" -> {<<"SameQuestionSameAnswer", e.key \in DOMAIN s.seen => s.seen[e.key] = e.dig>>}
           [] e.op = "val" -> {<<"InputsUntouched", e.before = e.after>>}
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
