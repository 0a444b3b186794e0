------------------------------- MODULE Tr_Sar -------------------------------
(*  rr    range (um) and range rate (um/s) of an answer against the document  *)
(*  plane distance of an answer without elevation model from the plane the    *)
(*        document defines through the scene centre (um)                      *)
(*  scp   scene centre point and pixel                                        *)
(*  dem   height of an answer (mm) and the independently sampled path         *)
(*  meet  the same across tiles: any meeting is an answer                     *)
(*  mir   the mirrored collection gives the mirrored answer                   *)
(*  rt    back to the image                                                   *)
EXTENDS Sar, TraceRun
TrS0 == [z |-> 0]
TrApply(s, e) == s
PathOf(e) == [i \in 1..Len(e.z) |-> [z |-> e.z[i], t |-> e.t[i]]]
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"AnswersEveryQuestion", FALSE>>}
    ELSE CASE e.op = "rr" -> {<<"RangeOfTheLocation", e.dr # NaN /\ e.dr <= e.tol>>,
                              <<"RangeRateOfTheLocation", e.drr # NaN /\ e.drr <= e.tol>>,
                              <<"ImagedSideOfTrack", e.side = e.wside>>}
           [] e.op = "plane" -> {<<"DefaultGroundPlane", e.d # NaN /\ e.d <= e.tol>>}
           [] e.op = "surf" -> {<<"OnRequestedSurface", Within(e.got, e.want, e.tol)>>}
           [] e.op = "scp" -> {<<"SceneCentrePoint", e.d # NaN /\ e.d <= e.tol>>}
           [] e.op = "mir" -> {<<"MirroredCollection", e.d # NaN /\ e.d <= e.tol>>}
           [] e.op = "rt" -> {<<"RoundTrip", e.d # NaN /\ e.d <= e.tol>>}
           [] e.op = "dem" -> {<<"LowestMeetingWithTerrain", IsAnswer(PathOf(e), e.k, e.got, e.dflt, e.tol)>>}
           [] e.op = "meet" -> {<<"MeetingWithTerrain", IsMeeting(PathOf(e), e.k, e.got, e.dflt, e.tol)>>}
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
