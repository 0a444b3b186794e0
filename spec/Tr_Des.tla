------------------------------- MODULE Tr_Des -------------------------------
(* "file": segments as written.  "lookup": what was returned for an id: the   *)
(* tag carried by each returned segment, its encoded header and its payload.  *)
EXTENDS Des, TraceRun
TrS0 == [file |-> <<>>]
TrApply(s, e) == IF e.op = "file" THEN [file |-> e.file] ELSE s
TrClauses(s, e) ==
    IF e.op = "file" THEN {}
    ELSE IF e.st # "ok" THEN {<<"NeverRaises", FALSE>>}
    ELSE LET want == Named(s.file, e.id)
             same == Len(e.got) = Len(want)
         IN {<<"EverySegmentOfTheType", Len(e.got) >= Len(want)>>, <<"NoOtherSegment", Len(e.got) <= Len(want)>>,
             <<"InFileOrder", same => \A k \in 1..Len(want) : e.got[k].tag = s.file[want[k]].tag>>,
             <<"HeaderFields", same => \A k \in 1..Len(want) : s.file[want[k]].hashdr => Encodes(e.got[k].header, s.file[want[k]])>>,
             <<"Payload", same => \A k \in 1..Len(want) : e.got[k].payload \in {s.file[want[k]].payload, s.file[want[k]].payload2}>>,
             <<"FieldValues", same => \A k \in 1..Len(want) : e.got[k].fields>>,
             <<"ReadingChangesNothing", e.same>>}
=============================================================================
