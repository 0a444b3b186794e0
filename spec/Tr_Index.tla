------------------------------ MODULE Tr_Index ------------------------------
(* "index": a new index over features with geometries e.gs (in the space it   *)
(* was told to use).  "query"/"nearest": the positions returned, in order.    *)
EXTENDS Index, TraceRun
TrS0 == [gs |-> <<>>]
TrApply(s, e) == IF e.op = "index" THEN [gs |-> e.gs] ELSE s
Got(e) == {e.got[i] : i \in 1..Len(e.got)}
Once(e) == Cardinality(Got(e)) = Len(e.got)
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"Answers", FALSE>>}
    ELSE CASE e.op = "index" -> {<<"Answers", TRUE>>}
           [] e.op = "query" ->
                LET want == Answer(s.gs, e.q) IN
                {<<"EveryIntersectingFeature", want \subseteq Got(e)>>, <<"NoOtherFeature", Got(e) \subseteq want>>,
                 <<"EachOnce", Once(e)>>, <<"Unmodified", e.same>>}
           [] e.op = "nearest" ->
                \* without a maximum the default applies: at least one unit
                LET want == IF e.max >= 0 THEN Nearest(s.gs, e.q, e.max)
                            ELSE Nearest(s.gs, e.q, 40000)
                    within == e.max >= 0 \/ want = {} \/ NearestDist2(s.gs, e.q) <= e.unit * e.unit IN
                {<<"NearestExactly", Got(e) = want \/ (~within /\ Got(e) = {})>>, <<"EachOnce", Once(e)>>, <<"Unmodified", e.same>>}
=============================================================================
