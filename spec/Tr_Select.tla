------------------------------ MODULE Tr_Select -----------------------------
(*  built   the model built from metadata md with the allowed types sel:      *)
(*          which source it answers with, and which it starts from            *)
(*  damage  the same, with one source damaged in the named way                *)
EXTENDS Select, TraceRun
TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]
SeqSet(q) == {q[i] : i \in 1..Len(q)}
Md(e) == IF e.op = "damage" THEN [e.md EXCEPT ![e.source] = Effect(e.source, e.damage)] ELSE e.md
\* a SICD document beside an unusable SIDD describes the image the SIDD was made from: not specified which is used
Open(md, sel) == md["SIDD"] = "bad" /\ md["SICD"] # "absent"
TrClauses(s, e) ==
    LET md == Md(e)  sel == SeqSet(e.sel)  b == Best(md, sel)
    IN IF e.st # "ok" THEN {<<"NeverRaises", FALSE>>}
       ELSE {<<"NeverRaises", TRUE>>} \cup
            (IF Open(md, sel) THEN {}
             ELSE {<<"MostPreciseUsableSource", e.answer = b.answer>>} \cup
                  (IF b.start = "none" \/ e.start = "unseen" THEN {} ELSE {<<"BestStartingEstimate", e.start = b.start>>}))
=============================================================================
