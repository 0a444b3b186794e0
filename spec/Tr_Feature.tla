------------------------------ MODULE Tr_Feature ----------------------------
(* One feature at a time ("start" gives the states of its properties).  Every event reports what the accessor finds: *)
(* find (all properties in their order), geom and bbox (the current properties alone), each <<form, geometry>>,      *)
(* and whether everything else in the feature is unchanged.                                                          *)
EXTENDS Feature, TraceRun
TrS0 == [md |-> [p \in PropSet |-> "absent"]]
Md(e) == [p \in PropSet |-> e.md[p]]
Want(s, e) == CASE e.op = "start" -> Md(e)
                [] e.op = "set" -> SetProp(s.md, e.prop, e.g)
                [] e.op = "update" -> Update(s.md, e.dep, e.g)
                [] OTHER -> s.md
TrApply(s, e) == [md |-> Want(s, e)]
\* a geometry and its box or ring can be the same shape; the driver names all that the answer equals
Is(seen, want) == \E i \in 1..Len(seen) : seen[i] = want
TrClauses(s, e) ==
    LET md == Want(s, e) IN
    IF e.st # "ok" THEN {<<"NeverRaises", FALSE>>}
    ELSE {<<"FoundInTheDocumentedOrder", Is(e.find, Find(md, e.dep))>>,
          <<"ReadBackAsSet", Is(e.geom, Get(md, "imageGeometry")) /\ Is(e.bbox, Get(md, "imageBBox"))>>,
          <<"EverythingElseUnchanged", e.rest>>,
          <<"NoPropertyAppearsOrDisappears", \A p \in PropSet : (md[p] = "absent") = ~e.present[p]>>,
          <<"ReadingChangesNothing", e.pure>>}
=============================================================================
