------------------------------ MODULE MC_Feature ----------------------------
(* Every combination of property states, and every history of updates.        *)
EXTENDS Feature, TLC, Json
CONSTANTS MaxLen, EmitCases
VARIABLES md, md0, dep, hist
vars == <<md, md0, dep, hist>>
States(p) == IF p = "detection" THEN {"absent", "bad", "nopixels", "g1"} ELSE {"absent", "bad", "g1"}
Init == /\ md \in {m \in [PropSet -> {"absent", "bad", "nopixels", "g1"}] : \A p \in PropSet : m[p] \in States(p)}
        /\ md0 = md /\ dep \in BOOLEAN /\ hist = <<>>
Log(x) == Len(hist) < MaxLen /\ hist' = Append(hist, x) /\ UNCHANGED <<md0, dep>>
Next == \/ \E p \in {"imageGeometry", "imageBBox"}, g \in {"g2", "g3"} : Log(<<"set", p, g>>) /\ md' = SetProp(md, p, g)
        \/ \E g \in {"g2", "g3"} : Log(<<"update", "", g>>) /\ md' = Update(md, dep, g)
Spec == Init /\ [][Next]_vars
\* found whenever something usable is there, and never a deprecated form before a current one
FoundIffUsable == (Find(md, dep)[2] # "none") = \E p \in PropSet : Usable(md[p]) /\ (dep \/ p \in {"imageGeometry", "imageBBox"})
CurrentFirst == Usable(md["imageGeometry"]) => Find(md, dep) = <<"full", md["imageGeometry"]>>
\* what was set last is what is found, and an update reaches every property present
SetThenGet == [][\A p \in {"imageGeometry", "imageBBox"}, g \in {"g2", "g3"} : hist' # hist /\ hist'[Len(hist')] = <<"set", p, g>> => Get(md', p)[2] = g]_vars
UpdateThenFind == [][\A g \in {"g2", "g3"} : hist' # hist /\ hist'[Len(hist')] = <<"update", "", g>> /\ Find(md, dep)[2] # "none" => Find(md', dep)[2] = g]_vars
NoNewProperties == [][hist' # hist /\ hist'[Len(hist')][1] = "update" => \A p \in PropSet : md[p] = "absent" <=> md'[p] = "absent"]_vars
Emit == (EmitCases /\ Len(hist) = MaxLen) => PrintT("BEHAVIOUR " \o ToJson([md |-> md0, dep |-> dep, hist |-> hist]))
=============================================================================
