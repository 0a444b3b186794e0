----------------------------- MODULE MC_Select ------------------------------
(* The model is assembled source by source, each source raising the estimate  *)
(* only when it is usable.  Whatever the metadata, the outcome is the best.   *)
EXTENDS Select, TLC, Json
CONSTANTS MaxPresent, EmitCases
VARIABLES md, sel, at, ap, pr
vars == <<md, sel, at, ap, pr>>
Sels == {Types, {}} \cup {{t} : t \in Types} \cup {Types \ {t} : t \in Types}
Init == /\ md \in [Sources -> {"absent", "good", "bad"}]
        /\ Cardinality({s \in Sources : md[s] # "absent"}) <= MaxPresent
        /\ sel \in Sels
        /\ at = 1 /\ ap = "none" /\ pr = "none"
\* the order in which the sources are looked at: later ones replace earlier ones
Walk == <<"GT", "GCP", "CSCRNA", "RPC", "RSM", "SICD", "SIDD">>
Step == /\ at <= Len(Walk)
        /\ LET s == Walk[at]  ok == Usable(md, sel, s)  m == Wrap(md, s)
           IN IF s \in {"GT", "GCP", "CSCRNA"} THEN ap' = (IF ok THEN m ELSE ap) /\ pr' = pr
              ELSE pr' = (IF ok THEN m ELSE pr) /\ ap' = ap
        /\ at' = at + 1 /\ UNCHANGED <<md, sel>>
Spec == Init /\ [][Step]_vars
End == at > Len(Walk)
B == Best(md, sel)
WalkFindsBest == End => B = [answer |-> IF pr # "none" THEN pr ELSE ap, start |-> IF pr # "none" THEN ap ELSE "none"]
NothingOnlyIfNothing == End => (B.answer = "none" <=> \A s \in Sources \ {"ICHIPB"} : ~Usable(md, sel, s))
\* damaging a source is the same as leaving it out
BadIsAbsent == End => B = Best([s \in Sources |-> IF md[s] = "bad" THEN "absent" ELSE md[s]], sel)
\* types that are not allowed play no part
OnlyAllowed == End => B = Best([s \in Sources |-> IF s # "ICHIPB" /\ TypeOf[s] \notin sel THEN "absent" ELSE md[s]], sel)
\* adding a good source never replaces the answer by a less precise one
Rank(m) == LET all == <<"none", "GT", "GCP", "CSCRNA", "CSCRNA+chip", "RPC", "RPC+chip", "RSM", "RSM+chip", "SICD", "SIDD">>
           IN CHOOSE i \in 1..Len(all) : all[i] = m
Monotone == End => \A s \in Sources \ {"ICHIPB"} : Rank(Best([md EXCEPT ![s] = "good"], sel).answer) >= Rank(B.answer)
Emit == (EmitCases /\ at = 1) => PrintT("BEHAVIOUR " \o ToJson([md |-> md, sel |-> sel]))
EmitDamage == (EmitCases /\ at = 1 /\ sel = Types /\ \A s \in Sources : md[s] = "absent") =>
                 PrintT("BEHAVIOUR " \o ToJson([damages |-> Damages]))
=============================================================================
