---------------------------- MODULE MC_TileStore ----------------------------
(* Design: every request picks a name nobody uses, whatever fails leads to    *)
(* the clean stage, which closes what is open and removes what exists.        *)
(* files: name -> <<owner, request, complete>>; src: content of the sources.  *)
EXTENDS TileStore, TLC, Json
CONSTANTS Workers, Requests, MaxFaults
VARIABLES pc, name, files, opened, got, res, req, faults, src, sched
vars == <<pc, name, files, opened, got, res, req, faults, src, sched>>
None == 0
Names == 1..(Cardinality(Workers) * Requests)
Init == /\ pc = [w \in Workers |-> "idle"] /\ name = [w \in Workers |-> None] /\ files = [n \in {} |-> <<>>]
        /\ opened = [w \in Workers |-> None] /\ got = [w \in Workers |-> <<>>] /\ res = [w \in Workers |-> <<>>]
        /\ req = [w \in Workers |-> 0] /\ faults = 0 /\ src = [w \in Workers |-> w] /\ sched = <<>>
Used == DOMAIN files \cup {name[w] : w \in Workers}
Drop(f, n) == [m \in DOMAIN f \ {n} |-> f[m]]
Put(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]
Note(w, s, fault) == sched' = Append(sched, <<w, s, fault>>)
Start(w) == /\ pc[w] = "idle" /\ req[w] < Requests
            /\ \E n \in Names \ Used : /\ \A m \in Names \ Used : n <= m
                                       /\ name' = [name EXCEPT ![w] = n]
            /\ pc' = [pc EXCEPT ![w] = "named"] /\ req' = [req EXCEPT ![w] = @ + 1] /\ Note(w, "start", "")
            /\ UNCHANGED <<files, opened, got, res, faults, src>>
Write(w) == /\ pc[w] = "named" /\ Note(w, "write", "")
            /\ files' = Put(files, name[w], <<src[w], req[w], TRUE>>) /\ pc' = [pc EXCEPT ![w] = "written"]
            /\ UNCHANGED <<name, opened, got, res, req, faults, src>>
Open(w) == /\ pc[w] = "written" /\ Note(w, "open", "") /\ opened' = [opened EXCEPT ![w] = name[w]] /\ pc' = [pc EXCEPT ![w] = "opened"]
           /\ UNCHANGED <<name, files, got, res, req, faults, src>>
Read(w) == /\ pc[w] = "opened" /\ Note(w, "read", "") /\ got' = [got EXCEPT ![w] = files[opened[w]]] /\ pc' = [pc EXCEPT ![w] = "clean"]
           /\ UNCHANGED <<name, files, opened, res, req, faults, src>>
Fail(w) == /\ faults < MaxFaults /\ faults' = faults + 1 /\ pc' = [pc EXCEPT ![w] = "clean"]
           /\ \/ /\ pc[w] = "named" /\ \E left \in {FALSE, TRUE} :
                       /\ files' = IF left THEN Put(files, name[w], <<src[w], req[w], FALSE>>) ELSE files
                       /\ Note(w, "write", IF left THEN "partial" ELSE "nothing")
              \/ pc[w] = "written" /\ Note(w, "open", "fails") /\ UNCHANGED files
              \/ pc[w] = "opened" /\ Note(w, "read", "fails") /\ UNCHANGED files
           /\ UNCHANGED <<name, opened, got, res, req, src>>
Clean(w) == /\ pc[w] = "clean" /\ Note(w, "clean", "") /\ pc' = [pc EXCEPT ![w] = "idle"]
            /\ files' = Drop(files, name[w]) /\ opened' = [opened EXCEPT ![w] = None] /\ name' = [name EXCEPT ![w] = None]
            /\ res' = [res EXCEPT ![w] = Append(@, got[w])] /\ got' = [got EXCEPT ![w] = <<>>]
            /\ UNCHANGED <<req, faults, src>>
Step(w) == Start(w) \/ Write(w) \/ Open(w) \/ Read(w) \/ Fail(w) \/ Clean(w)
Done == \A w \in Workers : pc[w] = "idle" /\ req[w] = Requests
Next == (\E w \in Workers : Step(w)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Step(w))
NoResidue == \A n \in DOMAIN files : \E w \in Workers : pc[w] # "idle" /\ name[w] = n
NamesAreOwned == \A w, v \in Workers : (w # v /\ name[w] # None) => name[w] # name[v]
OwnTiles == \A w \in Workers : \A i \in 1..Len(res[w]) : res[w][i] \in {<<>>, <<w, i, TRUE>>}
SourcesUnchanged == src = [w \in Workers |-> w]
OpenFilesExist == \A w \in Workers : opened[w] # None => opened[w] \in DOMAIN files
AllFinish == <>Done
View == <<pc, name, files, opened, got, res, req, faults, src>>
=============================================================================
