------------------------------ MODULE Tr_Config -----------------------------
(* Histories recorded from the real context manager over real GDAL options:   *)
(* every event carries the values of all options after it (obs).              *)
EXTENDS Config, TraceRun
TrS0 == [cfg |-> [n \in {"none"} |-> ""], stack |-> <<>>]
Map(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> (CHOOSE i \in 1..Len(s) : s[i][1] = n)]
Obs(e) == LET m == Map(e.obs) IN [n \in DOMAIN m |-> e.obs[m[n]][2]]
Want(s, e) == CASE e.op = "start" -> Obs(e)
                [] e.op = "enter" -> EnterCfg(s.cfg, e.reqs)
                [] e.op = "leave" -> Restore(s.cfg, s.stack[Len(s.stack)])
                [] e.op = "set" -> [s.cfg EXCEPT ![e.name] = e.val]
                [] OTHER -> s.cfg
TrApply(s, e) == [cfg |-> Want(s, e),
                  stack |-> CASE e.op = "start" -> <<>>
                              [] e.op = "enter" -> Append(s.stack, Frame(s.cfg, e.reqs))
                              [] e.op = "leave" -> SubSeq(s.stack, 1, Len(s.stack) - 1)
                              [] OTHER -> s.stack]
TrClauses(s, e) ==
    CASE e.op = "start" -> {}
      [] e.op = "enter" -> {<<"RequestedOptionsInForce", e.st = "ok" /\ Obs(e) = Want(s, e)>>}
      [] e.op = "leave" -> {<<"EverythingRestored", e.st = "ok" /\ Obs(e) = Want(s, e)>>,
                            <<"ExceptionsPropagate", e.propagated>>}
      [] e.op = "failenter" -> {<<"NothingLeftByAFailedEntry", Obs(e) = Want(s, e)>>}
      [] e.op \in {"set", "extend"} -> {<<"OnlyScopesChangeOptions", Obs(e) = Want(s, e)>>}
      [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
