------------------------------- MODULE Config -------------------------------
(* Scoped configuration.  cfg maps option names to values ("" is absence).    *)
(* An environment is a sequence of <<name, value>> requests, later ones       *)
(* winning (names differing only in case are the same name).  Entering saves  *)
(* the values of what it changes; leaving, however it happens, restores them. *)
EXTENDS Arith, FiniteSets
RECURSIVE Put(_, _)
Put(cfg, reqs) == IF reqs = <<>> THEN cfg ELSE Put([cfg EXCEPT ![Head(reqs)[1]] = Head(reqs)[2]], Tail(reqs))
Names(reqs) == {reqs[i][1] : i \in 1..Len(reqs)}
\* a frame remembers the values of the requested names, and the names themselves
Frame(cfg, reqs) == [n \in Names(reqs) |-> cfg[n]]
Restore(cfg, fr) == [n \in DOMAIN cfg |-> IF n \in DOMAIN fr THEN fr[n] ELSE cfg[n]]
EnterCfg(cfg, reqs) == Put(cfg, reqs)
=============================================================================
