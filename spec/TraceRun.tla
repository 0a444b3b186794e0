------------------------------ MODULE TraceRun ------------------------------
(* Shared machinery of every trace specification.                             *)
(* A trace is a sequence of events recorded from the running code (one JSON   *)
(* object per line, IOEnv.TRACE).  The extending module provides              *)
(*   S0            the initial abstract state of the specification            *)
(*   Apply(s, e)   the abstract state after event e (the spec's own action)   *)
(*   Clauses(s, e) the set of <<clause name, BOOLEAN>> pairs e must satisfy   *)
(* Validation is total: every event is consumed, every failing clause of      *)
(* every event is recorded with its name, and the verdict is written to       *)
(* IOEnv.OUT in the final state together with how often each clause applied.  *)
EXTENDS Arith, FiniteSets, TLC, Json, IOUtils

CONSTANTS S0, Apply(_, _), Clauses(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

VARIABLES trL, trS, trBad, trCov
trVars == <<trL, trS, trBad, trCov>>

Failed(cs) == {p[1] : p \in {x \in cs : ~x[2]}}

Bump(cov, names) ==
    [n \in (DOMAIN cov) \cup names |->
        (IF n \in DOMAIN cov THEN cov[n] ELSE 0) + (IF n \in names THEN 1 ELSE 0)]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

TInit == trL = 1 /\ trS = S0 /\ trBad = <<>> /\ trCov = [n \in {} |-> 0]

TNext ==
    /\ trL <= TraceLen
    /\ LET e == Trace[trL]
           cs == Clauses(trS, e)
           f == Failed(cs)
       IN /\ trS' = Apply(trS, e)
          /\ trCov' = Bump(trCov, {p[1] : p \in cs})
          /\ trBad' = IF f = {} THEN trBad ELSE Append(trBad, [i |-> trL, c |-> SetSeq(f)])
    /\ trL' = trL + 1

TSpec == TInit /\ [][TNext]_trVars

Done == trL > TraceLen => JsonSerialize(IOEnv.OUT, [n |-> trL - 1, bad |-> trBad, cov |-> trCov])
=============================================================================
