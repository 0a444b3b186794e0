------------------------------ MODULE MC_Config -----------------------------
(* All histories of entering (several environments, the same one again),      *)
(* leaving normally and by exceptions, failing to enter, setting options and  *)
(* extending an environment while it is entered.                              *)
EXTENDS Config, TLC, Json
CONSTANTS MaxLen, MaxDepth, EmitCases
Keys == {"A", "B", "C"}
VARIABLES cfg, stack, envs, hist, before
vars == <<cfg, stack, envs, hist, before>>
Envs0 == [e1 |-> << <<"A", "1">>, <<"B", "2">> >>, e2 |-> << <<"A", "3">> >>, e3 |-> << <<"B", "5">>, <<"B", "6">> >>]
Init == /\ cfg \in {[n \in Keys |-> ""], [n \in Keys |-> IF n = "A" THEN "9" ELSE ""]}
        /\ stack = <<>> /\ envs = Envs0 /\ before = <<>>
        /\ hist = << <<"start", cfg["A"]>> >>
Log(x) == hist' = Append(hist, x)
Enter(e) == /\ Len(stack) < MaxDepth
            /\ stack' = Append(stack, Frame(cfg, envs[e])) /\ before' = Append(before, [n \in Names(envs[e]) |-> cfg[n]])
            /\ cfg' = EnterCfg(cfg, envs[e]) /\ UNCHANGED envs /\ Log(<<"enter", e>>)
Leave(how) == /\ stack # <<>>
              /\ cfg' = Restore(cfg, stack[Len(stack)])
              /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ before' = SubSeq(before, 1, Len(before) - 1)
              /\ UNCHANGED envs /\ Log(<<how, "">>)
FailEnter == UNCHANGED <<cfg, stack, envs, before>> /\ Log(<<"failenter", "">>)
Set(n, v) == cfg' = [cfg EXCEPT ![n] = v] /\ UNCHANGED <<stack, envs, before>> /\ Log(<<"set", n, v>>)
Extend(e) == /\ ~\E i \in 1..Len(envs[e]) : envs[e][i][1] = "C"
             /\ envs' = [envs EXCEPT ![e] = Append(@, <<"C", "7">>)] /\ UNCHANGED <<cfg, stack, before>> /\ Log(<<"extend", e>>)
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E e \in DOMAIN envs : Enter(e)
           \/ \E how \in {"leave", "raise"} : Leave(how)
           \/ FailEnter
           \/ Set("A", "4") \/ Set("B", "")
           \/ Extend("e1")
Spec == Init /\ [][Next]_vars
\* leaving any scope brings back exactly what was there when it was entered, for the options it had changed
Restored == [][stack' # stack /\ Len(stack') < Len(stack) =>
                 \A n \in DOMAIN before[Len(before)] : cfg'[n] = before[Len(before)][n]]_vars
OthersKept == [][Len(stack') < Len(stack) => \A n \in Keys \ DOMAIN stack[Len(stack)] : cfg'[n] = cfg[n]]_vars
InForce == [][Len(stack') > Len(stack) => \E e \in DOMAIN envs : cfg' = EnterCfg(cfg, envs[e]) /\
                 \A i \in 1..Len(envs[e]) : (\A j \in (i+1)..Len(envs[e]) : envs[e][j][1] # envs[e][i][1]) => cfg'[envs[e][i][1]] = envs[e][i][2]]_vars
Emit == (EmitCases /\ Len(hist) > MaxLen) => PrintT("BEHAVIOUR " \o ToJson([hist |-> hist]))
=============================================================================
