---------------------------- MODULE Gen_TileStore ---------------------------
(* Random schedules of the design (TLC simulation).                           *)
EXTENDS MC_TileStore
VARIABLE told
Stop == Done /\ ~told /\ told' = TRUE /\ PrintT("BEHAVIOUR " \o ToJson([sched |-> sched])) /\ UNCHANGED vars
Quiet == \E w \in Workers : (Start(w) \/ Write(w) \/ Open(w) \/ Read(w) \/ Clean(w)) /\ UNCHANGED told
\* steps without a fault have more weight
GNext == Quiet \/ (Quiet /\ TRUE) \/ ((\E w \in Workers : Fail(w)) /\ UNCHANGED told) \/ Stop
GSpec == Init /\ told = FALSE /\ [][GNext]_<<vars, told>>
=============================================================================
