------------------------------ MODULE MC_Coord ------------------------------
(* Two coordinate values of the same kind, one constructed from the other's   *)
(* components, then any sequence of assignments through any names.            *)
EXTENDS Coord, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, EmitCases
VARIABLES kind, a, b, hist
vars == <<kind, a, b, hist>>
Init == kind \in {"world", "geodetic", "image"} /\ a = [i \in 1..Arity[kind] |-> i] /\ b = a /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E n \in DOMAIN Names[kind], w \in {"a", "b"} :
             LET v == 10 * (Len(hist) + 1) + Names[kind][n] IN
             /\ hist' = Append(hist, [w |-> w, name |-> n, v |-> v])
             /\ IF w = "a" THEN a' = Put(a, kind, n, v) /\ b' = b ELSE b' = Put(b, kind, n, v) /\ a' = a
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
LastWriteWins == \A i \in 1..Len(hist) :
    (\A j \in (i+1)..Len(hist) : hist[j].w # hist[i].w \/ Names[kind][hist[j].name] # Names[kind][hist[i].name])
        => Get(IF hist[i].w = "a" THEN a ELSE b, kind, hist[i].name) = hist[i].v
Independent == (\A i \in 1..Len(hist) : hist[i].w = "a") => b = [i \in 1..Arity[kind] |-> i]
AliasesAgree == \A m, n \in DOMAIN Names[kind] : Names[kind][m] = Names[kind][n] => Shown(a, kind)[m] = Shown(a, kind)[n]
Emit == (EmitCases /\ Len(hist) = Depth) => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, hist |-> hist]))
ASSUME \A q \in 0..3, h \in {0, 500} : QuarterTurn(OnEquator(q, h, 100)) = OnEquator((q + 1) % 4, h, 100)
ASSUME \A p \in {1, 0 - 1} : Mirror(AtPole(p, 7, 10)) = AtPole(0 - p, 7, 10) /\ QuarterTurn(AtPole(p, 7, 10)) = AtPole(p, 7, 10)
=============================================================================
