------------------------------ MODULE MC_Geoloc -----------------------------
(* (1) calls: any sequence of calls over a few features; what a feature holds *)
(* after them depends only on whether it was in one.  (2) the error bound of  *)
(* the approximation grid, over all positions in a cell.                      *)
EXTENDS Geoloc, TLC, Json
CONSTANTS NF, MaxLen, EmitCases
VARIABLES hist, held, cell
vars == <<hist, held, cell>>
F == 1..NF
Init == hist = <<>> /\ held = [f \in F |-> "as given"] /\ cell \in {<<k0, h, x>> \in (-3..3) \X (1..6) \X (0..6) : x <= h}
Next == \E S \in SUBSET F : /\ Len(hist) < MaxLen
                            /\ hist' = Append(hist, [f \in F |-> f \in S])
                            /\ held' = [f \in F |-> IF f \in S THEN "located" ELSE held[f]]
                            /\ UNCHANGED cell
Spec == Init /\ [][Next]_vars
OnlyMembershipMatters == \A f \in F : (held[f] = "located") = (\E i \in 1..Len(hist) : hist[i][f])
Idempotent == [][hist # <<>> /\ Len(hist') > Len(hist) /\ hist'[Len(hist')] = hist[Len(hist)] => held' = held]_vars
\* 0 <= interpolation - x^2 <= h^2 / 4
GridBound == LET k0 == cell[1] h == cell[2] x == cell[1] + cell[3] d == Interp2(k0, k0 + h, x) - x * x * h
             IN 0 <= d /\ 4 * d <= h * h * h
Emit == (EmitCases /\ Len(hist) = MaxLen /\ cell = <<0, 1, 0>>) => PrintT("BEHAVIOUR " \o ToJson([hist |-> hist]))
=============================================================================
