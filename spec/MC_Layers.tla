----------------------------- MODULE MC_Layers ------------------------------
(* Stacks of chips grow by cutting, scaling, flipping and rotating.  Going    *)
(* down and coming up is the identity, and the stack behaves as one chip.     *)
EXTENDS Layers, TLC, Json, IOUtils, SequencesExt
CONSTANTS Offsets, Zooms, Depth, EmitCases
VARIABLES stack, p
vars == <<stack, p>>
\* the eight symmetries of the square, as linear parts
D4 == { <<1,0,0,1>>, <<0,0-1,1,0>>, <<0-1,0,0,0-1>>, <<0,1,0-1,0>>, <<0-1,0,0,1>>, <<1,0,0,0-1>>, <<0,1,1,0>>, <<0,0-1,0-1,0>> }
Cut(d, ox, oy, z, s) ==    \* origin moved to (ox,oy), symmetry d, enlarged z times, reduced s times
    << z*d[1], z*d[2], 0 - z*(d[1]*ox + d[2]*oy), z*d[3], z*d[4], 0 - z*(d[3]*ox + d[4]*oy), 0, 0, s >>
Chips == {Cut(d, ox, oy, z, s) : d \in D4, ox \in Offsets, oy \in Offsets, z \in Zooms, s \in Zooms}
Init == stack = <<>> /\ p \in {<<0, 0>>, <<3, 5>>}
Push == Len(stack) < Depth /\ \E c \in Chips : stack' = Append(stack, c) /\ UNCHANGED p
Next == Push
Spec == Init /\ [][Next]_vars

M == Product(stack)
DownAndUp == LET r == Mul(Adj(M), M) IN r = [k \in 1..9 |-> IF k \in {1, 5, 9} THEN Det(M) ELSE 0]
Invertible == Det(M) # 0
\* one chip after another, point by point, equals the product
RECURSIVE Thru(_, _)
Thru(st, v) == IF st = <<>> THEN v
               ELSE Thru(Tail(st), <<Hx(Head(st), v[1], v[2]) + 0, Hy(Head(st), v[1], v[2]), 1>>)
OneByOne == (\A i \in 1..Len(stack) : stack[i][9] = 1) =>
               LET v == Thru(stack, <<p[1], p[2], 1>>) IN Hx(M, p[1], p[2]) = v[1] /\ Hy(M, p[1], p[2]) = v[2]
Exact == \A x \in {0, 4} : \A y \in {0, 7} : Hx(M, x, y) % Hw(M, x, y) = 0 /\ Hy(M, x, y) % Hw(M, x, y) = 0 =>
            MapsTo(M, x, y, (10 * Hx(M, x, y)) \div Hw(M, x, y), (10 * Hy(M, x, y)) \div Hw(M, x, y), 10, 0)
Emit == (EmitCases /\ p = <<0, 0>> /\ Len(stack) > 0) => PrintT("BEHAVIOUR " \o ToJson([stack |-> stack]))
=============================================================================
