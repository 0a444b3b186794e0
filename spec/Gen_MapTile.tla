----------------------------- MODULE Gen_MapTile ----------------------------
(* Sessions of looking at a map: neighbouring tiles, quarters, parents, jumps *)
(* (TLC simulation).  Boxes in units; the first one shows about the image.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS S, MaxLen
VARIABLES box, size, hist
vars == <<box, size, hist>>
Init == box = <<0, 0, S, S>> /\ size = <<16, 16>> /\ hist = <<>>
W == box[3] - box[1]
H == box[4] - box[2]
Show(op, b, n) == box' = b /\ size' = n /\ hist' = Append(hist, [op |-> op, box |-> b, size |-> n])
Move(dx, dy) == Show("next", <<box[1] + dx * W, box[2] + dy * H, box[3] + dx * W, box[4] + dy * H>>, size)
Steps == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}
Quarter(q) == /\ W > 8 /\ H > 8
              /\ LET x == box[1] + (W \div 2) * (q % 2)
                     y == box[2] + (H \div 2) * (q \div 2)
                 IN Show("in", <<x, y, x + (W \div 2), y + (H \div 2)>>, size)
Parent == W < 4 * S /\ Show("out", <<box[1] - (W \div 2), box[2] - (H \div 2), box[1] - (W \div 2) + 2 * W, box[2] - (H \div 2) + 2 * H>>, size)
Sizes == {2, 3, 7, 16, 31, 64, 96}
Jump == \E x \in {RandomElement(-S..S)}, y \in {RandomElement(-S..S)}, w \in {RandomElement(2..(2 * S))}, h \in {RandomElement(2..(2 * S))},
           a \in {RandomElement(Sizes)}, b \in {RandomElement(Sizes)} : Show("jump", <<x, y, x + w, y + h>>, <<a, b>>)
Far == \E d \in {RandomElement(Steps)} : Show("far", <<d[1] * 20 * S, d[2] * 20 * S, d[1] * 20 * S + S, d[2] * 20 * S + S>>, size)
Stop == Len(hist) = MaxLen /\ PrintT("BEHAVIOUR " \o ToJson([s |-> S, hist |-> hist])) /\ hist' = Append(hist, [op |-> "end", box |-> box, size |-> size]) /\ UNCHANGED <<box, size>>
More == Len(hist) < MaxLen
Next == \/ More /\ \E d \in Steps : Move(d[1], d[2])
        \/ More /\ \E q \in 0..3 : Quarter(q)
        \/ More /\ Parent
        \/ More /\ Jump
        \/ More /\ Jump /\ TRUE
        \/ More /\ RandomElement(1..4) = 1 /\ Far
        \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
