----------------------------- MODULE MC_GeoText -----------------------------
(* Exhaustive: every format string up to MaxLen over the alphabet, streamed   *)
(* character by character; plus every boundary second of the angle parts.     *)
EXTENDS GeoText
CONSTANTS Alphabet, MaxLen
VARIABLES fmt, f
vars == <<fmt, f>>
A0 == Atoms(SecOf(163800000), "S", SecOf(414900000), "E", [L |-> "<L>", l |-> "<l>", O |-> "<O>", o |-> "<o>", E |-> "<E>"])

Init == fmt = <<>> /\ f = FmtInit
Next == /\ Len(fmt) < MaxLen
        /\ \E c \in Alphabet : fmt' = Append(fmt, c) /\ f' = FmtStep(f, c, A0)
Spec == Init /\ [][Next]_vars

StreamEqualsDefinition == fmt # <<>> => FmtEnd(f, A0) = DefRender(fmt, A0)
ModeOk == f.mode \in {"lit", "pct", "lat", "lon"}

\* the angle parts: in range and reassembling to the same number of seconds, around every carry
Edges == {0, 1, 59, 60, 61, 3599, 3600, 3601, 7199, 7200, 107999, 108000, 108001, 323999, 324000, 647999, 648000}
ASSUME \A t \in Edges : /\ MinPart(t) \in 0..59 /\ SecPart(t) \in 0..59
                        /\ DegPart(t) * 3600 + MinPart(t) * 60 + SecPart(t) = t
\* every location lies in the cell that names it, interior locations in exactly one
ASSUME \A d \in -180..179 : \A o \in {0, 1, 1800000, 3599999} :
          LET m == d * MasPerDeg + o IN
            /\ CellHolds(Cell(m), m)
            /\ Interior(m) => \A c \in -181..180 : CellHolds(c, m) => c = Cell(m)
=============================================================================
