------------------------------ MODULE GeoText ------------------------------
(* Text form of a geodetic coordinate, and naming of one-degree DEM cells.    *)
(*                                                                            *)
(* Angles are integers in milliarcseconds (mas).  The format language is      *)
(* specified as a streaming automaton over the characters of the format       *)
(* string, with modes "lit", "pct" (after %), "lat" (after %l), "lon" (after  *)
(* %o).  The atoms it emits are the parts of the coordinate.                  *)
EXTENDS Arith, TLC

MasPerSec == 1000
MasPerDeg == 3600000

\* whole arc seconds of a magnitude, truncated
SecOf(mas) == Abs(mas) \div MasPerSec
DegPart(t) == t \div 3600
MinPart(t) == (t \div 60) % 60
SecPart(t) == t % 60

LatHemi(mas) == IF mas < 0 THEN "S" ELSE "N"
LonHemi(mas) == IF mas < 0 THEN "W" ELSE "E"
Lower(h) == CASE h = "N" -> "n" [] h = "S" -> "s" [] h = "E" -> "e" [] h = "W" -> "w"

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)

(* The atoms of a coordinate: text of every directive.  tl, to are whole      *)
(* seconds of latitude and longitude magnitude; dec gives the decimal texts.  *)
Atoms(tl, hl, to, ho, dec) ==
    [ld |-> Pad2(DegPart(tl)), lm |-> Pad2(MinPart(tl)), ls |-> Pad2(SecPart(tl)), lh |-> Lower(hl), lH |-> hl,
     od |-> Pad3(DegPart(to)), om |-> Pad2(MinPart(to)), os |-> Pad2(SecPart(to)), oh |-> Lower(ho), oH |-> ho,
     L |-> dec.L, l |-> dec.l, O |-> dec.O, o |-> dec.o, E |-> dec.E]

Parts == {"d", "m", "s", "h", "H"}

(* ---- the streaming automaton: state [mode, out] ---- *)
FmtInit == [mode |-> "lit", out |-> ""]

Lit(f, c) == IF c = "%" THEN [f EXCEPT !.mode = "pct"] ELSE [f EXCEPT !.out = @ \o c]
Pct(f, c, a) ==
    CASE c = "L" -> [mode |-> "lit", out |-> f.out \o a.L]
      [] c = "O" -> [mode |-> "lit", out |-> f.out \o a.O]
      [] c = "E" -> [mode |-> "lit", out |-> f.out \o a.E]
      [] c = "%" -> [mode |-> "lit", out |-> f.out \o "%"]
      [] c = "l" -> [mode |-> "lat", out |-> f.out]
      [] c = "o" -> [mode |-> "lon", out |-> f.out]
      [] OTHER -> [mode |-> "lit", out |-> f.out]            \* unknown directives are ignored
LatPart(f, c, a) ==
    IF c \in Parts
    THEN [mode |-> "lit", out |-> f.out \o (CASE c = "d" -> a.ld [] c = "m" -> a.lm [] c = "s" -> a.ls
                                              [] c = "h" -> a.lh [] c = "H" -> a.lH)]
    ELSE Lit([mode |-> "lit", out |-> f.out \o a.l], c)
LonPart(f, c, a) ==
    IF c \in Parts
    THEN [mode |-> "lit", out |-> f.out \o (CASE c = "d" -> a.od [] c = "m" -> a.om [] c = "s" -> a.os
                                              [] c = "h" -> a.oh [] c = "H" -> a.oH)]
    ELSE Lit([mode |-> "lit", out |-> f.out \o a.o], c)

FmtStep(f, c, a) ==
    CASE f.mode = "lit" -> Lit(f, c)
      [] f.mode = "pct" -> Pct(f, c, a)
      [] f.mode = "lat" -> LatPart(f, c, a)
      [] f.mode = "lon" -> LonPart(f, c, a)

\* end of the format string flushes a pending directive
FmtEnd(f, a) ==
    CASE f.mode = "lit" -> f.out
      [] f.mode = "pct" -> f.out \o "%"                      \* a trailing lone % is a literal
      [] f.mode = "lat" -> f.out \o a.l
      [] f.mode = "lon" -> f.out \o a.o

RECURSIVE FmtRun(_, _, _, _)
FmtRun(f, s, i, a) == IF i > Len(s) THEN FmtEnd(f, a) ELSE FmtRun(FmtStep(f, s[i], a), s, i + 1, a)

DefaultFormat == <<"%","l","d","%","l","m","%","l","s","%","l","H"," ",
                   "%","o","d","%","o","m","%","o","s","%","o","H"," ","%","E">>
Render(s, a) == FmtRun(FmtInit, IF s = <<>> THEN DefaultFormat ELSE s, 1, a)

(* An independent, definitional reading of the same language, used only by the model checker. *)
RECURSIVE DefRender(_, _)
DefRender(s, a) ==
    IF s = <<>> THEN ""
    ELSE IF s[1] # "%" \/ Len(s) = 1 THEN s[1] \o DefRender(Tail(s), a)
    ELSE LET c == s[2]  rest == SubSeq(s, 3, Len(s))
             k == IF rest = <<>> THEN "" ELSE rest[1]
         IN IF c \in {"l", "o"} /\ k \in Parts
            THEN a[(c \o k)] \o DefRender(SubSeq(s, 4, Len(s)), a)
            ELSE (IF c \in {"L", "O", "E", "l", "o"} THEN a[c] ELSE IF c = "%" THEN "%" ELSE "") \o DefRender(rest, a)

(* ---- one degree cells ---- *)
Cell(mas) == FloorDiv(mas, MasPerDeg)
\* a location on the shared edge belongs to both neighbouring tiles
CellHolds(cell, mas) == cell * MasPerDeg <= mas /\ mas <= (cell + 1) * MasPerDeg
Interior(mas) == mas % MasPerDeg # 0

SrtmCovers(latCell) == latCell <= 59 /\ latCell >= -56
SrtmName(prefix, version, ext, latCell, lonCell) ==
    prefix \o (IF latCell < 0 THEN "s" ELSE "n") \o Pad2(Abs(latCell)) \o "_"
           \o (IF lonCell < 0 THEN "w" ELSE "e") \o Pad3(Abs(lonCell)) \o "_" \o version \o ext

NoDec == [L |-> "", l |-> "", O |-> "", o |-> "", E |-> ""]
CellAtoms(latCell, lonCell) ==
    Atoms(Abs(latCell) * 3600, LatHemi(latCell), Abs(lonCell) * 3600, LonHemi(lonCell), NoDec)
GenericName(fmt, latCell, lonCell) == Render(fmt, CellAtoms(latCell, lonCell))
=============================================================================
