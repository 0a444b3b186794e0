--------------------------------- MODULE Des --------------------------------
(* Data extension segments of a NITF file: the file is a sequence of segments *)
(* [id, header, payload].  A header is the sequence of the values of its      *)
(* fields (sequences of characters, without trailing blanks) in the order of  *)
(* the standard, the user defined subheader last.                             *)
EXTENDS Arith, FiniteSets
\* MIL-STD-2500C: DESVER .. DESCTLN
Widths == <<2, 1, 2, 11, 2, 20, 2, 8, 4, 1, 8, 43, 1, 40, 1, 8, 15>>
NFields == Len(Widths)
RECURSIVE Offset(_)
Offset(i) == IF i = 1 THEN 0 ELSE Offset(i - 1) + Widths[i - 1]
FixedLen == Offset(NFields) + Widths[NFields]        \* 169
\* segments with an id, in file order: their positions
Named(file, id) == SelectSeq([i \in 1..Len(file) |-> i], LAMBDA i : file[i].id = id)

RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = " " THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Four(n) == <<Digits[n \div 1000 + 1], Digits[((n \div 100) % 10) + 1], Digits[((n \div 10) % 10) + 1], Digits[(n % 10) + 1]>>
\* encoded header h (a sequence of characters) holds exactly the fields and subheader of seg
FieldAt(h, i) == Trim(SubSeq(h, Offset(i) + 1, Offset(i) + Widths[i]))
EncodedLen(seg) == FixedLen + 4 + seg.shl
Encodes(h, seg) == /\ Len(h) = EncodedLen(seg)
                   /\ \A i \in 1..NFields : FieldAt(h, i) = seg.header[i]
                   /\ SubSeq(h, FixedLen + 1, FixedLen + 4) = Four(seg.shl)
                   /\ Trim(SubSeq(h, FixedLen + 5, Len(h))) = seg.sub

\* the encoding itself (used by the model)
RECURSIVE PadTo(_, _)
PadTo(s, w) == IF Len(s) >= w THEN s ELSE PadTo(Append(s, " "), w)
RECURSIVE EncFrom(_, _)
EncFrom(seg, i) == IF i > NFields THEN <<>> ELSE PadTo(seg.header[i], Widths[i]) \o EncFrom(seg, i + 1)
Encode(seg) == EncFrom(seg, 1) \o Four(seg.shl) \o PadTo(seg.sub, seg.shl)
=============================================================================
