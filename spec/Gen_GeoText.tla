----------------------------- MODULE Gen_GeoText ----------------------------
(* Enumerates the format strings whose rendering is replayed on the code.     *)
EXTENDS GeoText, Json, IOUtils, SequencesExt
CONSTANTS Alphabet, MaxLen
VARIABLE x
Strings == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
Emit == JsonSerialize(IOEnv.OUT, SetToSeq(Strings))
=============================================================================
