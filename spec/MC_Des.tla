------------------------------- MODULE MC_Des -------------------------------
(* All short files of segments.                                               *)
EXTENDS Des, TLC, Json
CONSTANTS MaxSegs, EmitCases
VARIABLES file
vars == <<file>>
Ids == {"XML_DATA_CONTENT", "OTHER"}
Subs == {"none", "padded", "full"}
Payloads == {"xml", "prolog", "text", "binary", "empty"}
Init == file = <<>>
Next == \E id \in Ids, s \in Subs, p \in Payloads : Len(file) < MaxSegs /\ file' = Append(file, [id |-> id, sub |-> s, payload |-> p])
Spec == Init /\ [][Next]_vars
\* every segment is found under its id, once, in order
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
FoundOnce == /\ \A i \in 1..Len(file) : Cardinality({k \in 1..Len(Named(file, file[i].id)) : Named(file, file[i].id)[k] = i}) = 1
             /\ \A id \in Ids : Increasing(Named(file, id)) /\ \A k \in 1..Len(Named(file, id)) : file[Named(file, id)[k]].id = id
Partition == Len(Named(file, "OTHER")) + Len(Named(file, "XML_DATA_CONTENT")) = Len(file)
\* the encoding is recovered exactly
Blank == [i \in 1..NFields |-> <<>>]
SampleHeaders == {Blank, [Blank EXCEPT ![4] = <<"A", "B">>], [Blank EXCEPT ![17] = <<"7">>, ![12] = <<" ", "x">>],
                  [i \in 1..NFields |-> IF Widths[i] = 1 THEN <<"Z">> ELSE <<"a", "b">>]}
SubOf(s) == CASE s = "none" -> <<>> [] s = "padded" -> <<"a", " ", "b">> [] OTHER -> <<" ", "c", "d", "e", "f">>
ShlOf(s) == IF s = "none" THEN 0 ELSE 5
Segs == {[header |-> h, sub |-> SubOf(s), shl |-> ShlOf(s)] : h \in SampleHeaders, s \in Subs}
ASSUME FixedLen = 169
ASSUME \A g \in Segs : Encodes(Encode(g), g)
ASSUME \A g, k \in Segs : g # k => ~Encodes(Encode(g), k)
Emit == (EmitCases /\ Len(file) = MaxSegs) => PrintT("BEHAVIOUR " \o ToJson([file |-> file]))
=============================================================================
