------------------------------- MODULE MC_Sar -------------------------------
(* A slice across the track.  The terrain lies in two elevation tiles, the    *)
(* scene centre in the first.  The walk along the path is limited to the      *)
(* heights of the tiles looked at (Look): both the scene centre's and the     *)
(* location's.  Whatever the terrain, the voids and the side of the track,    *)
(* the walk ends at the lowest place the path meets the terrain, or at the    *)
(* default surface, on the imaged side.                                       *)
EXTENDS Sar, TLC
CONSTANTS N, Border
VARIABLES terr, side, n, prev, ans, pc
vars == <<terr, side, n, prev, ans, pc>>
Cells == 0..N
Heights == 0..N
Dflt == N \div 2
\* the path climbs one unit per cell; cell c lies side * (10 + c) from the track
Path(T) == [i \in 1..(N + 1) |-> [z |-> 2 * (i - 1), t |-> IF T[i - 1] = NoTerrain THEN NoTerrain ELSE 2 * T[i - 1] + 1]]
Tile(T, k) == {T[c] : c \in {c \in Cells : IF k = 1 THEN c < Border ELSE c >= Border}} \ {NoTerrain}
\* tiles described: the scene centre's (1) and the one under the location on the default surface
Looked == {1} \cup {IF Dflt < Border THEN 1 ELSE 2}
Known(T) == UNION {Tile(T, k) : k \in Looked}
Lo(T) == CHOOSE h \in Known(T) : \A g \in Known(T) : h <= g
Hi(T) == CHOOSE h \in Known(T) : \A g \in Known(T) : h >= g

Init == /\ terr \in [Cells -> Heights \cup {NoTerrain}]
        /\ side \in {1, 0 - 1}
        /\ n = (IF Known(terr) = {} THEN 0 ELSE Lo(terr))
        /\ prev = 0 /\ ans = [z |-> 0, x |-> 0, from |-> "none"]
        /\ pc = (IF Known(terr) = {} THEN "fallback" ELSE "walk")
P(i) == Path(terr)[i + 1]
Step == /\ pc = "walk" /\ n <= N /\ n <= Hi(terr) + 1
        /\ IF ~Covered(P(n)) THEN prev' = 0 /\ n' = n + 1 /\ UNCHANGED <<ans, pc>>
           ELSE IF prev * Side(P(n)) = 0 - 1
                THEN ans' = [z |-> P(n).z, x |-> side * (10 + n), from |-> "terrain"] /\ pc' = "done" /\ UNCHANGED <<n, prev>>
                ELSE prev' = Side(P(n)) /\ n' = n + 1 /\ UNCHANGED <<ans, pc>>
        /\ UNCHANGED <<terr, side>>
End == pc = "walk" /\ (n > N \/ n > Hi(terr) + 1) /\ pc' = "fallback" /\ UNCHANGED <<terr, side, n, prev, ans>>
Fall == /\ pc = "fallback" /\ pc' = "done"
        /\ ans' = [z |-> 2 * Dflt, x |-> side * (10 + Dflt), from |-> "default"]
        /\ UNCHANGED <<terr, side, n, prev>>
Next == Step \/ End \/ Fall
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the tiles not described hold nothing the described ones do not reach
Described == Tile(terr, 1) \cup Tile(terr, 2) = {} \/
             (Known(terr) # {} /\ \A h \in Tile(terr, 1) \cup Tile(terr, 2) : h >= Lo(terr) /\ h <= Hi(terr))
LowestMeeting == (pc = "done" /\ Described) =>
    LET C == Crossings(Path(terr))
    IN IF C = {} THEN ans.from = "default" ELSE ans.from = "terrain" /\ ans.z = Path(terr)[Lowest(C) + 1].z
AcceptedByJudge == (pc = "done" /\ Described) => IsAnswer(Path(terr), 1, ans.z, 2 * Dflt, 0)
MeetingAcceptedByJudge == pc = "done" /\ ans.from = "terrain" => IsMeeting(Path(terr), 1, ans.z, 2 * Dflt, 0)
ImagedSide == pc = "done" => ans.x * side > 0
NeverOffTerrain == (pc = "done" /\ ans.from = "terrain") =>
    \E i \in 1..N : ans.z = Path(terr)[i + 1].z /\ Meets(Path(terr), i)
Terminates == <>(pc = "done")
=============================================================================
