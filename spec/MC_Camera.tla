----------------------------- MODULE MC_Camera ------------------------------
(* Inverse projection by descent.  From any hint and any first step the search *)
(* moves to a better neighbour while there is one and halves its step when    *)
(* there is none.  Wherever the terrain is gentle enough that neighbouring    *)
(* ground cells never swap order in the image, the answer is on the requested *)
(* surface, maps back to within one ground cell of the asked location, and    *)
(* does not depend on the hint nor on the questions asked before.             *)
EXTENDS Camera, TLC
CONSTANTS N, Scales, Parallaxes, Heights, Queries
VARIABLES cam, surf, chip, ask, cur, step, pc, memo
vars == <<cam, surf, chip, ask, cur, step, pc, memo>>

G == 0..N
Dflt == 1
Blocks == [1..4 -> Heights \cup {Void}]
Terrain(b) == [g \in G |-> b[1 + (g * 4) \div (N + 1)]]
Monotone(c, s) == \A g \in 0..(N - 1) :
    (Project(c, g + 1, HeightAt(s, Dflt, g + 1)) - Project(c, g, HeightAt(s, Dflt, g))) * c.scale > 0
Cams == {c \in [scale : Scales \cup {0 - s : s \in Scales}, parallax : Parallaxes, offset : {5}] : TRUE}

\* image locations that see the ground: every one between the images of the two ends
Seen(c, s) == LET a == Project(c, 0, HeightAt(s, Dflt, 0))  b == Project(c, N, HeightAt(s, Dflt, N))
              IN Min2(a, b)..Max2(a, b)
Gap(c, s) == CHOOSE m \in 0..50 :
    /\ \A g \in 0..(N - 1) : Abs(Project(c, g + 1, HeightAt(s, Dflt, g + 1)) - Project(c, g, HeightAt(s, Dflt, g))) <= m
    /\ \E g \in 0..(N - 1) : Abs(Project(c, g + 1, HeightAt(s, Dflt, g + 1)) - Project(c, g, HeightAt(s, Dflt, g))) = m

Init ==
    /\ cam \in Cams
    /\ \E b \in Blocks : surf = Terrain(b)
    /\ Monotone(cam, surf)
    /\ chip \in [origin : {0, 3}, sign : {1, 0 - 1}]
    /\ ask = 0 /\ cur = 0 /\ step = 0 /\ pc = "idle" /\ memo = <<>>

Ask == /\ pc = "idle" /\ Len(memo) < Queries
       /\ \E f \in Seen(cam, surf) : f % 3 = 0 /\ ask' = ToChip(chip, f)
       /\ \E h \in {0, N \div 2, N} : cur' = h
       /\ \E s \in {1, 4} : step' = s
       /\ pc' = "search" /\ UNCHANGED <<cam, surf, chip, memo>>

Target == ToFull(chip, ask)
Better == {g \in {cur - step, cur + step} \cap G : Miss(cam, surf, Dflt, g, Target) < Miss(cam, surf, Dflt, cur, Target)}
Move == pc = "search" /\ Better # {} /\ cur' \in Better /\ UNCHANGED <<cam, surf, chip, ask, step, pc, memo>>
Shrink == pc = "search" /\ Better = {} /\ step > 1 /\ step' = step \div 2 /\ UNCHANGED <<cam, surf, chip, ask, cur, pc, memo>>
Answer == /\ pc = "search" /\ Better = {} /\ step = 1
          /\ memo' = Append(memo, [q |-> ask, g |-> cur, h |-> HeightAt(surf, Dflt, cur)])
          /\ pc' = "idle" /\ UNCHANGED <<cam, surf, chip, ask, cur, step>>
Next == Ask \/ Move \/ Shrink \/ Answer
Spec == Init /\ [][Next]_vars

RoundTrip == \A i \in 1..Len(memo) :
    Abs(ToChip(chip, Project(cam, memo[i].g, memo[i].h)) - memo[i].q) <= Gap(cam, surf)
OnSurface == \A i \in 1..Len(memo) : memo[i].h = IF surf[memo[i].g] = Void THEN Dflt ELSE surf[memo[i].g]
Repeatable == \A i, j \in 1..Len(memo) : memo[i].q = memo[j].q => Abs(memo[i].g - memo[j].g) <= 1
Progress == pc = "search" => ENABLED (Move \/ Shrink \/ Answer)
Descends == [][(pc = "search" /\ pc' = "search" /\ step' = step) =>
               Miss(cam, surf, Dflt, cur', Target) < Miss(cam, surf, Dflt, cur, Target)]_vars
ASSUME \A o \in {0, 3}, s \in {1, 0 - 1}, x \in -5..5 : ToFull([origin |-> o, sign |-> s], ToChip([origin |-> o, sign |-> s], x)) = x
=============================================================================
