---------------------------- MODULE Tr_SarDisplay ---------------------------
(*  exact  integer values v (powers or magnitudes) and the display (hundredths) of the same image       *)
(*  order  ranks of the magnitudes of an image (equal magnitudes have equal rank) with display values   *)
(*         (1/1000, sorted by rank)                                                                     *)
(*  phase  largest difference (millionths) between displays of images differing in phase only          *)
(*  complex amplitude a and phase of e eighths of a turn with the complex value (thousandths)           *)
(*  tile   magnitudes m of the stripes of an image and what a map tile of it, or a part of it, shows    *)
(*         them as (8 bits, fractions dropped); om as the mean magnitude of the image is shown, both    *)
(*         the same stripes in another tile of an image with statistics                                 *)
(*  linear linear mapping of integers (millionths)                                                      *)
EXTENDS SarDisplay, TraceRun
TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]
Sane(e) == {<<"SameRowsAndColumns", e.shape>>, <<"FiniteAndInRange", e.finite /\ e.lo >= 0 /\ e.hi <= 255000>>, <<"InputUntouched", e.mine>>}
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"AnswersEveryQuestion", FALSE>>}
    ELSE CASE e.op = "exact" -> Sane(e) \cup
                {<<"BrightnessRelativeToTheMean", \A i \in 1..Len(e.v) : Shows(e.o[i], e.v[i], Len(e.v), e.s, IF e.pre >= 0 THEN e.pre ELSE SumSeq(e.v))>>}
           [] e.op = "order" -> Sane(e) \cup
                {<<"BrighterForLargerMagnitude", \A i \in 1..(Len(e.o) - 1) : e.o[i] <= e.o[i + 1] + (IF e.r[i] = e.r[i + 1] THEN 1 ELSE 0)>>,
                 <<"EqualForEqualMagnitude", \A i \in 1..(Len(e.o) - 1) : e.r[i] = e.r[i + 1] => Within(e.o[i], e.o[i + 1], 2)>>}
           [] e.op = "phase" -> {<<"IndependentOfPhase", Within(e.d, 0, e.tol)>>}
           [] e.op = "linear" -> {<<"LinearInUnitRange", \A i \in 1..Len(e.o) : Within(e.o[i], e.w[i], 1)>>}
           [] e.op = "complex" -> {<<"ComplexValueOfAmplitudeAndPhase", Turned(e.a, e.e, e.re, e.im)>>}
           [] e.op = "tile" ->
                {<<"SameRowsAndColumns", e.shape>>,
                 <<"BrighterForLargerMagnitude", \A i \in 1..(Len(e.o) - 1) : e.o[i] <= e.o[i + 1]>>,
                 <<"BrightnessProportionalToMagnitude", \A i, j \in 1..Len(e.o) : (e.o[i] < 255 /\ e.m[j] > 0) => Proportional(e.o[i], e.m[i], e.o[j], e.m[j])>>,
                 <<"MeanIsShownInTheMiddle", e.om >= 0 => (e.om >= 40 /\ e.om <= 170)>>}
                \cup (IF e.both = <<>> THEN {} ELSE {<<"SameBrightnessInEveryTile", e.both = e.o>>})
           [] e.op = "unknown" -> {<<"UnknownEncodingRefused", e.refused>>}
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
