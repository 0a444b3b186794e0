------------------------------- MODULE Tr_Dra -------------------------------
(*  hist   a histogram and its parameters; observed positions in 1/1000 buckets (flat: first = last bucket value) *)
(*  empty  a histogram without counts                                                                             *)
(*  scale  per band scale parameters of an image; observed positions in millionths of the range of its pixels     *)
(*  map    sorted distinct pixel values through the mapping: outputs (offset by the output minimum)               *)
(*  display  pixel values in ascending order by band (v) and what a map tile displays them as (ch); alone: the same for an image of that band only *)
(*  central   how often an image has every value 0, 1, 2, ... and the range chosen for it (tenths), whichever of its equal blocks are counted *)
(*  central2  the same for an image whose blocks differ: a sample of them has to stand for all                    *)
(*  types  limits of the pixel types                                                                              *)
EXTENDS Dra, TraceRun
TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]
M == 1000000
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"AnswersEveryQuestion", FALSE>>}
    ELSE CASE e.op = "hist" ->
                {<<"ActualRangeIsThatOfTheData", Within(e.amin, 1000 * First(e.c), 1) /\ Within(e.amax, 1000 * Last(e.c), 1)>>,
                 <<"NeverInverts", e.smin # NaN /\ e.smax # NaN /\ e.smin <= e.smax>>,
                 <<"WithinTheDataRange", 1000 * First(e.c) - 1 <= e.smin /\ e.smax <= 1000 * Last(e.c) + 1>>,
                 <<"CentralRangeWidenedByTheWeights",
                   \E r \in Ranges10(e.c, e.minp, e.maxp, e.a, e.b) : Within(e.smin, 100 * r[1], 2) /\ Within(e.smax, 100 * r[2], 2)>>,
                 <<"HistogramUntouched", e.mine>>}
           [] e.op = "empty" -> {<<"UsableWithoutCounts", e.finite /\ e.ordered /\ e.inside>>}
           [] e.op = "flat" -> {<<"SingleValueKept", e.same>>}
           [] e.op = "scale" ->
                {<<"NeverInverts", e.smin # NaN /\ e.smax # NaN /\ e.smin <= e.smax /\ ~e.inverted>>,
                 <<"WithinTheDataRange", e.option = "NONE" \/ (0 - 2 <= e.smin /\ e.smax <= M + 2)>>,
                 <<"OntoTheOutputRange", e.out>>,
                 <<"OutputTypeAsRequested", e.type>>,
                 <<"StatedInputRange", CASE e.option = "NONE" -> e.typerange
                                         [] e.option = "MINMAX" -> e.smin <= 2 /\ e.smax >= M - e.bucket - 2
                                         [] OTHER -> TRUE>>,
                 <<"SourceUntouched", e.mine>>}
           [] e.op = "central" ->
                {<<"CentralRangeOfThePixels",
                   \E r \in Ranges10(e.c, 2, 98, 2, 4) : Within(e.smin, r[1], 30) /\ Within(e.smax, r[2], 30)>>,
                 <<"WithinTheDataRange", 10 * First(e.c) - 1 <= e.smin /\ e.smax <= 10 * Last(e.c) + 1>>}
           [] e.op = "central2" ->
                {<<"CentralHalfOfThePixelsTold", LET t == Total(e.c) IN
                   /\ e.smin # NaN /\ e.smax # NaN
                   /\ \E i \in 1..Len(e.c) : 4 * CumTo(e.c, i) >= t /\ e.smin <= 10 * (i - 1) /\ (\A j \in 1..(i - 1) : 4 * CumTo(e.c, j) < t)
                   /\ \E i \in 1..Len(e.c) : 4 * CumTo(e.c, i) >= 3 * t /\ e.smax >= 10 * (i - 1) /\ (\A j \in 1..(i - 1) : 4 * CumTo(e.c, j) < 3 * t)>>,
                 <<"WithinTheDataRange", 10 * First(e.c) - 1 <= e.smin /\ e.smax <= 10 * Last(e.c) + 1>>}
           [] e.op = "blank" -> {<<"UsableWithoutPixels", e.finite /\ e.ordered /\ e.out>>}
           [] e.op = "map" ->
                {<<"LowerPixelsNeverBrighter", \A i \in 1..(Len(e.o) - 1) : e.o[i] <= e.o[i + 1]>>,
                 <<"AcrossTheFullOutputRange", e.degenerate \/ (e.o[1] = 0 /\ e.o[Len(e.o)] = e.m)>>,
                 <<"InTheOutputRange", \A i \in 1..Len(e.o) : 0 <= e.o[i] /\ e.o[i] <= e.m>>}
           [] e.op = "display" ->
                {<<"LowerPixelsNeverBrighter", \A c \in 1..Len(e.ch) : \A i \in 1..(Len(e.ch[c]) - 1) : e.ch[c][i] <= e.ch[c][i + 1]>>,
                 <<"EqualPixelsAlike", \A c \in 1..Len(e.ch) : \A i \in 1..(Len(e.ch[c]) - 1) : e.v[c][i] = e.v[c][i + 1] => e.ch[c][i] = e.ch[c][i + 1]>>,
                 <<"EachBandByItsOwnValues", Len(e.ch) = Len(e.alone) /\ \A c \in 1..Len(e.ch) : \A i \in 1..Len(e.ch[c]) : Abs(e.ch[c][i] - e.alone[c][i]) <= 1>>,
                 <<IF e.option = "NONE" THEN "ValuesDisplayedAsTheyAre" ELSE "AcrossTheFullOutputRange",
                   \A c \in 1..Len(e.ch) : LET d == e.ch[c]  n == Len(d) IN
                     CASE e.option = "NONE" -> \A i \in 1..n : d[i] = Max2(0, Min2(255, e.v[c][i]))
                       [] OTHER -> e.flat[c] \/ (d[1] = 0 /\ d[n] >= 254)>>}
           [] e.op = "types" -> {<<"PixelTypeLimits", e.same>>}
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
