------------------------------ MODULE Tr_Coord ------------------------------
(*  new/set   operations on two coordinate values, with what every name shows *)
(*  arity     construction with the wrong number of components                *)
(*  equator, pole, turn, mirror, conv   conversions                           *)
EXTENDS Coord, TraceRun
TrS0 == [kind |-> "world", a |-> <<0, 0, 0>>, b |-> <<0, 0, 0>>]
TrApply(s, e) ==
    IF e.st # "ok" THEN s
    ELSE CASE e.op = "new" -> [kind |-> e.kind, a |-> [i \in 1..Arity[e.kind] |-> i], b |-> [i \in 1..Arity[e.kind] |-> i]]
           [] e.op = "set" -> IF e.w = "a" THEN [s EXCEPT !.a = Put(s.a, s.kind, e.name, e.v)] ELSE [s EXCEPT !.b = Put(s.b, s.kind, e.name, e.v)]
           [] OTHER -> s
ShowsAll(val, kind, shown) == \A n \in DOMAIN Names[kind] : shown[n] = Get(val, kind, n)
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"NoException", FALSE>>}
    ELSE LET t == TrApply(s, e) IN
      CASE e.op \in {"new", "set"} -> {<<"EveryNameShowsItsComponent", ShowsAll(t.a, t.kind, e.a)>>,
                                       <<"ValuesAreIndependent", ShowsAll(t.b, t.kind, e.b)>>}
        [] e.op = "arity" -> {<<"WrongArityRejected", e.rejected = (e.n # Arity[e.kind])>>}
        [] e.op = "equator" -> {<<"EquatorLandmarks", Close(e.got, OnEquator(e.q, e.h, e.per), 1)>>}
        [] e.op = "pole" -> {<<"PoleLandmarks", Close(e.got, AtPole(e.p, e.h, e.per), 1)>>}
        [] e.op = "turn" -> {<<"TurnsWithLongitude", Close(e.b, QuarterTurn(e.a), 1)>>}
        [] e.op = "mirror" -> {<<"MirrorsWithLatitude", Close(e.b, Mirror(e.a), 1)>>}
        [] e.op = "conv" -> {<<"WithinAMillimetreOfWGS84", e.err # NaN /\ e.err <= 1000>>,        \* micrometres
                             <<"BackToTheSameCoordinate", e.back # NaN /\ e.back <= e.tol>>,
                             <<"AnglesInRange", e.range>>, <<"InputUntouched", e.kept>>}
        [] e.op = "inv" -> {<<"GeocentricRoundTrip", e.err # NaN /\ e.err <= e.tol>>, <<"AnglesInRange", e.range>>, <<"InputUntouched", e.kept>>}
        [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
