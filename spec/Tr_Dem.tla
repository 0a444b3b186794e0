------------------------------- MODULE Tr_Dem -------------------------------
(* Events                                                                     *)
(*  new      cap, store: a fresh elevation model over a store                 *)
(*  elev     tile, x8, y8, before, after (1/64 m), moved (lon/lat changed),   *)
(*           loads: tiles loaded by this call                                 *)
(*  summary  tile, present, lo, hi (1/64 m), nd (nodata), spacing error ppm   *)
(*  alive    tiles still held                                                 *)
EXTENDS Dem, TraceRun

TrS0 == [cap |-> 1, store |-> [t \in {} |-> Missing], order |-> <<>>]
Known(s, t) == t # "" /\ t \in DOMAIN s.store
TrApply(s, e) ==
    CASE e.op = "new" -> [cap |-> e.cap, store |-> e.store, order |-> <<>>]
      [] e.op \in {"elev", "summary"} ->
           IF Known(s, e.tile) THEN [s EXCEPT !.order = Touch(s.order, e.tile, s.cap)] ELSE s
      [] OTHER -> s

SummaryClauses(s, e) ==
    LET t == s.store[e.tile] IN
    IF IsMissing(t) THEN {<<"NoSummaryWithoutCoverage", ~e.present>>}
    ELSE {<<"SummaryPresent", e.present>>} \cup
         (IF ~e.present THEN {} ELSE
           {<<"SummaryBoundsEveryPost", \A p \in ValidPosts(t) : e.lo <= 64 * p /\ 64 * p <= e.hi>>,
            <<"SummaryIsTight", \E p, r \in ValidPosts(t) : e.lo = 64 * p /\ 64 * r = e.hi>>,
            <<"SummaryNoData", t.hasnd => e.nd = t.nodata>>,
            <<"SummaryPostSpacing", e.spacing <= 20000>>})

TrClauses(s, e) ==
    CASE e.op = "new" -> {<<"Started", e.cap >= 0>>}
      [] e.op = "elev" ->
           IF e.st # "ok" THEN {<<"NoException", FALSE>>}
           ELSE {<<"ElevationDependsOnlyOnLocation", e.after \in Answer(s.store, e.tile, e.x8, e.y8, e.before)>>,
                 <<"HorizontalPositionKept", ~e.moved>>}
                \cup (IF e.loads >= 0 /\ Known(s, e.tile) /\ InSeq(s.order, e.tile) /\ ~IsMissing(s.store[e.tile])
                      THEN {<<"RecentTileNotReloaded", e.loads = 0>>} ELSE {})
                \cup (IF Known(s, e.tile) /\ IsMissing(s.store[e.tile])
                      THEN {<<"UnchangedWithoutCoverage", e.after = e.before>>} ELSE {})
      [] e.op = "summary" -> IF e.st # "ok" THEN {<<"NoException", FALSE>>} ELSE SummaryClauses(s, e)
      [] e.op = "bigsummary" ->
           IF e.st # "ok" THEN {<<"NoException", FALSE>>}
           ELSE {<<"SummaryBoundsEveryPost", e.lo <= 64 * e.minpost /\ 64 * e.maxpost <= e.hi>>}
      [] e.op = "alive" -> {<<"CacheBounded", e.alive <= s.cap + 1>>}
      [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
