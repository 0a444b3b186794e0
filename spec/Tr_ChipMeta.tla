----------------------------- MODULE Tr_ChipMeta ----------------------------
(* Histories recorded from the real metadata updaters.  open: the metadata as *)
(* written back right after opening (st, ext, chip, secs: digests of the      *)
(* sections without extent and chip mapping) against what the document says   *)
(* (want); misread: values that were not read as numbers, truth values or     *)
(* names of a list.  cut: the metadata as written after a request.            *)
EXTENDS ChipMeta, TraceRun
TrS0 == [kind |-> "", ext |-> <<>>, chip |-> <<>>, secs |-> <<>>, now |-> <<>>]
Now(e) == <<e.ext, e.chip>>
TrApply(s, e) == IF e.op = "open" THEN [kind |-> e.kind, ext |-> e.want.ext, chip |-> e.want.chip, secs |-> e.want.secs, now |-> <<e.want.ext, e.want.chip>>]
                 ELSE [s EXCEPT !.now = IF e.st = "ok" THEN Now(e) ELSE @]
Common(s, e) == {<<"WorksAndIsReadable", e.st = "ok">>,
                 <<"EverythingElseKept", e.st # "ok" \/ e.secs = (IF e.op = "open" THEN e.want.secs ELSE s.secs)>>,
                 <<"ValidForItsStandard", e.errs = <<>> >>,
                 <<"ReadsBackTheSame", e.st # "ok" \/ e.back>>}
Refuses(s, e) == s.kind = "SICD" /\ Scales(e.win, e.out)
TrClauses(s, e) ==
    CASE e.op = "open" -> Common(s, e) \cup {<<"OpeningChangesNothing", Now(e) = <<e.want.ext, e.want.chip>> >>,
                                             <<"ValuesReadAsTheStandardTypesThem", e.misread = <<>> >>}
      [] e.op = "cut" ->
           Common(s, e) \cup {<<"Accepted", e.ust = IF Refuses(s, e) THEN "refused" ELSE "ok">>}
           \cup (IF e.ust = "refused" THEN {<<"RefusalChangesNothing", Now(e) = s.now>>}
                 ELSE {<<"OnlyTheLastRequestCounts", e.fresh>>,
                       IF s.kind = "SICD" THEN <<"ImageExtent", e.ext = SicdCut(s.ext, e.win)>>
                       ELSE <<"ChipMapping", Agree(e.chip, SiddCut(s.chip, e.win, e.out), 2)>>})
      [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
