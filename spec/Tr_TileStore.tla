---------------------------- MODULE Tr_TileStore ----------------------------
(* Steps of tile requests recorded from the real factory.  step: worker w ran *)
(* to its next use of the raster library (one worker at a time unless free);  *)
(* started / ended: its request began / finished in this step; fault: what    *)
(* failed on the way; files: temporary files that exist now (numbered in the  *)
(* order they were first seen); outcome and same (the tile is what a factory  *)
(* of its own produces) of a finished request; want: the outcome of the same  *)
(* request made alone; handles: files the worker left open.                   *)
EXTENDS TileStore, TraceRun
Range(f) == {f[i] : i \in 1..Len(f)}
TrS0 == [owner |-> [n \in {} |-> 0], files |-> {}, busy |-> {}, failed |-> {}]
Own(s, e) == [n \in (DOMAIN s.owner) \cup Range(e.files) |-> IF n \in DOMAIN s.owner THEN s.owner[n] ELSE e.w]
TrApply(s, e) ==
    CASE e.op = "begin" -> TrS0
      [] e.op = "step" ->
           LET f == IF e.fault # "" THEN (IF e.started THEN s.failed \ {e.w} ELSE s.failed) \cup {e.w}
                    ELSE IF e.started THEN s.failed \ {e.w} ELSE s.failed
           IN [owner |-> Own(s, e), files |-> Range(e.files), failed |-> f,
               busy |-> IF e.ended THEN s.busy \ {e.w} ELSE s.busy \cup {e.w}]
      [] OTHER -> s
TrClauses(s, e) ==
    CASE e.op = "begin" -> {<<"FactoryIsMade", e.st = "ok">>}
      [] e.op = "step" ->
           LET t == TrApply(s, e)
               failed == e.w \in t.failed
           IN (IF e.free THEN {} ELSE
               {<<"FilesOfOthersUntouched", {n \in s.files : s.owner[n] # e.w} \subseteq t.files>>,
                <<"NoResidue", ~e.ended \/ Residue(t.files, t.owner, t.busy) = {}>>})
              \cup (IF ~e.ended THEN {} ELSE
               {<<"FailuresAreNotTiles", failed => e.outcome \in Outcomes(TRUE)>>,
                <<"SameOutcomeAsAlone", failed \/ e.outcome = e.want>>,
                <<"SameTileAsAlone", failed \/ e.outcome # "tile" \/ e.same>>,
                <<"FilesAreClosed", e.handles = 0>>})
      [] e.op = "quiet" -> {<<"NothingLeftInMemory", e.files = <<>> >>,
                            <<"NothingLeftOnDisk", e.disk = <<>> >>,
                            <<"SourceFilesUnchanged", e.srcfiles>>,
                            <<"SourceMetadataUnchanged", e.srcmeta>>,
                            <<"SourcePixelsUnchanged", e.srcpixels>>}
      [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
