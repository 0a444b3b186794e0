------------------------------ MODULE TileStore -----------------------------
(* What creating a tile may do to the world around it.  Requests of several   *)
(* workers, each with a factory and a source image of its own, proceed in     *)
(* steps: a temporary file is written, opened, read and removed.  Any step    *)
(* may fail.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
Stages == <<"start", "write", "open", "read", "clean">>
\* what is left to the caller when a stage fails: never a tile
Outcomes(failed) == IF failed THEN {"none", "exc"} ELSE {"tile", "none", "exc"}
\* files that belong to nobody at work
Residue(files, owner, busy) == {f \in files : owner[f] \notin busy}
=============================================================================
