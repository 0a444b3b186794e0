------------------------------ MODULE Tr_Tiles ------------------------------
(*  bounds  tile (z,row,col): where its edges are, as deviations from the edge stated by the specification,   *)
(*          in 1/1000000 of a tile; its identity and size                                                     *)
(*  join    deviation between an edge of a tile and that of its neighbour, child or parent                    *)
(*  locate  a location (whole tiles nx,ny and fractions fx,fy in 1/1000000 from the south west corner of the  *)
(*          map) and the tile answered, with the position of the location relative to the answer's own bounds *)
(*  area    limits answered for a list of locations and the tiles answered for each location                  *)
(*  set     what the factory answers for a name                                                               *)
EXTENDS Tiles, TraceRun
TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]
M == 1000000
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Rng(q) == {q[i] : i \in 1..Len(q)}
TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"AnswersEveryQuestion", FALSE>>}
    ELSE CASE e.op = "bounds" ->
                {<<"EdgesWhereTheGridPutsThem", \A i \in 1..4 : Within(e.dev[i], 0, e.tol)>>,
                 <<"TileIsTheOneAskedFor", e.rid = e.id>>,
                 <<"TileSize", e.size = <<e.want, e.want>>>>}
           [] e.op = "join" -> {<<"NoGapsOrOverlaps", \A i \in 1..Len(e.dev) : Within(e.dev[i], 0, e.tol)>>}
           [] e.op = "locate" ->
                {<<"LocationGoesToTheTileContainingIt",
                   MayAnswer(e.z, e.nx, e.fx, M, e.tol, e.col) /\ MayAnswer(e.z, e.ny, e.fy, M, e.tol, e.row)>>,
                 <<"ZoomAskedFor", e.rz = e.z>>,
                 <<"LocationWithinTheAnswersBounds", /\ e.rx # NaN /\ e.ry # NaN
                                                     /\ 0 - e.tol <= e.rx /\ e.rx <= M + e.tol
                                                     /\ 0 - e.tol <= e.ry /\ e.ry <= M + e.tol>>,
                 <<"InputUntouched", e.mine>>}
           [] e.op = "area" ->
                {<<"LimitsCoverExactlyTheTilesOfTheBoundary",
                   e.lim = <<MinOf(Rng(e.cols)), MinOf(Rng(e.rows)), MaxOf(Rng(e.cols)), MaxOf(Rng(e.rows))>>>>}
           [] e.op = "set" -> {<<"NamedSetsOnly", e.known = e.got /\ (e.known => e.name = e.rname)>>}
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
