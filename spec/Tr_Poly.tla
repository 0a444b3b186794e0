------------------------------- MODULE Tr_Poly ------------------------------
(*  rpc   coefficients, half-unit normalised ground point, scales, offsets    *)
(*  rsm   polynomials, integer normalised domain point, scales, offsets       *)
(*  sec2i ground point through a sectioned model (low order polynomials pick) *)
(*  sec2w image point to ground through a sectioned model                     *)
(*  height the elevation a model falls back to                                *)
EXTENDS Poly, TraceRun
TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]

RpcClauses(e) ==
    {<<"RpcColumn", RatioIs(e.col, e.k, Rpc8(e.sn, e.l2, e.p2, e.h2), Rpc8(e.sd, e.l2, e.p2, e.h2), e.sscale, e.soff)>>,
     <<"RpcRow", RatioIs(e.row, e.k, Rpc8(e.ln, e.l2, e.p2, e.h2), Rpc8(e.ld, e.l2, e.p2, e.h2), e.lscale, e.loff)>>}

SecRow(e, m) == RatioIs(e.row, e.k, RsmPoly(m.rn, e.x, e.y, e.z), RsmPoly(m.rd, e.x, e.y, e.z), m.rscale, m.roff)
SecCol(e, m) == RatioIs(e.col, e.k, RsmPoly(m.cn, e.x, e.y, e.z), RsmPoly(m.cd, e.x, e.y, e.z), m.cscale, m.coff)

\* normalised point (x,y,z); the low order polynomials see the domain coordinate (X,Y,Z) = off + scale * (x,y,z)
Sec2IClauses(e) ==
    LET r == SectionOf(RsmLow(e.lr, e.dx, e.dy, e.dz), e.minr, e.rsize, e.nr)
        c == SectionOf(RsmLow(e.lc, e.dx, e.dy, e.dz), e.minc, e.csize, e.nc)
        m == e.models[r + 1][c + 1]
    IN {<<"SectionChosenByCoarseLocation", SecRow(e, m) /\ SecCol(e, m)>>}

\* res[r][c]: distance (1/1000 pixel) between the image point and section (r,c)'s own projection of the returned ground point
Sec2WClauses(e) ==
    LET r == FloorDiv(e.ry - e.minr * e.u, e.rsize * e.u)
        c == FloorDiv(e.cx - e.minc * e.u, e.csize * e.u)
        rr == Clamp(r, 0, e.nr - 1)
        cc == Clamp(c, 0, e.nc - 1)
    IN {<<"SectionChosenByImageLocation", e.res[rr + 1][cc + 1] <= e.tol>>}

TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"NoException", FALSE>>}
    ELSE CASE e.op = "rpc" -> RpcClauses(e)
           [] e.op = "rsm" -> {<<"RsmRow", SecRow(e, e.m)>>, <<"RsmColumn", SecCol(e, e.m)>>}
           [] e.op = "sec2i" -> Sec2IClauses(e)
           [] e.op = "sec2w" -> Sec2WClauses(e)
           [] e.op = "height" -> {<<"DefaultElevation", Within(e.got, e.want, 1)>>}
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
