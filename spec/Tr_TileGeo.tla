----------------------------- MODULE Tr_TileGeo -----------------------------
(* Tiles and where their metadata places them, recorded from the real code.   *)
(* image: a source of some kind; sec: size of a second of arc in its pixels   *)
(* (in 1/64 pixel).  tile: a tile of the current image; st; model: the tile   *)
(* has a sensor model; pts: <<x, y, u, v>>: the model of the tile places tile *)
(* coordinate x, y (in 1/2 pixels) at u, v of the source image (1/64 pixels); *)
(* fresh: its metadata is that of the same tile from a factory of its own.    *)
(* open: the last tile becomes the current image.                             *)
EXTENDS TileGeo, TraceRun
TrS0 == [kind |-> "", sec |-> 0, mx |-> Ident, my |-> Ident, lx |-> Ident, ly |-> Ident, corners |-> 0, tx |-> 0, ty |-> 0, ltx |-> 0, lty |-> 0]
Axis(m, w0, a, b) == Cut(m, w0, a, b)
\* tiles of these formats state only the corners of the image
Corners(s, e) == e.fmt = "NITF" /\ s.kind \in {"geo", "utm", "rot", "gcp", "geoN", "utmN", "igeolo"}
Precise(s, e) == \/ e.fmt = "GTiff" /\ s.kind \in {"geo", "utm", "rot", "gcp"} /\ s.corners = 0
                 \/ e.fmt = "NITF" /\ s.kind \in {"rpc", "rpcchip", "sicd", "sidd"}
Geolocated(s, e) == Corners(s, e) \/ Precise(s, e) \/ (e.fmt = "GTiff" /\ s.kind \in {"geo", "utm", "rot", "gcp", "geoN", "utmN", "igeolo"})
Max(a, b) == IF a > b THEN a ELSE b
\* rounded corners distort the perspective of long and narrow tiles
Aspect(w) == Max(w[3] \div w[4], w[4] \div w[3]) + 1
\* what one cut may add to the deviation (in 1/64 source pixels): rounding in precise metadata; a pixel of the larger image for
\* SIDD; a pixel and a second of arc for corners.  GeoTIFF tiles keep what their image has.
Tol(s, e, m) ==
    IF e.fmt = "GTiff" \/ s.kind \in {"sicd", "rpc", "rpcchip"} THEN 2
    ELSE IF s.kind = "sidd" THEN 2 + Max(64, PixelSize(m, 64))
    ELSE Max(64, PixelSize(m, 64)) + s.sec * (1 + Aspect(e.win))
TrApply(s, e) ==
    CASE e.op = "image" -> [TrS0 EXCEPT !.kind = e.kind, !.sec = e.sec]
      [] e.op = "tile" /\ e.st = "tile" ->
           LET x == Axis(s.mx, e.win[1], e.win[3], e.out[1])
               y == Axis(s.my, e.win[2], e.win[4], e.out[2])
           IN [s EXCEPT !.lx = x, !.ly = y, !.ltx = s.tx + Tol(s, e, x), !.lty = s.ty + Tol(s, e, y)]
      [] e.op = "open" -> [s EXCEPT !.mx = s.lx, !.my = s.ly, !.tx = s.ltx, !.ty = s.lty, !.corners = IF e.fmt = "NITF" THEN @ + 1 ELSE @]
      [] OTHER -> s
Resized(e) == e.out # <<e.win[3], e.win[4]>>
TrClauses(s, e) ==
    CASE e.op = "image" -> {<<"SourceIsGeolocated", e.st = "ok">>}
      [] e.op = "open" -> {<<"TileOpens", e.st = "ok">>}
      [] e.op = "tile" ->
           LET t == TrApply(s, e)
           IN (IF s.kind = "sicd" /\ e.fmt = "NITF" /\ Resized(e) THEN {} ELSE {<<"TileIsMade", e.st = "tile">>})
              \cup (IF e.st # "tile" THEN {} ELSE
               {<<"OnlyItsOwnWindow", e.fresh>>,
                <<"TileIsGeolocated", Geolocated(s, e) => e.model>>,
                <<IF Precise(s, e) THEN "PixelsKeepTheirPlace" ELSE "CornersKeepTheirPlace",
                  \A i \in 1..Len(e.pts) : /\ Near(<<At(t.lx, e.pts[i][1])[1] + (t.lx[3]), 2 * t.lx[2]>>, e.pts[i][3], 64, t.ltx)
                                           /\ Near(<<At(t.ly, e.pts[i][2])[1] + (t.ly[3]), 2 * t.ly[2]>>, e.pts[i][4], 64, t.lty)>>})
      [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
