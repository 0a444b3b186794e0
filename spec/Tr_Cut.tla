------------------------------- MODULE Tr_Cut -------------------------------
(* Tiles recorded from the real tile factory.  image: a new image and factory *)
(* (g: pattern, nb, type, fmt, lossless, ra: range adjustment, conv: pixel    *)
(* type conversion requested, nd: no-data index or -1, blank: indices of the  *)
(* values pixels outside of the image may have).  tile: st ("tile", "none",   *)
(* "exc"), size, nb, type, nodata ("same", "none", "other"); px: palette      *)
(* indices of its pixels by band, row by row; with a conversion, the pixel    *)
(* values as ranks among all values of the tiles of this factory (out).       *)
(* ramp: a resized tile of an image whose pixels tell their column and row.   *)
EXTENDS Cut, TraceRun
(* open: the tile just made is opened as the next image; o: where the current *)
(* image starts in the first one, known: the part of the first one it shows.  *)
Range(f) == {f[i] : i \in 1..Len(f)}
TrS0 == [g |-> [m |-> 1], lut |-> <<>>, o |-> <<0, 0>>, known |-> <<0, 0, 0, 0>>]
Source(s, b, x, y) == Pix(s.g, b, x + s.o[1], y + s.o[2])
TrApply(s, e) ==
    CASE e.op = "image" -> [g |-> e, lut |-> [b \in 1..e.nb |-> {}], o |-> <<0, 0>>, known |-> <<0, 0, e.w, e.h>>]
      [] e.op = "open" -> [s EXCEPT !.g.w = e.win[3], !.g.h = e.win[4], !.o = <<@[1] + e.win[1], @[2] + e.win[2]>>,
                                    !.known = Meet(@, <<s.o[1] + e.win[1], s.o[2] + e.win[2], e.win[3], e.win[4]>>)]
      [] e.op = "adjusted" /\ e.st = "tile" /\ e.nb = Len(s.lut) /\ Len(e.out) = Len(s.lut) ->
           [s EXCEPT !.lut = [b \in 1..Len(s.lut) |-> s.lut[b] \cup
               {<<Source(s, b - 1, e.win[1] + ((i - 1) % e.win[3]), e.win[2] + ((i - 1) \div e.win[3])), e.out[b][i]>> : i \in 1..Len(e.out[b])}]]
      [] OTHER -> s
Must(s, e) == Inside(s.g, e.win) /\ Holds(s.g.fmt, s.g.otype, s.g.nb)
Shape(s, e) == {<<"RequestedSize", e.st # "tile" \/ e.size = OutSize(e.win, e.out_size)>>,
                <<"SameBands", e.st # "tile" \/ e.nb = s.g.nb>>,
                <<"SameType", e.st # "tile" \/ ~Holds(s.g.fmt, s.g.otype, s.g.nb) \/ e.type = s.g.otype>>,
                <<"EncodedAsRequested", e.st # "tile" \/ e.enc \in Encodings(s.g.fmt, s.g.comp, s.g.otype)>>,
                <<"WindowsInsideYieldTiles", Must(s, e) => e.st = "tile">>,
                <<"EmptyWindowsYieldNothing", (e.win[3] <= 0 \/ e.win[4] <= 0) => e.st # "tile">>}
Known(s, x, y) == LET u == x + s.o[1] - s.known[1]
                      v == y + s.o[2] - s.known[2]
                  IN u >= 0 /\ v >= 0 /\ u < s.known[3] /\ v < s.known[4]
PixelOk(s, b, x, y, v) == IF Known(s, x, y) THEN v = Source(s, b, x, y) ELSE v \in Range(s.g.blank)
Functional(f) == \A p, r \in f : p[1] = r[1] => p[2] = r[2]
Rising(f) == \A p, r \in f : p[1] < r[1] => p[2] <= r[2]
TrClauses(s, e) ==
    CASE e.op \in {"image", "open"} -> {<<"WorksOnTheImage", e.st = "ok">>}
      [] e.op = "tile" ->
           Shape(s, e) \cup
           (IF e.st # "tile" \/ ~Holds(s.g.fmt, s.g.otype, s.g.nb) \/ ~s.g.lossless \/ e.nb # s.g.nb \/ e.size # OutSize(e.win, e.out_size) THEN {}
            ELSE {<<IF Inside(s.g, e.win) THEN "PixelsOfTheWindow" ELSE "NothingFromElsewhere",
                    \A b \in 1..e.nb : \A i \in 1..Len(e.px[b]) :
                        PixelOk(s, b - 1, e.win[1] + ((i - 1) % e.win[3]), e.win[2] + ((i - 1) \div e.win[3]), e.px[b][i])>>,
                  <<"NoDataKept", s.g.fmt # "GTiff" \/ e.nodata = "same">>,
                  <<"NoOtherNoData", e.nodata \in {"same", "none"}>>})
      [] e.op = "adjusted" ->
           Shape(s, e) \cup
           (IF e.st # "tile" \/ e.nb # s.g.nb THEN {}
            ELSE LET t == TrApply(s, e) IN
                 {<<"OneMappingForAllTiles", \A b \in 1..e.nb : Functional(t.lut[b])>>,
                  <<"PixelsAreNumbers", \A b \in 1..e.nb : \A p \in t.lut[b] : p[2] # -5>>,
                  <<"MonotoneMapping", \A b \in 1..e.nb : Rising(t.lut[b])>>,
                  <<"MappingUsesTheOutputRange", s.g.ra # "MINMAX" \/ ~e.whole \/ (\A b \in 1..e.nb : e.span[b] = <<TRUE, TRUE>>)>>,
                  <<"MappingKeepsContrast", s.g.ra = "NONE" \/ ~e.whole \/ s.g.m < 2 \/ (\A b \in 1..e.nb : Cardinality({p[2] : p \in t.lut[b]}) >= 2)>>})
      [] e.op = "lossy" ->
           Shape(s, e) \cup {<<"LossyPixelsAreClose", e.st # "tile" \/ e.worst <= 4>>}
      [] e.op = "ramp" ->
           Shape(s, e) \cup
           (IF e.st # "tile" \/ e.size # OutSize(e.win, e.out_size) THEN {}
            ELSE IF ~Inside(s.g, e.win) THEN
                 {<<"NothingFromElsewhere", LET r == Meet(<<0, 0, s.g.w, s.g.h>>, e.win) IN
                    \A i \in 1..Len(e.xs) : /\ e.xs[i] = -1 \/ (e.xs[i] >= r[1] - s.g.ov /\ e.xs[i] < r[1] + r[3] + s.g.ov)
                                            /\ e.ys[i] = -1 \/ (e.ys[i] >= r[2] - s.g.ov /\ e.ys[i] < r[2] + r[4] + s.g.ov)>>}
            ELSE {<<"ResampledWindow", \A i \in 1..Len(e.xs) :
                     /\ Resampled(e.xs[i], (i - 1) % e.size[1], e.size[1], e.win[1], e.win[3], s.g.ov)
                     /\ Resampled(e.ys[i], (i - 1) \div e.size[1], e.size[2], e.win[2], e.win[4], s.g.ov)>>})
      [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
