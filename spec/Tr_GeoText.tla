----------------------------- MODULE Tr_GeoText -----------------------------
(* Events                                                                     *)
(*  dms     lat, lon (mas), text: the 15 characters as a sequence             *)
(*  parts   lat, lon, observed parts ld..os as integers, hemispheres          *)
(*  dec     field, value scaled, observed value scaled                        *)
(*  fmt     lat, lon, format as a sequence of characters, dec, observed text  *)
(*  srtm    lat, lon, prefix, version, ext, id ("" when none)                 *)
(*  generic lat, lon, fmt, limits in degrees, id ("" when none)               *)
EXTENDS GeoText, TraceRun

TrS0 == [n |-> 0]
TrApply(s, e) == [n |-> s.n + 1]

\* seconds shown for a magnitude: within one second, and exact for a whole number of seconds
SecondsOk(mas, t) == /\ Abs(t * MasPerSec - Abs(mas)) <= MasPerSec
                     /\ (mas % MasPerSec = 0) => t * MasPerSec = Abs(mas)

PartClauses(e) ==
    {<<"LatFieldsInRange", e.lm \in 0..59 /\ e.ls \in 0..59 /\ e.ld \in 0..90>>,
     <<"LonFieldsInRange", e.om \in 0..59 /\ e.os \in 0..59 /\ e.od \in 0..180>>,
     <<"LatPartsNameTheLatitude", SecondsOk(e.lat, e.ld * 3600 + e.lm * 60 + e.ls)>>,
     <<"LonPartsNameTheLongitude", SecondsOk(e.lon, e.od * 3600 + e.om * 60 + e.os)>>,
     <<"Hemispheres", e.lH = LatHemi(e.lat) /\ e.oH = LonHemi(e.lon) /\ e.lh = Lower(e.lH) /\ e.oh = Lower(e.oH)>>}

\* the seconds the code shows are within SecondsOk; the composed text must be the automaton's rendering of them
FmtClauses(e) ==
    LET a == Atoms(e.tl, LatHemi(e.lat), e.to, LonHemi(e.lon), e.dec)
    IN {<<"FormatLanguage", e.text = Render(e.fmt, a)>>,
        <<"FormatShowsTheCoordinate", SecondsOk(e.lat, e.tl) /\ SecondsOk(e.lon, e.to)>>}

SrtmClauses(e) ==
    LET las == {c \in {Cell(e.lat) - 1, Cell(e.lat)} : CellHolds(c, e.lat)}
        los == {c \in {Cell(e.lon) - 1, Cell(e.lon)} : CellHolds(c, e.lon)}
        allowed == {IF SrtmCovers(la) THEN SrtmName(e.prefix, e.version, e.ext, la, lo) ELSE "" : la \in las, lo \in los}
    IN {<<"SrtmTileContainsLocation", e.id \in allowed>>}

GenericClauses(e) ==
    LET las == {c \in {Cell(e.lat) - 1, Cell(e.lat)} : CellHolds(c, e.lat)}
        los == {c \in {Cell(e.lon) - 1, Cell(e.lon)} : CellHolds(c, e.lon)}
        in(la, lo) == la >= e.minlat /\ la <= e.maxlat /\ lo >= e.minlon /\ lo <= e.maxlon
        allowed == {IF in(la, lo) THEN GenericName(e.fmt, la, lo) ELSE "" : la \in las, lo \in los}
    IN {<<"GenericTileContainsLocation", e.id \in allowed>>}

TrClauses(s, e) ==
    IF e.st # "ok" THEN {<<"NoException", FALSE>>}
    ELSE CASE e.op = "parts" -> PartClauses(e)
           [] e.op = "fmt" -> FmtClauses(e)
           [] e.op = "dec" -> {<<"DecimalsNameTheCoordinate", Within(e.got, e.want, e.tol)>>}
           [] e.op = "srtm" -> SrtmClauses(e)
           [] e.op = "generic" -> GenericClauses(e)
           [] OTHER -> {<<"KnownEvent", FALSE>>}
=============================================================================
