------------------------------ MODULE Tr_Geoloc -----------------------------
(* "new": features fs over the ground model m with grid size n and elevation  *)
(* surface em.  "call": geolocate the features named in which; after[i] is    *)
(* what feature i then holds.  "point": one vertex located with a real sensor *)
(* model, its distance (1/64 pixel) from where the model says it is.          *)
EXTENDS Geoloc, TraceRun
TrS0 == [fs |-> <<>>, m |-> [none |-> TRUE], n |-> 11]
TrApply(s, e) == IF e.op = "new" THEN [fs |-> e.fs, m |-> e.m, n |-> e.n] ELSE s
Called(s, e) == {e.which[i] : i \in 1..Len(e.which)}
Sub(s, e) == [k \in Called(s, e) |-> s.fs[k]]
Near(seen, want, tol) == seen # NaN /\ Abs(seen - want) <= tol
CallClauses(s, e) ==
    LET fs == s.fs
        m == s.m
        C == Called(s, e)
        hx == Spacing(Extent(Sub(s, e), 1), s.n)
        hy == Spacing(Extent(Sub(s, e), 2), s.n)
        tlon == GridError(m.lon, hx, hy)
        tlat == GridError(m.lat, hx, hy)
        G == {k \in C : GetsGeometry(fs[k])}
        B == {k \in C : fs[k].bbox # <<>>}
        P == UNION {{<<k, j>> : j \in 1..Len(fs[k].v)} : k \in {i \in G : e.after[i].struct = fs[i].struct}}
        pt(k, j) == fs[k].v[j]
        got(k, j) == e.after[k].v[j]
        box(k) == LET cs == Corners(fs[k].bbox)
                      lo == {Poly16(m.lon, c[1], c[2]) : c \in cs}
                      la == {Poly16(m.lat, c[1], c[2]) : c \in cs}
                  IN <<MinOf(lo), MinOf(la), MaxOf(lo), MaxOf(la)>>
    IN {<<"SameTypeAndVertices", \A k \in G : e.after[k].struct = fs[k].struct>>,
        \* GeoJSON geometries are written with six decimals of a degree
        <<"VerticesAtTheirGroundLocation", \A p \in P : Near(got(p[1], p[2])[1], Poly16(m.lon, pt(p[1], p[2])[1], pt(p[1], p[2])[2]), tlon + 9)
                                                     /\ Near(got(p[1], p[2])[2], Poly16(m.lat, pt(p[1], p[2])[1], pt(p[1], p[2])[2]), tlat + 9)>>,
        <<"ElevationOfModelOrSurface", \A p \in P :
             LET el == got(p[1], p[2])[3] IN
             CASE m.em = "plane" -> Near(el, 16 * m.h0 + FloorDiv(got(p[1], p[2])[1], 64), 2)
               [] m.em = "partial" -> got(p[1], p[2])[1] > 64 => Near(el, 16 * m.h0 + FloorDiv(got(p[1], p[2])[1], 64), 2)
               [] OTHER -> Near(el, 16 * m.e[1] + 4 * m.e[2] * pt(p[1], p[2])[1], 2)>>,
        <<"BoundingBoxOfTheCorners", \A k \in B : /\ e.after[k].bbox # <<>>
                                                  /\ \A i \in {1, 3} : Near(e.after[k].bbox[i], box(k)[i], tlon + 2)
                                                  /\ \A i \in {2, 4} : Near(e.after[k].bbox[i], box(k)[i], tlat + 2)>>,
        <<"NothingInvented", \A k \in C : /\ (k \notin B => e.after[k].bbox = <<>>)
                                          /\ (k \notin G => e.after[k].keptgeom)>>,
        <<"CenterAtItsGroundLocation", (m.linear) => \A k \in G \cup B :
             /\ Len(e.after[k].center) = 2
             /\ Near(e.after[k].center[1], FloorDiv(m.lon[1] * fs[k].center[1] + m.lon[2] * fs[k].center[2], 4), tlon + m.slack)
             /\ Near(e.after[k].center[2], FloorDiv(m.lat[1] * fs[k].center[1] + m.lat[2] * fs[k].center[2], 4), tlat + m.slack)>>,
        <<"LongitudesInRange", \A k \in C : e.after[k].inrange>>,
        <<"PropertiesAndImageGeometryKept", \A k \in C : e.after[k].kept>>,
        <<"OtherFeaturesUntouched", \A k \in (1..Len(fs)) \ C : e.after[k].untouched>>}
TrClauses(s, e) ==
    CASE e.op = "new" -> {}
      [] e.op = "point" -> {<<"RealModelLocation", e.st = "ok" /\ e.err # NaN /\ e.err <= e.tol>>,
                            <<"RealElevation", e.st = "ok" => (e.dh # NaN /\ e.dh <= 1)>>}
      [] e.st # "ok" -> {<<"NeverRaises", FALSE>>}
      [] OTHER -> CallClauses(s, e)
=============================================================================
