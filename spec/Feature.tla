------------------------------- MODULE Feature ------------------------------
(* Where a feature keeps its image geometry.  Five properties, current forms  *)
(* first; a property is "absent", unusable ("bad": null, malformed, empty) or *)
(* holds a geometry number.  A bounding box property holds the box of it, the *)
(* geom_imcoords property its outer ring.                                     *)
EXTENDS Arith, FiniteSets
Current == <<"imageGeometry", "imageBBox">>
Deprecated == <<"geom_imcoords", "detection", "bounds_imcoords">>
AllProps == Current \o Deprecated
PropSet == {AllProps[i] : i \in 1..5}
Form(p) == CASE p \in {"imageBBox", "bounds_imcoords"} -> "box" [] p = "geom_imcoords" -> "ring" [] OTHER -> "full"
Usable(v) == v \notin {"absent", "bad", "nopixels"}
\* "nopixels" is a detection that is not an object holding pixel coordinates: it is never written to
RECURSIVE FirstUsable(_, _)
FirstUsable(md, props) == IF props = <<>> THEN <<"none", "none">>
                          ELSE IF Usable(md[Head(props)]) THEN <<Form(Head(props)), md[Head(props)]>>
                          ELSE FirstUsable(md, Tail(props))
Find(md, dep) == FirstUsable(md, IF dep THEN AllProps ELSE Current)
Get(md, p) == IF Usable(md[p]) THEN <<Form(p), md[p]>> ELSE <<"none", "none">>
SetProp(md, p, g) == [md EXCEPT ![p] = g]
Update(md, dep, g) == [p \in PropSet |->
    IF md[p] \in {"absent", "nopixels"} \/ (~dep /\ p \notin {Current[1], Current[2]}) THEN md[p] ELSE g]
=============================================================================
