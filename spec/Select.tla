------------------------------- MODULE Select -------------------------------
(* Which sensor model an image gets.  Each source of geolocation metadata is  *)
(* absent, good or bad; the caller allows a set of model types.               *)
EXTENDS Arith, FiniteSets

Sources == {"GT", "GCP", "CSCRNA", "RPC", "RSM", "SICD", "SIDD", "ICHIPB"}
Types == {"AFFINE", "PROJECTIVE", "RPC", "RSM", "SICD"}
TypeOf == [GT |-> "AFFINE", GCP |-> "PROJECTIVE", CSCRNA |-> "PROJECTIVE", RPC |-> "RPC", RSM |-> "RSM", SICD |-> "SICD", SIDD |-> "SICD"]
PreciseOrder == <<"SIDD", "SICD", "RSM", "RPC">>      \* best first
ApproxOrder == <<"CSCRNA", "GCP", "GT">>
\* models described by TREs refer to the full image: a chip of it is mapped
FullImage == {"RPC", "RSM", "CSCRNA"}

Usable(md, sel, s) == md[s] = "good" /\ TypeOf[s] \in sel
First(md, sel, order) ==
    LET u == {i \in 1..Len(order) : Usable(md, sel, order[i])}
    IN IF u = {} THEN "none" ELSE order[CHOOSE i \in u : \A j \in u : i <= j]
Wrap(md, s) == IF s \in FullImage /\ md["ICHIPB"] = "good" THEN s \o "+chip" ELSE s
Precise(md, sel) == Wrap(md, First(md, sel, PreciseOrder))
Approx(md, sel) == Wrap(md, First(md, sel, ApproxOrder))
\* what the returned model answers with, and what it starts from
Best(md, sel) ==
    LET p == Precise(md, sel)  a == Approx(md, sel)
    IN [answer |-> IF p # "none" THEN p ELSE a, start |-> IF p # "none" THEN a ELSE "none"]

\* Ways a source can be damaged, and what is left of it.
Effect(s, d) ==
    IF d \in {"whole", "padded", "extra", "no-reference-point", "shuffled", "integers", "mentions-other", "beside-notes"} THEN "good" ELSE "bad"
TreDamage == {"missing-field", "blank-field", "text-field", "no-value"}
RepDamage == {"no-repeated", "no-number", "text-number", "no-index", "text-index", "index-beyond", "empty-group", "no-group-value", "missing-group", "text-coefficient"}
XmlDamage == {"truncated", "empty", "no-measurement", "other-root", "bad-base64", "not-utf8", "no-desdata", "broken-des", "text-number", "mentions-other", "beside-notes", "whole"}
Damages == [
    RPC |-> TreDamage \cup RepDamage \cup {"fewer-coefficients", "more-coefficients", "success-0", "whole", "extra", "padded", "shuffled"},
    RSM |-> TreDamage \cup RepDamage \cup {"no-polynomials", "no-section-index", "section-missing", "unknown-form", "no-rectangle",
              "order-mismatch", "no-vertex", "whole", "extra", "no-reference-point", "shuffled"},
    CSCRNA |-> TreDamage \cup {"whole", "extra", "padded"},
    ICHIPB |-> TreDamage \cup {"no-width", "text-width", "whole", "extra"},
    SICD |-> (XmlDamage \cup {"unknown-algorithm", "unknown-grid", "no-projection"}),
    SIDD |-> XmlDamage,
    GT |-> {"singular", "bad-crs", "whole", "integers"},
    GCP |-> {"three", "empty", "whole"}]
=============================================================================
