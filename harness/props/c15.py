"""C15: chip metadata rewriting."""
import hashlib
import xml.etree.ElementTree as ET

U = 60
VERS = {"SICD": ["sicd121", "sicd130"], "SIDD": ["sidd100", "sidd200", "sidd300"]}
SKIP = {"SICD": {("ImageData[1]", x + "[1]") for x in ("NumRows", "NumCols", "FirstRow", "FirstCol")}}


def local(t):
    return t.split("}")[-1]


def child(e, *path):
    for p in path:
        e = next((c for c in e if local(c.tag) == p), None) if e is not None else None
    return e


def ints(e, *names):
    return [int(float(child(e, n).text)) for n in names]


def observe(kind, text):
    """Extent or chip mapping stated by a document, read with a plain XML parser."""
    r = ET.fromstring(text)
    if kind == "SICD":
        return ints(child(r, "ImageData"), "FirstRow", "FirstCol", "NumRows", "NumCols"), []
    g = child(r, "DownstreamReprocessing", "GeometricChip")
    if g is None:
        return [], []
    cs = []
    for n in ("OriginalUpperLeftCoordinate", "OriginalUpperRightCoordinate", "OriginalLowerRightCoordinate", "OriginalLowerLeftCoordinate"):
        c = child(g, n)
        cs.append([int(round(float(child(c, k).text) * U)) for k in ("Col", "Row")])
    return [], ints(child(g, "ChipSize"), "Row", "Col") + [cs]


def sections(schema, kind, text):
    out = {}
    for path, v in schema.leaves(text):
        if kind == "SICD" and path in SKIP["SICD"]:
            continue
        if kind == "SIDD" and path[:1] == ("DownstreamReprocessing[1]",) and (len(path) == 1 or path[1].startswith("GeometricChip")):
            continue
        out.setdefault(path[0] if path else "root", []).append((path, v))
    return [[k, hashlib.sha1(repr(v).encode()).hexdigest()] for k, v in sorted(out.items())]


def set_chip(root, schema, chip):
    """Gives a SIDD document the given geometric chip (None removes it)."""
    ns = "{%s}" % schema.ns
    d = root.find(ns + "DownstreamReprocessing")
    if chip is None:
        if d is not None:
            for g in d.findall(ns + "GeometricChip"):
                d.remove(g)
        return
    g = d.find(ns + "GeometricChip")
    sz = g.find(ns + "ChipSize")
    child(sz, "Row").text, child(sz, "Col").text = str(chip[0]), str(chip[1])
    for n, c in zip(("OriginalUpperLeftCoordinate", "OriginalUpperRightCoordinate", "OriginalLowerRightCoordinate", "OriginalLowerLeftCoordinate"), chip[2]):
        e = g.find(ns + n)
        child(e, "Col").text, child(e, "Row").text = repr(c[0]), repr(c[1])


def document(rng, kind, k, size, schemas, cams):
    """A document of an image of the given size (rows, cols equal for chips)."""
    real = {"SICD": ["capella", "pfa", "rma"], "SIDD": ["sidd", "siddchip"]}[kind]
    if k % 4 == 0:
        which = real[(k // 4) % len(real)]
        name = "sicd121" if kind == "SICD" else "sidd200"
        text = cams.sar_xml(which)
        if (k // 4) % 2 and name == "sicd121":
            t130 = text.replace("urn:SICD:1.2.1", "urn:SICD:1.3.0")
            if not schemas["sicd130"].errors(t130):
                name, text = "sicd130", t130
        if which == "siddchip":
            root = ET.fromstring(text)
            set_chip(root, schemas[name], (size, size, [(512.0, 512.0), (512.0 + size - 1, 512.0), (512.0 + size - 1, 511.0 + size), (512.0, 511.0 + size)]))
            text = ET.tostring(root, encoding="unicode")
        return name, text
    name = VERS[kind][k % len(VERS[kind])]
    sch = schemas[name]
    chip = kind == "SIDD" and int(rng.integers(0, 2)) == 0
    force = {("DownstreamReprocessing",): 1, ("DownstreamReprocessing", "GeometricChip"): 1} if chip else {}
    if kind == "SIDD" and not chip and int(rng.integers(0, 2)):
        force = {("DownstreamReprocessing",): 1}
    root = sch.sample(rng, p=[0.15, 0.5, 0.85][int(rng.integers(0, 3))], force=force)
    if kind == "SIDD":
        g = None
        if chip:
            a = [float(v) for v in rng.integers(0, 4000, 2)]
            st = [1.0, 1.0, 2.0, 0.5][int(rng.integers(0, 4))]
            r = int(rng.integers(0, 3))
            ux, uy = ((st, 0.0), (0.0, st)) if r == 0 else ((0.0, st), (-st, 0.0)) if r == 1 else ((st * 0.75, st * 0.25), (-st * 0.25, st * 0.75))
            m = size - 1
            a[0] += 600
            g = (size, size, [(a[0] + i * m * ux[0] + j * m * uy[0], a[1] + i * m * ux[1] + j * m * uy[1]) for i, j in ((0, 0), (1, 0), (1, 1), (0, 1))])
            if int(rng.integers(0, 2)) == 0 and m > 0:      # corners of no parallelogram
                g = (size, size, [(x + int(rng.integers(-m // 5 - 2, m // 5 + 3)), y + int(rng.integers(-m // 5 - 2, m // 5 + 3)) + .5) for x, y in g[2]])
        set_chip(root, sch, g)
    return name, ET.tostring(root, encoding="unicode")


def drive(ctx, kind):
    import cams
    import xsd
    from xsdata.formats.dataclass.parsers import XmlParser
    from aws.osml.image_processing.sicd_updater import SICDUpdater
    from aws.osml.image_processing.sidd_updater import SIDDUpdater
    schemas = {n: xsd.Schema(n) for n in xsd.FILES}
    rng = ctx.rng(15 if kind == "SICD" else 16)
    parser, misread = XmlParser(), []
    beh = list(ctx.gen)
    rng.shuffle(beh)
    for k in range(ctx.n(80, 900)):
        b = beh[k % len(beh)]
        s = [1, 1, 20, int(rng.integers(2, 100))][int(rng.integers(0, 4))]
        size = b["n"] * s
        name, text = document(rng, kind, k, size, schemas, cams)
        sch = schemas[name]
        cls = SICDUpdater if kind == "SICD" else SIDDUpdater
        base = set(sch.errors(text))

        def look(up, source):
            try:
                y = up.encode_current_xml()
                ext, chip = observe(kind, y)
                errs = sorted(set(sch.errors(y)) - base)[:5]
                back = parser.from_string(y)
                again = cls(y).encode_current_xml()
                return y, {"st": "ok", "ext": ext, "chip": chip, "secs": sections(sch, kind, y), "errs": errs,
                           "back": back == (up.sicd if kind == "SICD" else up.sidd) and sch.leaves(again) == sch.leaves(y)}
            except Exception as e:
                return "", {"st": repr(e)[:200], "ext": [], "chip": [], "secs": [], "errs": [], "back": False}

        def opened(text):
            """Opens a document and records what it says."""
            ext, chip = observe(kind, text)
            try:
                up = cls(text)
                st = "ok"
                misread.append(sorted(set(sch.misread(text, up.sicd if kind == "SICD" else up.sidd)))[:5])
            except Exception as e:
                up, st = None, repr(e)[:200]
            y, o = look(up, text) if up else ("", {"st": st, "ext": [], "chip": [], "secs": [], "errs": [], "back": False})
            ctx.add("open", kind=kind, doc=name, misread=misread.pop() if misread else [], want={"ext": ext, "chip": chip, "secs": sections(sch, kind, text)}, **o)
            return up

        up, cur = opened(text), text
        for op, win, out in b["hist"]:
            if up is None:
                break
            if op == "reopen":
                cur = up.encode_current_xml()
                up = opened(cur)
                continue
            w = [v * s for v in win]
            o = [v * s for v in out] if out else ([] if int(rng.integers(0, 2)) else [w[2], w[3]])
            oo = tuple(o) if o else None
            try:
                up.update_image_data_for_chip(list(w), oo)
                ust = "ok"
            except ValueError:
                ust = "refused"
            except Exception as e:
                ust = repr(e)[:200]
            y, obs = look(up, cur)
            fresh = True
            if ust == "ok":
                try:
                    f = cls(cur)
                    f.update_image_data_for_chip(list(w), oo)
                    fresh = sch.leaves(f.encode_current_xml()) == sch.leaves(y)
                except Exception:
                    fresh = False
            ctx.add("cut", win=w, out=o, ust=ust, fresh=fresh, **obs)
    import copy
    o = [e for e in ctx.rec.events if e["op"] == "open" and e["st"] == "ok"][0]
    for f, v in (("secs", [[n, "0"] for n, _ in o["secs"]]), ("errs", ["/X: missing"]), ("back", False)):
        c = copy.deepcopy(o)
        c[f] = v
        ctx.corrupt.append(c)


def drive_sicd(ctx):
    drive(ctx, "SICD")


def drive_sidd(ctx):
    drive(ctx, "SIDD")


MODELS = [{"module": "MC_ChipMeta", "cfg": "MC_ChipMeta_%s.cfg" % k, "cfg_thorough": "MC_ChipMeta_%s_T.cfg" % k, "min_states": 50000} for k in ("SICD", "SIDD", "SIDDCHIP")]
EXP = ["Accepted", "EverythingElseKept", "ValidForItsStandard", "ReadsBackTheSame", "OpeningChangesNothing", "OnlyTheLastRequestCounts", "WorksAndIsReadable"]
PARTS = [{"name": k.lower(), "drive": d, "trace": "Tr_ChipMeta", "gen": {"module": "MC_ChipMeta", "cfg": "Gen_ChipMeta_%s.cfg" % k, "behaviours": True},
          "expect": EXP + x} for k, d, x in (("SICD", drive_sicd, ["ImageExtent", "RefusalChangesNothing"]), ("SIDD", drive_sidd, ["ChipMapping"]))]
ASSUMPTIONS = ["documents are the example documents of the repository and random documents sampled from the XML schemas of SICD 1.2.1, 1.3.0 and SIDD 1.0.0, "
               "2.0.0, 3.0.0 (constructs whose vocabulary is missing from the repository are not sampled)",
               "values are compared by their schema type (numbers by value), elements and attributes by qualified name and order",
               "chip corners are the centres of the corner pixels (SIDD volume 1, 5.1.1)"]
