"""C07: every image gets the best sensor model its metadata supports."""
import base64
import copy
import math
import re
import xml.etree.ElementTree as ET

import cams
import tre
from vlib import MachineryError

W, H = 400, 300
# chip = (full - offset) / 2
OFF = (100.0, 60.0)
FW, FH = 2 * W + 300, 2 * H + 200
# every TRE and every raster source sees its own place
PLACE = {"GT": (10.0, 10.0), "GCP": (20.0, 12.0), "CSCRNA": (30.0, -15.0), "RPC": (-40.0, 20.0), "RSM": (55.0, -25.0)}
S = 1e-4     # degrees a pixel


def pixel_of(src, lon, lat):
    """Where the source's camera sees lon/lat (degrees), in the pixels it refers to."""
    lo, la = PLACE[src]
    return (lon - lo) / S, (la - lat) / S


def rpc_root(root):
    lo, la = PLACE["RPC"]
    w, h = FW, FH
    sn, ln, den = [0.0] * 20, [0.0] * 20, [1.0] + [0.0] * 19
    sn[1], ln[2] = 1.0, -1.0
    return tre.rpc00b(root, {"LINE_OFF": h / 2, "SAMP_OFF": w / 2, "LAT_OFF": la - S * h / 2, "LONG_OFF": lo + S * w / 2,
                             "HEIGHT_OFF": 0, "LINE_SCALE": h / 2, "SAMP_SCALE": w / 2, "LAT_SCALE": S * h / 2,
                             "LONG_SCALE": S * w / 2, "HEIGHT_SCALE": 500, "LINE_NUM_COEFF": ln, "LINE_DEN_COEFF": list(den),
                             "SAMP_NUM_COEFF": sn, "SAMP_DEN_COEFF": list(den)})


def rsm_root(root, sections=1, form="G"):
    lo, la = PLACE["RSM"]
    w, h = FW, FH
    r = math.radians
    ox, oy, sx, sy = r(lo + S * w / 2), r(la - S * h / 2), r(S * w / 2), r(S * h / 2)
    ida = {"GRNDD": form, "MINR": 0, "MAXR": h - 1, "MINC": 0, "MAXC": w - 1, "grp": [ox, oy, 0.0],
           "vertices": [[ox + 1.1 * a * sx, oy + 1.1 * b * sy, 500.0 * c] for c in (-1, 1) for b in (-1, 1) for a in (-1, 1)]}
    if form == "R":
        ida["rect"] = ([0.0, 0.0, 0.0], [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    tre.rsmida(root, ida)
    for n in range(sections):
        tre.rsmpca(root, {"RSN": n + 1, "CSN": 1, "RNRMO": h / 2, "CNRMO": w / 2, "XNRMO": ox, "YNRMO": oy, "ZNRMO": 0.0,
                          "RNRMSF": h / 2, "CNRMSF": w / 2, "XNRMSF": sx, "YNRMSF": sy, "ZNRMSF": 500.0,
                          "RN": [1, 1, 1, [0.0, 0, -1, 0, 0, 0, 0, 0]], "RD": [1, 1, 1, [1.0, 0, 0, 0, 0, 0, 0, 0]],
                          "CN": [1, 1, 1, [0.0, 1, 0, 0, 0, 0, 0, 0]], "CD": [1, 1, 1, [1.0, 0, 0, 0, 0, 0, 0, 0]]})
    if sections > 1:
        tre.rsmpia(root, {"R": [h / 2 + oy * h / 2 / sy, 0, -h / 2 / sy, 0] + [0.0] * 6,
                          "C": [w / 2 - ox * w / 2 / sx, w / 2 / sx, 0, 0] + [0.0] * 6,
                          "RNIS": sections, "CNIS": 1, "RSSIZ": h / sections, "CSSIZ": float(w)})


def cscrna_root(root, chipped):
    lo, la = PLACE["CSCRNA"]
    w, h = (FW, FH) if chipped else (W, H)
    c = [(lo, la, 0.0), (lo + S * w, la, 0.0), (lo + S * w, la - S * h, 0.0), (lo, la - S * h, 0.0)]
    tre.cscrna(root, *c)


def ichipb_root(root):
    op = [(0.0, 0.0), (W, 0.0), (0.0, H), (W, H)]
    tre.ichipb(root, op, [(OFF[0] + 2 * x, OFF[1] + 2 * y) for x, y in op], FW, FH)


def gcps(n=4):
    from osgeo import gdal
    lo, la = PLACE["GCP"]
    return [gdal.GCP(lo + S * x, la - S * y, 0, x, y) for x, y in ((0, 0), (W, 0), (W, H), (0, H))][:n]


TRE_OF = {"RPC": ("RPC00B",), "RSM": ("RSMIDA", "RSMPCA"), "CSCRNA": ("CSCRNA",), "ICHIPB": ("ICHIPB",)}
# fields whose loss makes the source unusable
NEEDED = {"RPC00B": lambda n: True, "CSCRNA": lambda n: n != "PREDICT_CORNERS", "ICHIPB": lambda n: True,
          "RSMIDA": lambda n: not n.startswith("GRP"), "RSMPCA": lambda n: not n.endswith("TRMS")}


def damage_tre(root, src, d, pick, sections=1):
    """Damage the TREs of one source inside root.  pick chooses among equals."""
    ts = [t for t in root if t.get("name") in TRE_OF[src]]
    fs = [(t, f) for t in ts for f in t.findall("field") if NEEDED[t.get("name")](f.get("name"))]
    rs = [(t, r) for t in ts for r in t.findall("repeated")]
    if d == "whole":
        return
    if d in ("missing-field", "blank-field", "text-field", "no-value"):
        t, f = pick(fs)
        if d == "missing-field":
            t.remove(f)
        elif d == "no-value":
            del f.attrib["value"]
        else:
            f.set("value", "   " if d == "blank-field" else "n/a")
        return
    if d == "extra":
        for t in ts:
            ET.SubElement(t, "field", name="ZZ_UNKNOWN", value="?")
        return
    if d == "padded":
        for t in ts:
            for f in t.iter("field"):
                f.set("value", "  %s " % f.get("value"))
        return
    if d == "shuffled":
        for _, r in rs:
            r[:] = list(reversed(list(r)))
        return
    if d in ("no-width", "text-width"):
        t, f = pick([x for x in fs if x[1].get("name") in ("FI_ROW", "FI_COL")])
        t.remove(f) if d == "no-width" else f.set("value", "wide")
        return
    if d == "success-0":
        ts[0].find("field[@name='SUCCESS']").set("value", "0")
        return
    if src == "RSM":
        ida = [t for t in ts if t.get("name") == "RSMIDA"][0]
        pcs = [t for t in ts if t.get("name") == "RSMPCA"]
        if d == "no-polynomials":
            for t in pcs:
                root.remove(t)
            return
        if d == "no-section-index":
            root.remove(root.find("tre[@name='RSMPIA']"))
            return
        if d == "section-missing":
            pcs[-1].find("field[@name='RSN']").set("value", "7")
            return
        if d == "unknown-form":
            ida.find("field[@name='GRNDD']").set("value", "Q")
            return
        if d == "no-rectangle":
            f = pick([f for f in ida if re.match("[XYZ]U(OR|[XYZ]R)", f.get("name"))])
            ida.remove(f)
            return
        if d == "no-reference-point":
            for k in "XYZ":
                f = ida.find("field[@name='GRP%s']" % k)
                ida.remove(f) if pick([0, 1]) else f.set("value", "     ")
            return
        if d == "order-mismatch":
            t = pick(pcs)
            t.find("field[@name='%sPWR%s']" % (pick(["RN", "RD", "CN", "CD"]), pick(list("XYZ")))).set("value", "2")
            return
        if d == "no-vertex":
            for k in "XYZ":
                ida.remove(ida.find("field[@name='V5%s']" % k))
            return
    t, r = pick(rs)
    if d == "no-repeated":
        t.remove(r)
    elif d == "no-number":
        del r.attrib["number"]
    elif d == "text-number":
        r.set("number", "twenty")
    elif d == "no-index":
        del pick(list(r)).attrib["index"]
    elif d == "text-index":
        pick(list(r)).set("index", "first")
    elif d == "index-beyond":
        pick(list(r)).set("index", str(len(r)))
    elif d == "empty-group":
        g = pick(list(r))
        g[:] = []
    elif d == "no-group-value":
        del pick(list(r))[0].attrib["value"]
    elif d == "missing-group":
        r.remove(pick(list(r)))
    elif d == "text-coefficient":
        pick(list(r))[0].set("value", "NOT+A.NUMBER")
    elif d == "fewer-coefficients":
        r[:] = list(r)[:-1]
        r.set("number", str(len(r)))
    elif d == "more-coefficients":
        g = copy.deepcopy(r[0])
        g.set("index", str(len(r)))
        r.append(g)
        r.set("number", str(len(r)))
    else:
        raise MachineryError("unknown damage %s" % d)


def b64(b):
    return base64.b64encode(b).decode()


def des(data):
    return '<des name="XML_DATA_CONTENT"><field name="DESVER" value="01"/>%s</des>' % (
        "" if data is None else '<field name="DESDATA" value="%s"/>' % data)


def des_list(*segs):
    return '<?xml version="1.0"?><des_list>%s</des_list>' % "".join(segs)


SAR = {}
GOOD = {"whole", "padded", "extra", "no-reference-point", "shuffled", "integers", "mentions-other", "beside-notes"}


def sar_doc(src):
    """The document, a location on the ground and its pixel."""
    if src not in SAR:
        k = {"SICD": "capella", "SIDD": "sidd"}[src]
        x = cams.sar_xml(k)
        import sar as oracle
        s = oracle.Sar(x)
        lo, la, h = oracle.geodetic(s.scp)
        SAR[src] = (x, (lo, la, h), (s.scp_rc[1] - s.first[1], s.scp_rc[0] - s.first[0]))
    return SAR[src]


def damage_xml(x, src, d, pick):
    """One <des_list> string per damage."""
    other = "Measurement" if src == "SIDD" else "Grid"
    if d == "whole":
        return des_list(des(b64(x.encode())))
    oth = "SIDD" if src == "SICD" else "SICD"
    if d == "mentions-other":
        y = re.sub(r"(<(?:\w+:)?%s\b)" % src, r"<!-- made from <%s> -->\1" % oth, x, count=1) if pick([0, 1]) else \
            re.sub(r"(<(CoreName|Application)>)", r"\1%s " % oth, x, count=1)
        if y == x:
            raise MachineryError("nothing mentioned")
        return des_list(des(b64(y.encode())))
    if d == "beside-notes":
        note = "<Notes>about the %s and the %s of this image</Notes>" % (src, oth)
        return des_list(des(b64(note.encode())), des(None), des(b64(x.encode())))
    if d == "truncated":
        return des_list(des(b64(x[: int(len(x) * pick([0.3, 0.6, 0.95]))].encode())))
    if d == "empty":
        return des_list(des(""))
    if d == "no-desdata":
        return des_list(des(None))
    if d == "bad-base64":
        return des_list(des("@@@not base64===="[: pick([13, 16])]))
    if d == "not-utf8":
        return des_list(des(b64(b"\xff\xfe\x00<" + bytes([200, 201, 202]) * 9)))
    if d == "broken-des":
        s = des_list(des(b64(x.encode())))
        return s[: len(s) - pick([12, 30, 400])]
    if d == "no-measurement":
        y, n = re.subn(r"<(\w+:)?%s\b.*?</(\w+:)?%s>" % (other, other), "", x, flags=re.S)
        if not n:
            raise MachineryError("nothing removed")
        return des_list(des(b64(y.encode())))
    if d == "other-root":
        root = {"SICD": "SICD", "SIDD": "SIDD"}[src]
        y = re.sub(r"<(/?)(\w+:)?%s\b" % root, r"<\1\2Unrelated", x)
        return des_list(des(b64(y.encode())))
    if d == "text-number":
        y, n = re.subn(r"<(\w+:)?Row>[-0-9.eE+]+</", r"<\1Row>many</", x)
        if not n:
            raise MachineryError("nothing replaced")
        return des_list(des(b64(y.encode())))
    if d == "unknown-algorithm":
        y = re.sub(r"<ImageFormAlgo>\w+<", "<ImageFormAlgo>OTHER<", cams.sar_xml("pfa"))
        return des_list(des(b64(y.encode())))
    if d == "unknown-grid":
        y, n = re.subn(r"(<Grid>.*?<Type>)\w+<", r"\1HEXAGONAL<", x, flags=re.S)
        if not n:
            raise MachineryError("nothing replaced")
        return des_list(des(b64(y.encode())))
    if d == "no-projection":
        y, n = re.subn(r"<PFA>.*?</PFA>", "", cams.sar_xml("pfa"), flags=re.S)
        return des_list(des(b64(y.encode())))
    raise MachineryError("unknown damage %s" % d)


def assemble(md, damage, rng, opts):
    """md: source -> absent/good/bad; damage: source -> kind for bad ones.  Factory arguments."""
    def pick(a):
        return a[int(rng.integers(0, len(a)))]
    kw = {}
    if md["GT"] != "absent":
        lo, la = PLACE["GT"]
        gt, d = [lo, S, 0.0, la, 0.0, -S], damage.get("GT", "whole")
        if d == "singular":
            gt = pick([[lo, 0.0, 0.0, la, 0.0, 0.0], [lo, S, S, la, S, S], [0.0] * 6, [lo, 0.0, 0.0, la, 0.0, -S]])
        if d == "integers":
            gt = [10, 1, 0, 10, 0, -1]
        kw["geo_transform"] = pick([gt, tuple(gt)])
        kw["proj_wkt"] = pick(["not a coordinate system", 'PROJCS["broken"', "LOCAL_CS[\"x\"]"]) if d == "bad-crs" else pick([None, cams.wkt(4326)])
    if md["GCP"] != "absent":
        d = damage.get("GCP", "whole")
        kw["ground_control_points"] = {"three": lambda: gcps(3), "empty": list, "whole": gcps}[d]()
    if any(md[s] != "absent" for s in ("CSCRNA", "RPC", "RSM", "ICHIPB")) or opts.get("tres"):
        root = tre.root()
        order = [s for s in ("ICHIPB", "RPC", "RSM", "CSCRNA") if md[s] != "absent"]
        order = [order[i] for i in rng.permutation(len(order))]
        for s in order:
            d = damage.get(s, "whole")
            if s == "RPC":
                rpc_root(root)
            elif s == "RSM":
                rsm_root(root, 2 if d in ("no-section-index", "section-missing") or (d in ("whole", "shuffled") and pick([0, 1])) else 1,
                         "R" if d == "no-rectangle" else "G")
            elif s == "CSCRNA":
                cscrna_root(root, opts["chipped"])
            else:
                ichipb_root(root)
            damage_tre(root, s, d, pick)
        if pick([0, 1]):
            t = ET.SubElement(root, "tre", name="BLOCKA")
            ET.SubElement(t, "field", name="BLOCK_INSTANCE", value="01")
        kw["xml_tres"] = root
    lists = []
    for s in ("SIDD", "SICD"):
        if md[s] != "absent":
            lists.append(damage_xml(sar_doc(s)[0], s, damage.get(s, "whole"), pick))
    if lists:
        if pick([0, 1]):
            lists.insert(0, des_list('<des name="CSATTA"><field name="DESVER" value="01"/></des>'))
        if len(lists) > 1 and pick([0, 1]) and not any(d == "broken-des" for d in damage.values()):
            lists = ["<des_list>%s</des_list>" % "".join(re.search(r"<des_list>(.*)</des_list>", x, re.S)[1] for x in lists)]
        kw["xml_dess"] = lists
    return kw


def see(m, g):
    try:
        p = m.world_to_image(g)
        return float(p.x), float(p.y)
    except Exception:
        return None


def identify(m, ints=False):
    """The source a model comes from: the one whose own ground points it sees where that source says."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    if m is None:
        return "none"
    hits = []
    for src in PLACE:
        for chip in (False, True):
            ok = True
            for px, py in ((120.0, 90.0), (250.0, 200.0)):
                s = 1.0 if src == "GT" and ints else S
                lo, la = PLACE[src]
                g = GeodeticWorldCoordinate([math.radians(lo + s * px), math.radians(la - s * py), 0.0])
                p = see(m, g)
                wx, wy = ((px - OFF[0]) / 2, (py - OFF[1]) / 2) if chip else (px, py)
                ok = ok and p is not None and math.hypot(p[0] - wx, p[1] - wy) < 0.5
            if ok:
                hits.append(src + ("+chip" if chip else ""))
    for src in ("SICD", "SIDD"):
        x, g, n = sar_doc(src)
        p = see(m, GeodeticWorldCoordinate(list(g)))
        if p is not None and math.hypot(p[0] - n[0], p[1] - n[1]) < 0.5:
            hits.append(src)
    return hits[0] if len(hits) == 1 else ("unknown" if not hits else "several " + ",".join(hits))


def outcome(md, damage, sel, rng, ints=False, chipped=None):
    from aws.osml.gdal import SensorModelFactory, SensorModelTypes
    if chipped is None:
        chipped = md["ICHIPB"] == "good"
    kw = assemble(md, damage, rng, {"chipped": chipped})
    if set(sel) != {t.name for t in SensorModelTypes} or rng.random() < 0.5:
        kw["selected_sensor_model_types"] = [SensorModelTypes[t] for t in sel]
    f = SensorModelFactory(W, H, **kw)
    m = f.build()
    ap = getattr(m, "approximate_sensor_model", None)
    pr = getattr(m, "precision_sensor_model", None)
    start = "none"
    if pr is not None and ap is None:
        start = "unseen"
    if ap is not None:
        start = identify(ap, ints)
    return identify(m, ints), start



def drive_choose(ctx):
    """TLC's combinations of sources and allowed types."""
    cases = [b for b in ctx.gen if "md" in b]
    dam = next(b for b in ctx.gen if "damages" in b)["damages"]
    rng = ctx.rng(700)
    n = ctx.n(2500, 20000)
    if len(cases) > n:
        full = [c for c in cases if len(c["sel"]) == 5]
        rest = [c for c in cases if len(c["sel"]) != 5]
        k = max(0, n - len(full))
        rest = [rest[i] for i in rng.permutation(len(rest))[:k]]
        full = [full[i] for i in rng.permutation(len(full))[:n]]
        cases = full + rest
    for c in cases:
        md = c["md"]
        d = {}
        for s, v in md.items():
            if v == "bad":
                ks = [k for k in dam[s] if k not in GOOD]
                d[s] = ks[int(rng.integers(0, len(ks)))]
        tag = dict(md=md, sel=c["sel"], how=d)
        try:
            a, b = outcome(md, d, c["sel"], rng)
            ctx.add("built", st="ok", answer=a, start=b, **tag)
        except MachineryError:
            raise
        except Exception as e:
            ctx.add("built", st="exc", err="%s: %s" % (type(e).__name__, str(e)[:200]), **tag)


def drive_damage(ctx):
    """Every kind of damage to every source, alone and beside other good sources."""
    dam = next(b for b in ctx.gen if "damages" in b)["damages"]
    allt = ["AFFINE", "PROJECTIVE", "RPC", "RSM", "SICD"]
    rng = ctx.rng(701)
    contexts = [(), ("GT",), ("GCP",), ("RPC", "GT"), ("RSM", "RPC"), ("CSCRNA", "RPC", "GCP"), ("ICHIPB", "RPC", "CSCRNA"), ("ICHIPB", "RSM"),
                ("SICD", "RPC"), ("SIDD", "RSM", "GT"), ("GT", "GCP", "CSCRNA", "RPC", "RSM", "SICD", "SIDD", "ICHIPB")]
    for src, kinds in dam.items():
        for k in kinds:
            for rep in range(ctx.n(2, 12)):
                for cx in (contexts if rep == 0 or ctx.thorough else contexts[:1] + contexts[4:7]):
                    md = {s: ("good" if s in cx or s == src else "absent") for s in dam}
                    chipped = md["ICHIPB"] == "good" and (src != "ICHIPB" or k in GOOD)
                    tag = dict(md=md, sel=allt, source=src, damage=k)
                    try:
                        a, b = outcome(md, {src: k}, allt, rng, ints=src == "GT" and k == "integers", chipped=chipped)
                        ctx.add("damage", st="ok", answer=a, start=b, **tag)
                    except MachineryError:
                        raise
                    except Exception as e:
                        ctx.add("damage", st="exc", err="%s: %s" % (type(e).__name__, str(e)[:200]), **tag)


G = {"module": "MC_Select", "behaviours": True, "heap": "4g"}
EXPECT = ["NeverRaises", "MostPreciseUsableSource", "BestStartingEstimate"]
MODELS = [{"module": "MC_Select", "cfg": "MC_Select.cfg", "workers": "4"}]
PARTS = [
    {"name": "choose", "drive": drive_choose, "trace": "Tr_Select", "expect": EXPECT,
     "gen": dict(G, cfg="Gen_Select.cfg", cfg_thorough="Gen_Select_T.cfg")},
    {"name": "damage", "drive": drive_damage, "trace": "Tr_Select", "expect": EXPECT, "gen": dict(G, cfg="Gen_Select0.cfg")},
]
ASSUMPTIONS = ["a source is identified by the ground points only it sees at the pixels it states",
               "degenerate tie points and chip corners are not specified; nor is which of a SICD and an unusable SIDD is used"]
