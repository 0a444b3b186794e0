"""C10: text form of geodetic coordinates."""
from math import radians

from vlib import q

LAT_MAX, LON_MAX = 90 * 3600000, 180 * 3600000


def coords(ctx, n):
    rng = ctx.rng(10)
    out = []
    for d in (0, 1, 9, 10, 14, 15, 29, 30, 59, 60, 89, 90):
        for off in (0, 1, 1000, 59000, 59999, 60000, 3599000, 3599999, 1800000):
            la = d * 3600000 + off
            if la > LAT_MAX:
                continue
            out += [(la, 2 * la), (-la, -2 * la), (la, -la), (-la, la)]
    for _ in range(n):
        k = int(rng.integers(0, 5))
        la, lo = int(rng.integers(-LAT_MAX, LAT_MAX + 1)), int(rng.integers(-LON_MAX, LON_MAX + 1))
        if k == 1:
            la, lo = la // 1000 * 1000, lo // 1000 * 1000
        elif k == 2:
            la, lo = la // 60000 * 60000, lo // 60000 * 60000
        elif k == 3:
            la, lo = la // 3600000 * 3600000, lo // 3600000 * 3600000
        elif k == 4:
            la, lo = int(rng.integers(-3000, 3000)), int(rng.integers(-3000, 3000))
        out.append((la, lo))
    return out


def make(la, lo, el=0.0):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    return GeodeticWorldCoordinate([radians(lo / 3.6e6), radians(la / 3.6e6), el])


def num(s):
    try:
        return int(s) if s.isdigit() else -1
    except Exception:
        return -1


def drive_parts(ctx):
    rng = ctx.rng(11)
    for la, lo in coords(ctx, ctx.n(3000, 60000)):
        el = float(rng.integers(-500, 9000)) + float(rng.integers(0, 8)) / 8.0
        try:
            c = make(la, lo, el)
            p = {k: format(c, "%" + k) for k in ("ld", "lm", "ls", "lh", "lH", "od", "om", "os", "oh", "oH")}
            ev = {k: (num(v) if k[1] in "dms" else v) for k, v in p.items()}
            ctx.add("parts", st="ok", lat=la, lon=lo, **ev)
            seq = list("%ld%lm%ls%lH%od%om%os%oH")
            dec = {k: format(c, "%" + k) for k in ("L", "l", "O", "o", "E")}
            tl = ev["ld"] * 3600 + ev["lm"] * 60 + ev["ls"]
            to = ev["od"] * 3600 + ev["om"] * 60 + ev["os"]
            ctx.add("fmt", st="ok", lat=la, lon=lo, fmt=seq, tl=tl, to=to, dec=dec, text=c.to_dms_string())
            ctx.add("fmt", st="ok", lat=la, lon=lo, fmt=[], tl=tl, to=to, dec=dec, text=f"{c}")
            ctx.add("dec", st="ok", field="l", got=abs(q(float(dec["l"]), 1e7)), want=abs(q(la / 3.6e6, 1e7)), tol=1)
            ctx.add("dec", st="ok", field="o", got=abs(q(float(dec["o"]), 1e7)), want=abs(q(lo / 3.6e6, 1e7)), tol=1)
            ctx.add("dec", st="ok", field="L", got=q(float(dec["L"]), 1e8), want=q(radians(la / 3.6e6), 1e8), tol=1)
            ctx.add("dec", st="ok", field="O", got=q(float(dec["O"]), 1e8), want=q(radians(lo / 3.6e6), 1e8), tol=1)
            ctx.add("dec", st="ok", field="E", got=q(float(dec["E"]), 1e4), want=q(el, 1e4), tol=0)
        except Exception as e:
            ctx.add("parts", st="exc", lat=la, lon=lo, err=repr(e)[:200])
    good = next(e for e in ctx.rec.events if e["op"] == "parts")
    ctx.corrupt = [dict(good, ls=60), dict(good, ld=good["ld"] + 1), dict(good, oH="W" if good["oH"] == "E" else "E")]


def drive_formats(ctx):
    rng = ctx.rng(12)
    fmts = [list(x) for x in ctx.gen]
    alpha = list("%%%%looodmshHLOEx /._")
    for _ in range(ctx.n(1500, 20000)):
        fmts.append([alpha[int(i)] for i in rng.integers(0, len(alpha), int(rng.integers(4, 14)))])
    cs = coords(ctx, 200)
    for i, fm in enumerate(fmts):
        la, lo = cs[int(rng.integers(0, len(cs)))]
        try:
            c = make(la, lo, 12.5)
            dec = {k: format(c, "%" + k) for k in ("L", "l", "O", "o", "E")}
            tl = sum(num(format(c, "%" + k)) * m for k, m in (("ld", 3600), ("lm", 60), ("ls", 1)))
            to = sum(num(format(c, "%" + k)) * m for k, m in (("od", 3600), ("om", 60), ("os", 1)))
            ctx.add("fmt", st="ok", lat=la, lon=lo, fmt=fm, tl=tl, to=to, dec=dec, text=format(c, "".join(fm)))
        except Exception as e:
            ctx.add("fmt", st="exc", lat=la, lon=lo, fmt=fm, err=repr(e)[:200])
    good = next(e for e in ctx.rec.events if e["st"] == "ok")
    ctx.corrupt = [dict(good, text=good["text"] + "0")]


MODELS = [{"module": "MC_GeoText", "cfg": "MC_GeoText.cfg", "cfg_thorough": "MC_GeoText_T.cfg", "min_states": 1000}]
PARTS = [
    {"name": "parts", "drive": drive_parts, "trace": "Tr_GeoText",
     "expect": ["LatFieldsInRange", "FormatLanguage", "Hemispheres", "DecimalsNameTheCoordinate"]},
    {"name": "formats", "drive": drive_formats, "trace": "Tr_GeoText",
     "gen": {"module": "Gen_GeoText", "cfg": "Gen_GeoText.cfg", "cfg_thorough": "Gen_GeoText_T.cfg"},
     "expect": ["FormatLanguage"]},
]
ASSUMPTIONS = ["decimal-degree directives are checked by magnitude: the documentation says signed, the repository's tests pin unsigned"]
