"""C11: geodetic and geocentric coordinates, and the coordinate value types."""
import math

from props.c03 import ecef
from vlib import q, qceil

def allow(h):
    """Micrometres: the closed form used by PROJ for the inverse is a single step, exact near the earth and coarser in orbit."""
    return 1000 if h <= 30000 else 1000000


A, B = 6378137.0, 6378137.0 * (1 - 1 / 298.257223563)


def conv(ctx, rng, lo, la, h):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate, geocentric_to_geodetic, geodetic_to_geocentric
    try:
        g = GeodeticWorldCoordinate([lo, la, h])
        c = geodetic_to_geocentric(g)
        want = ecef(lo, la, h)
        err = math.dist([c.x, c.y, c.z], list(want))
        kept = (g.longitude, g.latitude, g.elevation) == (lo, la, h)
        xyz = (c.x, c.y, c.z)
        b = geocentric_to_geodetic(c)
        kept = kept and (c.x, c.y, c.z) == xyz
        r = A + h
        dl = (b.longitude - lo + math.pi) % (2 * math.pi) - math.pi
        back = max(abs(dl) * r * math.cos(la), abs(b.latitude - la) * r, abs(b.elevation - h))
        rng_ok = abs(b.latitude) <= math.pi / 2 + 1e-12 and abs(b.longitude) <= math.pi + 1e-12
        ctx.add("conv", st="ok", lo=q(lo, 1e8), la=q(la, 1e8), h=q(h), err=qceil(err, 1e6), back=qceil(back, 1e6), tol=allow(h), range=bool(rng_ok), kept=bool(kept))
        return c
    except Exception as e:
        ctx.add("conv", st="exc", err=repr(e)[:200])


def drive_convert(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, WorldCoordinate, geocentric_to_geodetic, geodetic_to_geocentric
    rng = ctx.rng(1100)
    pi = math.pi

    def xyz(lo, la, h, per):
        c = geodetic_to_geocentric(GeodeticWorldCoordinate([lo, la, h]))
        return [q(c.x, per), q(c.y, per), q(c.z, per)]
    for h, per in ((0, 100), (250, 100), (-430, 100), (8848, 100), (20000, 100), (800000, 10), (20200000, 10), (35786000, 10)):
        for k in range(4):
            for lo in ((k * pi / 2), (k * pi / 2 - 2 * pi)):
                if abs(lo) > pi + 1e-9:
                    continue
                try:
                    ctx.add("equator", st="ok", q=k, h=h * per, per=per, got=xyz(lo, 0.0, float(h), per))
                except Exception as e:
                    ctx.add("equator", st="exc", err=repr(e)[:200])
        for p in (1, -1):
            for lo in (0.0, 1.0, -3.0):
                try:
                    ctx.add("pole", st="ok", p=p, h=h * per, per=per, got=xyz(lo, p * pi / 2, float(h), per))
                except Exception as e:
                    ctx.add("pole", st="exc", err=repr(e)[:200])
    pts = [(lo, la) for lo in (-pi, pi, -pi + 1e-9, pi - 1e-9, 0.0, 1e-12, -1e-12) for la in
           (-pi / 2, pi / 2, 0.0, 1e-10, -1e-10, pi / 2 - 1e-7, -pi / 2 + 1e-7, 0.7, -0.7)]
    for lo, la in pts:
        for h in (0.0, -500.0, 9000.0, 4e7):
            conv(ctx, rng, lo, la, h)
    for i in range(ctx.n(1500, 30000)):
        lo, la = float(rng.uniform(-pi, pi)), float(rng.uniform(-pi / 2, pi / 2))
        h = float(rng.choice([rng.uniform(-11000, 9000), rng.uniform(0, 1e6), rng.uniform(1e6, 4e7)]))
        conv(ctx, rng, lo, la, h)
        if i % 5 == 0:
            try:
                h2 = min(h, 1e6)
                lo2 = lo + pi / 2 if lo < pi / 2 else lo - 3 * pi / 2
                per = 10
                ctx.add("turn", st="ok", a=xyz(lo, la, h2, per), b=xyz(lo2, la, h2, per))
                ctx.add("mirror", st="ok", a=xyz(lo, la, h2, per), b=xyz(lo, -la, h2, per))
            except Exception as e:
                ctx.add("turn", st="exc", err=repr(e)[:200])
        if i % 3 == 0:
            # geocentric first; far inside the earth the problem is ill posed, so stay above -100 km
            v = rng.normal(size=3)
            v = v / math.sqrt(float(v @ v)) * float(rng.uniform(6.28e6, 4.3e7))
            try:
                w = WorldCoordinate([float(x) for x in v])
                g = geocentric_to_geodetic(w)
                e = ecef(g.longitude, g.latitude, g.elevation)
                ctx.add("inv", st="ok", tol=allow(g.elevation), err=qceil(math.dist(list(e), [float(x) for x in v]), 1e6),
                        range=bool(abs(g.latitude) <= pi / 2 and abs(g.longitude) <= pi + 1e-12),
                        kept=[w.x, w.y, w.z] == [float(x) for x in v])
            except Exception as e:
                ctx.add("inv", st="exc", err=repr(e)[:200])
    ev = {}
    for e in ctx.rec.events:
        if e["st"] == "ok":
            ev.setdefault(e["op"], e)
    ctx.corrupt = [dict(ev["conv"], err=2000), dict(ev["conv"], back=5000000), dict(ev["inv"], err=2000000), dict(ev["turn"], b=ev["turn"]["a"]),
                   dict(ev["pole"], p=-ev["pole"]["p"])]


KINDS = {"world": ("x", "y", "z"), "geodetic": ("x", "y", "z", "longitude", "latitude", "elevation"), "image": ("x", "y", "c", "r")}


def drive_values(ctx):
    import numpy as np
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, WorldCoordinate
    T = {"world": WorldCoordinate, "geodetic": GeodeticWorldCoordinate, "image": ImageCoordinate}

    def show(k, o):
        return {n: q(getattr(o, n)) for n in KINDS[k]}
    for i, bh in enumerate(ctx.gen):
        k = bh["kind"]
        n = 2 if k == "image" else 3
        try:
            src = [1.0, 2.0, 3.0][:n]
            mode = i % 4
            a = T[k]([src, tuple(src), np.array(src), [1, 2, 3][:n]][mode])
            b = T[k](a.coordinate)              # built from the other value's components
            ctx.add("new", st="ok", kind=k, a=show(k, a), b=show(k, b))
            for s in bh["hist"]:
                setattr(a if s["w"] == "a" else b, s["name"], float(s["v"]))
                ctx.add("set", st="ok", w=s["w"], name=s["name"], v=s["v"], a=show(k, a), b=show(k, b))
        except Exception as e:
            ctx.add("set", st="exc", err=repr(e)[:200])
    for k in T:
        for n in range(0, 6):
            for mk in (list, tuple, np.array):
                try:
                    T[k](mk([1.0] * n))
                    r = False
                except Exception:
                    r = True
                ctx.add("arity", st="ok", kind=k, n=n, rejected=r)
        try:
            d = T[k]()
            d2 = T[k]()
            d.x = 5.0
            z = [0.0] * (2 if k == "image" else 3)
            ok = list(d2.coordinate) == z and list(T[k]().coordinate) == z
        except Exception:
            ok = False
        ctx.add("arity", st="ok", kind=k, n=2 if k == "image" else 3, rejected=not ok)
    e = next(x for x in ctx.rec.events if x["op"] == "new")
    ctx.corrupt = [dict(e, a=dict(e["a"], x=9)), dict(e, b=dict(e["b"], y=9))]


MODELS = [{"module": "MC_Coord", "cfg": "MC_Coord.cfg", "cfg_thorough": "MC_Coord_T.cfg", "min_states": 100}]
PARTS = [
    {"name": "convert", "drive": drive_convert, "trace": "Tr_Coord",
     "expect": ["EquatorLandmarks", "PoleLandmarks", "TurnsWithLongitude", "MirrorsWithLatitude", "WithinAMillimetreOfWGS84", "BackToTheSameCoordinate", "GeocentricRoundTrip"]},
    {"name": "values", "drive": drive_values, "trace": "Tr_Coord",
     "gen": {"module": "MC_Coord", "behaviours": True, "cfg": "Gen_Coord.cfg", "cfg_thorough": "Gen_Coord_T.cfg"},
     "expect": ["EveryNameShowsItsComponent", "ValuesAreIndependent", "WrongArityRejected"]},
]
ASSUMPTIONS = ["heights from 100 km below the ellipsoid to geostationary orbit"]
