"""C12: SAR projections satisfy the range/Doppler geometry of the document and the requested surface."""
import math

import cams
import sar
from vlib import MachineryError, NAN, q, qceil


def docs(ctx, salt):
    V = sar.variants(ctx.rng(salt), {k: cams.sar_xml(k) for k in ("capella", "pfa", "rma", "sidd")})
    return V


def model(k, x):
    return cams.sar_model("sidd" if k.startswith("sidd") else "sicd", x)


def points(rng, s, n):
    out = [(0.0, 0.0), (s.w - 1.0, s.h - 1.0), (0.0, s.h - 1.0), (s.w - 1.0, 0.0)]
    while len(out) < n:
        out.append((float(rng.uniform(0, s.w)), float(rng.uniform(0, s.h))))
    return out[:n]


def normal(k, x, s):
    """Normal of the ground plane the document defines through the scene centre point."""
    import numpy as np
    import re
    import xml.etree.ElementTree as ET
    if s.sidd:
        n = np.cross(s.u[0], s.u[1])
    elif s.kind == "PFA":
        n = sar.xyz(ET.fromstring(re.sub(r"^\s*<\?xml[^>]*\?>", "", x)), "PFA/FPN")
    else:
        lo, la, _ = sar.geodetic(s.scp)
        n = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    return n / math.sqrt(float(n @ n))


def rr(ctx, s, g, x, y, tag):
    R, D, P, V = s.rrdot(x, y)
    p = sar.ecef(g.longitude, g.latitude, g.elevation)
    d = P - p
    r = math.sqrt(float(d @ d))
    side = {1: "L", -1: "R"}
    ctx.add("rr", st="ok", dr=qceil(r - R, 1e6), drr=qceil(float(V @ d) / r - D, 1e6), side=side[s.side_of(p, P, V)],
            wside=s.stated or side[s.side], tol=50, **tag)
    return p


def drive_geo(ctx):
    """Range, range rate, side of track, default plane, constant height surfaces, scene centre, mirror image, and back."""
    from aws.osml.photogrammetry import ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate
    for rep in range(ctx.n(1, 6)):
        V = docs(ctx, 1200 + rep)
        rng = ctx.rng(1210 + rep)
        ms = {k: (model(k, x), sar.Sar(x), x) for k, x in V.items()}
        for k, (m, s, x) in ms.items():
            tag = dict(doc=k, formation=s.kind)
            if m is None:
                ctx.add("rr", st="exc", err="no model", **tag)
                continue
            n = normal(k, x, s)
            h0 = sar.geodetic(s.scp)[2]
            mir = ms.get(k + "-mirror", (None,))[0]
            for (px, py) in points(rng, s, ctx.n(10, 40)):
                for em, hc in ((None, None),) + tuple((ConstantElevationModel(h), h) for h in
                                                      (round(h0 + float(rng.uniform(-300, 1500)), 2), h0)):
                    t = dict(tag, surf="none" if em is None else "constant")
                    try:
                        g = m.image_to_world(ImageCoordinate([px, py]), elevation_model=em)
                        p = rr(ctx, s, g, px, py, t)
                        if em is None:
                            ctx.add("plane", st="ok", d=qceil(float((p - s.scp) @ n), 1e6), tol=50, **t)
                        else:
                            ctx.add("surf", st="ok", got=q(g.elevation, 1000), want=q(hc, 1000), tol=1, **t)
                        if not s.sidd or em is None:
                            b = m.world_to_image(g)
                            ctx.add("rt", st="ok", d=qceil(math.hypot(b.x - px, b.y - py), 1000), tol=100, **t)
                        if mir is not None:
                            z = mir.image_to_world(ImageCoordinate([px, py]), elevation_model=em)
                            pz = sar.ecef(z.longitude, -z.latitude, z.elevation)
                            ctx.add("mir", st="ok", d=qceil(math.sqrt(float((p - pz) @ (p - pz))), 1e6), tol=50, **t)
                    except Exception as e:
                        ctx.add("rr", st="exc", err=repr(e)[:200], **t)
            try:
                sx, sy = s.scp_xy()
                g = m.image_to_world(ImageCoordinate([sx, sy]))
                d = sar.ecef(g.longitude, g.latitude, g.elevation) - s.scp
                ctx.add("scp", st="ok", d=qceil(math.sqrt(float(d @ d)), 1000), tol=10, **tag)
                b = m.world_to_image(GeodeticWorldCoordinate(list(sar.geodetic(s.scp))))
                ctx.add("scp", st="ok", d=qceil(math.hypot(b.x - sx, b.y - sy), 1000), tol=10, **tag)
            except Exception as e:
                ctx.add("scp", st="exc", err=repr(e)[:200], **tag)
    good = {e["op"]: e for e in ctx.rec.events if e["st"] == "ok"}
    ctx.corrupt = [dict(good["rr"], dr=2000), dict(good["rr"], drr=2000), dict(good["rr"], side="X"), dict(good["plane"], d=5000),
                   dict(good["scp"], d=20), dict(good["mir"], d=9999), dict(good["rt"], d=400)]


def terrain(kind, c, rng):
    """Height function (metres or None) of longitude and latitude around c, its tiles and their height ranges."""
    from aws.osml.photogrammetry import ElevationModel, ElevationRegionSummary
    lon0, lat0, h0 = c
    cl = math.cos(lat0)
    az = float(rng.uniform(0, 2 * math.pi))
    # up to the size of the scene away from its centre
    bx = float(rng.uniform(-300, 300))
    amp, lam = {"hills": (40.0, 900.0), "ridges": (float(rng.uniform(60, 120)), float(rng.uniform(300, 500))),
                "void": (40.0, 900.0), "cliff": (5.0, 900.0), "blocks": (0.0, 1.0)}[kind]
    base = h0 + float(rng.uniform(-30, 200))
    jump = float(rng.choice([-1, 1])) * float(rng.uniform(60, 200)) if kind == "cliff" else 0.0
    vlam = float(rng.uniform(200, 700))
    cell = float(rng.uniform(80, 160))
    hs = rng.uniform(-60, 90, size=(64, 64))

    def en(lo, la):
        return ((lo - lon0 + math.pi) % (2 * math.pi) - math.pi) * cl * 6378137.0, (la - lat0) * 6378137.0

    def f(lo, la):
        e, n = en(lo, la)
        u = e * math.cos(az) + n * math.sin(az)
        if kind == "void" and math.sin(2 * math.pi * u / vlam + 1.0) > 0.2:
            return None
        if kind == "blocks":
            return base + float(hs[int(math.floor(e / cell)) % 64, int(math.floor(n / cell)) % 64])
        return base + amp * math.sin(2 * math.pi * u / lam) + (jump if e > bx else 0.0)
    lo1, hi1 = (base - amp, base + amp) if kind != "blocks" else (base - 60, base + 90)

    class T(ElevationModel):
        def set_elevation(self, w):
            h = f(w.longitude, w.latitude)
            if h is not None:
                w.elevation = h

        def describe_region(self, w):
            j = jump if en(w.longitude, w.latitude)[0] > bx else 0.0
            return ElevationRegionSummary(lo1 + j, hi1 + j, -32767, 30.0)
    return T(), f, min(lo1, lo1 + jump), max(hi1, hi1 + jump)


def drive_dem(ctx):
    """Rugged terrain: layover, cliffs between tiles, voids.  The path is sampled independently every two metres."""
    from aws.osml.photogrammetry import ImageCoordinate
    V = docs(ctx, 1250)
    rng = ctx.rng(1251)
    names = [k for k in V if "130" not in k and "00" not in k]
    count = {"many": 0, "none": 0}
    for kind in ("hills", "ridges", "void", "cliff", "blocks"):
        for k in names:
            x = V[k]
            m, s = model(k, x), sar.Sar(x)
            c = sar.geodetic(s.scp)
            em, f, lo, hi = terrain(kind, c, rng)
            for i in range(ctx.n(3, 14)):
                # near the scene centre, so that cliffs and voids are met
                px, py = s.scp_xy()
                px, py = px + float(rng.uniform(-600, 600)), py + float(rng.uniform(-600, 600))
                t = dict(doc=k, formation=s.kind, surf=kind)
                try:
                    g = m.image_to_world(ImageCoordinate([px, py]), elevation_model=em)
                    d = m.image_to_world(ImageCoordinate([px, py]))
                    rr(ctx, s, g, px, py, t)
                    path = s.contour(px, py, lo - 20, hi + 20, 2.0)
                    T = [f(a, b) for a, b, _ in path]
                    z, tt = [q(p[2], 1000) for p in path], [NAN if h is None else q(h, 1000) for h in T]
                    sg = [None if h is None else p[2] > h for p, h in zip(path, T)]
                    nx = sum(1 for a, b in zip(sg, sg[1:]) if a is not None and b is not None and a != b)
                    count["many"] += nx > 1
                    count["none"] += nx == 0
                    # linear interpolation between contour points ten metres apart on this terrain
                    ctx.add("meet" if kind == "cliff" else "dem", st="ok", z=z, t=tt, k=6, got=q(g.elevation, 1000), dflt=q(d.elevation, 1000), tol=20, **t)
                except Exception as e:
                    ctx.add("dem", st="exc", err=repr(e)[:200], **t)
    if not count["many"] or not count["none"]:
        raise MachineryError("terrain too easy: %s" % count)
    e = next(e for e in ctx.rec.events if e["op"] == "dem" and e["st"] == "ok" and e["surf"] == "hills")
    ctx.corrupt = [dict(e, got=e["got"] + 30000), dict(e, got=e["got"] - 30000), dict(e, got=NAN)]


MODELS = [{"module": "MC_Sar", "cfg": "MC_Sar.cfg", "cfg_thorough": "MC_Sar_T.cfg", "min_states": 10000, "workers": "4"}]
PARTS = [
    {"name": "geometry", "drive": drive_geo, "trace": "Tr_Sar",
     "expect": ["RangeOfTheLocation", "RangeRateOfTheLocation", "ImagedSideOfTrack", "DefaultGroundPlane", "OnRequestedSurface", "SceneCentrePoint",
                "MirroredCollection", "RoundTrip"]},
    {"name": "terrain", "drive": drive_dem, "trace": "Tr_Sar", "expect": ["MeetingWithTerrain", "LowestMeetingWithTerrain", "RangeOfTheLocation"], "timeout_thorough": 800},
]
ASSUMPTIONS = ["range and range rate are compared to one millimetre (per second)",
               "in rugged terrain an answer may be one contour step (ten metres) from the intersection, and intersections that lie closer together "
               "than that may be overlooked",
               "round trips of SIDD images are checked on their product plane only (known finding F02 of C01)"]
