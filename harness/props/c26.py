"""C26: affine transforms and tie points reproduce the georeferencing they state."""
import math

import numpy as np
import tre
from props.c03 import ri
from vlib import q

GEOGRAPHIC = (4326,)
PROJECTED = (3857, 32601, 32660, 32618, 32733, 3031, 3413, 2193, 27700)
# somewhere inside the area of use of each projected system
SPOT = {3857: (-8.2e6, 4.9e6), 32601: (2.2e5, 5.0e6), 32660: (7.6e5, 5.6e6), 32618: (4.8e5, 4.2e6), 32733: (6.1e5, 6.3e6),
        3031: (-1.1e6, 4.0e5), 3413: (3.0e5, -9.0e5), 2193: (1.6e6, 5.5e6), 27700: (4.0e5, 3.0e5)}


def wkt(epsg):
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    return s.ExportToWkt()


def to_crs(epsg, inverse=False):
    """Witness for projected systems: longitude, latitude (WGS84 degrees) to the system's own coordinates."""
    import pyproj
    a, b = pyproj.CRS.from_epsg(4326), pyproj.CRS.from_epsg(epsg)
    return pyproj.Transformer.from_crs(b, a, always_xy=True) if inverse else pyproj.Transformer.from_crs(a, b, always_xy=True)


def turn(d):
    return d - 360.0 * round(d / 360.0)


def elevation(ctx, i):
    from aws.osml.photogrammetry import ConstantElevationModel
    return (None, 0) if i % 3 else (ConstantElevationModel(37.25 * (i % 7)), 37250 * (i % 7))


def drive_affine(ctx):
    from aws.osml.gdal import SensorModelFactory, load_gdal_dataset
    from aws.osml.gdal.gdal_sensor_model_builder import GDALAffineSensorModelBuilder
    from aws.osml.photogrammetry import GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate
    from osgeo import gdal
    gdal.UseExceptions()
    rng = ctx.rng(261)
    k, u = 64, 8
    for i in range(ctx.n(160, 1600)):
        t = {c: ri(rng, -20, 20) for c in "abcd"}
        if i % 4 == 0:
            t["b"] = t["c"] = 0                     # north up
        if t["a"] * t["d"] - t["b"] * t["c"] == 0:
            t = {"a": 7, "b": 0, "c": 0, "d": -9}
        route = ("model", "builder", "factory", "file")[i % 4 if i % 8 < 4 else (i + 1) % 4]
        projected = i % 3 == 0
        if projected:
            epsg = PROJECTED[ri(rng, 0, len(PROJECTED) - 1)]
            # the shift between datums is undone to within a millimetre only
            delta = float(rng.choice([0.5, 3.0] if epsg == 27700 else [0.002, 0.05, 0.5, 3.0]))
            ox, oy = (v + float(rng.uniform(-2e4, 2e4)) for v in SPOT[epsg])
            cs, back = to_crs(epsg), to_crs(epsg, True)
        else:
            epsg = GEOGRAPHIC[0]
            delta = float(rng.choice([1e-8, 1e-7, 1e-5, 4e-4]))
            ox, oy = float(rng.choice([-179.999, -77.03, -0.001, 12.25, 151.2, 179.9995])), float(rng.uniform(-70, 70))
        gt = [ox, t["a"] * delta, t["b"] * delta, oy, t["c"] * delta, t["d"] * delta]
        w = wkt(epsg) if projected or i % 2 else None
        try:
            if route == "model":
                sm = GDALAffineSensorModel(gt, w)
            elif route == "builder":
                sm = GDALAffineSensorModelBuilder(gt, w).build()
            elif route == "factory":
                sm = SensorModelFactory(64, 64, geo_transform=gt, proj_wkt=w).build()
            else:
                ds = gdal.GetDriverByName("GTiff").Create("/vsimem/c26.tif", 64, 48)
                ds.SetGeoTransform(gt)
                ds.SetProjection(wkt(epsg))
                ds = None
                keep, sm = load_gdal_dataset("/vsimem/c26.tif")
            em, want = elevation(ctx, i)
            for j in range(8):
                x, y = ((0, 0), (64 * u, 0), (64 * u, 48 * u), (0, 48 * u))[j] if j < 4 else (ri(rng, -100, 600), ri(rng, -100, 500))
                g = sm.image_to_world(ImageCoordinate([x / u, y / u]), elevation_model=em)
                if projected:
                    X, Y = cs.transform(math.degrees(g.longitude), math.degrees(g.latitude))
                    dx, dy = X - ox, Y - oy
                else:
                    dx, dy = turn(math.degrees(g.longitude) - ox), math.degrees(g.latitude) - oy
                ctx.add("aff", st="ok", t=t, u=u, x=x, y=y, k=k, gx=q(dx / delta, k), gy=q(dy / delta, k), el=q(g.elevation, 1000), em=want,
                        tol=2, route=route, epsg=epsg)
            for j in range(6):
                gx, gy = ri(rng, -900, 900), ri(rng, -900, 900)
                X, Y = ox + gx * delta, oy + gy * delta
                if projected:
                    X, Y = back.transform(X, Y)
                p = sm.world_to_image(GeodeticWorldCoordinate([math.radians(X), math.radians(Y), float(ri(rng, -50, 900))]))
                ctx.add("affinv", st="ok", t=t, gx=gx, gy=gy, k=1000, px=q(p.x, 1000), py=q(p.y, 1000), tol=3, route=route, epsg=epsg)
        except Exception as e:
            ctx.add("aff", st="exc", err=repr(e)[:300], route=route, epsg=epsg)
    ok = [e for e in ctx.rec.events if e["st"] == "ok"]
    a, b = next(e for e in ok if e["op"] == "aff"), next(e for e in ok if e["op"] == "affinv")
    ctx.corrupt = [dict(a, gx=a["gx"] + 70), dict(a, el=a["el"] + 3), dict(b, px=b["px"] + 4000)]


class Ties:
    """Ties of the relation h at the listed positions (x, y in 1/u cells of s pixels), and the events about a model made from them."""

    def __init__(self, ctx, h, u, s, lon, lat, dlon, dlat, at):
        self.ctx, self.h, self.u, self.s, self.base, self.d, self.at = ctx, h, u, s, (lon, lat), (dlon, dlat), at
        lons = [self.ground(p)[0] for p in at]
        self.cross = max(lons) - min(lons) > 180.0

    def offset(self, p):
        h, (x, y) = self.h, p
        den = h["g0"] + h["gx"] * x + h["gy"] * y
        return (h["a0"] + h["ax"] * x + h["ay"] * y) / den, (h["b0"] + h["bx"] * x + h["by"] * y) / den

    def ground(self, p, turns=0):
        """Longitude in the usual range plus a number of turns, latitude."""
        ox, oy = self.offset(p)
        lon = self.base[0] + ox * self.d[0]
        if not -180.0 <= lon <= 180.0:
            lon = (lon + 180.0) % 360.0 - 180.0
        return lon + 360.0 * turns, self.base[1] + oy * self.d[1]

    def pixel(self, p):
        return p[0] / self.u * self.s, p[1] / self.u * self.s

    def ask(self, sm, others, em, want, k, kp, tol, tolp, turns=(0,), **kw):
        from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
        for n, p in enumerate(list(self.at) + list(others)):
            name = "tie" if n < len(self.at) else "pos"
            common = dict(st="ok", h=self.h, ties=[list(t) for t in self.at[:4]], cross=self.cross, x=p[0], y=p[1], **kw)
            g = sm.image_to_world(ImageCoordinate(self.pixel(p)), elevation_model=em)
            lo, la = math.degrees(g.longitude), math.degrees(g.latitude)
            self.ctx.add(name, **common, k=k, gx=q(turn(lo - self.base[0]) / self.d[0], k), gy=q((la - self.base[1]) / self.d[1], k),
                         lon=q(lo, 1e6), el=q(g.elevation, 1000), em=want, tol=tol)
            for tn in turns:
                lo, la = self.ground(p, tn)
                i = sm.world_to_image(GeodeticWorldCoordinate([math.radians(lo), math.radians(la), 10.0 * n]))
                self.ctx.add(name + "inv", **common, turns=tn, k=kp, px=q(i.x * self.u / self.s, kp), py=q(i.y * self.u / self.s, kp), tol=tolp)


def make(ties, route, i, rng, size):
    """A model from the ties along one of the routes."""
    from aws.osml.gdal import SensorModelFactory, load_gdal_dataset
    from aws.osml.gdal.gdal_sensor_model_builder import GDALGCPSensorModelBuilder
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel
    from osgeo import gdal
    gdal.UseExceptions()
    pts = [ties.ground(p) + ties.pixel(p) for p in ties.at]
    gcps = [gdal.GCP(lo, la, 0.0, x, y) for lo, la, x, y in pts]
    if route == "model":
        return ProjectiveSensorModel([GeodeticWorldCoordinate([math.radians(lo), math.radians(la), 5.0]) for lo, la, _, _ in pts],
                                     [ImageCoordinate([x, y]) for _, _, x, y in pts])
    if route == "builder":
        return GDALGCPSensorModelBuilder(gcps).build()
    if route == "factory":
        return SensorModelFactory(size, size, ground_control_points=gcps).build()
    if route == "cscrna":
        root = tre.root()
        tre.cscrna(root, *[(lo, la, float(ri(rng, 0, 90))) for lo, la, _, _ in pts[:4]])
        return SensorModelFactory(size, size, xml_tres=root).build()
    name = "/vsimem/c26g.tif"
    ds = gdal.GetDriverByName("GTiff").Create(name, 64, 64)
    ds.SetGCPs(gcps, wkt(4326))
    ds = None
    ds, sm = load_gdal_dataset(name)
    return sm


def drive_around(ctx):
    """TLC's images carried around the world, as tie points: 15 degrees of longitude a unit."""
    rng = ctx.rng(262)
    cases = sorted(ctx.gen, key=lambda g: (not g["cross"], g["lon"], str(g["t"])))
    crossing, plain = [g for g in cases if g["cross"]], [g for g in cases if not g["cross"]]
    m = ctx.n(250, 5000)
    pick = [crossing[int(j)] for j in rng.permutation(len(crossing))[:m]] + [plain[int(j)] for j in rng.permutation(len(plain))[:m]]
    for i, g in enumerate(pick):
        t, n, u, s = g["t"], g["n"], 4, float((1, 32, 5000)[i % 3])
        h = {"a0": 0, "ax": t["a"], "ay": t["b"], "b0": 0, "bx": t["c"], "by": t["d"], "g0": u, "gx": 0, "gy": 0}
        ties = Ties(ctx, h, u, s, 15.0 * g["lon"], 3.0, 15.0, 4.0, [(0, 0), (n * u, 0), (n * u, n * u), (0, n * u)])
        route = ("model", "builder", "factory", "file", "cscrna")[i % 5]
        try:
            sm = make(ties, route, i, rng, n * s)
            em, want = elevation(ctx, i)
            ties.ask(sm, [(ri(rng, 0, n * u), ri(rng, 0, n * u))], em, want, k=10000, kp=10000, tol=20, tolp=20,
                     turns=(0,) if i % 2 else (0, 1, -1), route=route)
        except Exception as e:
            ctx.add("tie", st="exc", err=repr(e)[:300], route=route)
    ok = [e for e in ctx.rec.events if e["st"] == "ok" and not e["cross"]]
    a, b = next(e for e in ok if e["op"] == "tie"), next(e for e in ok if e["op"] == "tieinv")
    ctx.corrupt = [dict(a, gx=a["gx"] + 500), dict(a, lon=200000000), dict(a, el=a["el"] - 40), dict(b, px=b["px"] + 900)]


def drive_ties(ctx):
    """Projective relations of every size, from a hand's breadth to degrees across."""
    rng = ctx.rng(263)
    u = 4
    made = 0
    while made < ctx.n(220, 2500):
        cells = ri(rng, 4, 32)
        n = cells * u
        h = {k: ri(rng, -12, 12) for k in ("ax", "ay", "bx", "by")}
        h["a0"], h["b0"], h["g0"], h["gx"], h["gy"] = ri(rng, -400, 400), ri(rng, -400, 400), ri(rng, 250, 600), ri(rng, -1, 1), ri(rng, -1, 1)
        den = [h["g0"] + h["gx"] * x + h["gy"] * y for x in (0, n) for y in (0, n)]
        sense = h["ax"] * (h["by"] * h["g0"] - h["gy"] * h["b0"]) - h["ay"] * (h["bx"] * h["g0"] - h["gx"] * h["b0"]) \
            + h["a0"] * (h["bx"] * h["gy"] - h["gx"] * h["by"])
        # the relation must not fold the image to a line, or its far side to infinity
        if min(den) < 100 or abs(sense) * n < 20 * h["g0"] * h["g0"]:
            continue
        made += 1
        i = made
        route = ("model", "builder", "factory", "file", "cscrna")[i % 5]
        s = float((0.5, 1, 16, 300)[ri(rng, 0, 3)])
        gsd = float(rng.choice([2e-8, 1e-7, 1e-6, 1e-5]))               # degrees a pixel: millimetres to a metre
        d = min(gsd * s * 60.0, 0.6)
        lon = float(rng.uniform(-180, 180)) if i % 4 else float(rng.choice([-180.0, 180.0])) + d * ri(rng, -2, 2) / 4.0
        at = [(0, 0), (n, 0), (n, n), (0, n)]
        if route != "cscrna":
            extra = [(ri(rng, 0, n), ri(rng, 0, n)) for _ in range((0, 1, 5, 30)[ri(rng, 0, 3)])]
            if i % 3 == 0:                                              # ties anywhere, in any order
                at = [(ri(rng, 0, n // 4), ri(rng, 0, n // 3)), (ri(rng, 3 * n // 4, n), ri(rng, 0, n // 3)),
                      (ri(rng, 3 * n // 4, n), ri(rng, 2 * n // 3, n)), (ri(rng, 0, n // 4), ri(rng, 2 * n // 3, n))]
                at = [at[int(j)] for j in rng.permutation(4)]
            at = at + extra
        ties = Ties(ctx, h, u, s, lon, float(rng.uniform(-75, 75)), d, d, at)
        try:
            sm = make(ties, route, i, rng, cells * s)
            em, want = elevation(ctx, i)
            ties.ask(sm, [(ri(rng, 0, n), ri(rng, 0, n)) for _ in range(3)], em, want, k=10000, kp=10000, tol=4, tolp=40,
                     turns=(0, 1) if i % 2 else (0, -1), route=route, extra=len(at) - 4)
        except Exception as e:
            ctx.add("tie", st="exc", err=repr(e)[:300], route=route)
    ok = [e for e in ctx.rec.events if e["st"] == "ok" and not e["cross"]]
    a, b = next(e for e in ok if e["op"] == "pos"), next(e for e in ok if e["op"] == "posinv")
    ctx.corrupt = [dict(a, gy=a["gy"] + 90), dict(b, py=b["py"] + 900)]


def drive_projected(ctx):
    """Four ties stated in a projected system: the ties themselves are reproduced."""
    from aws.osml.gdal import SensorModelFactory, load_gdal_dataset
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    from osgeo import gdal
    gdal.UseExceptions()
    rng = ctx.rng(264)
    k = 1000
    for i in range(ctx.n(60, 600)):
        epsg = PROJECTED[i % len(PROJECTED)]
        cs, back = to_crs(epsg), to_crs(epsg, True)
        delta = float(rng.choice([0.5, 4.0] if epsg == 27700 else [0.01, 0.5, 4.0]))
        ox, oy = (v + float(rng.uniform(-2e4, 2e4)) for v in SPOT[epsg])
        if epsg == 3857 and i % 2:
            ox = 20037508.342789244
        t = {"a": ri(rng, 3, 12), "b": ri(rng, -2, 2), "c": ri(rng, -2, 2), "d": -ri(rng, 3, 12)}
        h = {"a0": 0, "ax": t["a"], "ay": t["b"], "b0": 0, "bx": t["c"], "by": t["d"], "g0": 1, "gx": 0, "gy": 0}
        n = ri(rng, 8, 40)
        at = [(0, 0), (n, 0), (n, n), (0, n)]
        try:
            gcps, seen = [], []
            for x, y in at:
                X, Y = ox + delta * (t["a"] * x + t["b"] * y), oy + delta * (t["c"] * x + t["d"] * y)
                gcps.append(gdal.GCP(X, Y, 0.0, float(x), float(y)))
                seen.append(back.transform(X, Y))
            if i % 2:
                ds = gdal.GetDriverByName("GTiff").Create("/vsimem/c26p.tif", n, n)
            else:
                ds = gdal.GetDriverByName("VRT").Create("/vsimem/c26p.vrt", n, n, 1)
            name = ds.GetDescription()
            ds.SetGCPs(gcps, wkt(epsg))
            ds = None
            keep, sm = load_gdal_dataset(name)
            cross = max(p[0] for p in seen) - min(p[0] for p in seen) > 180.0
            common = dict(st="ok", h=h, ties=[list(p) for p in at], cross=cross, epsg=epsg)
            for (x, y), (lo, la) in zip(at, seen):
                g = sm.image_to_world(ImageCoordinate([x, y]))
                X, Y = cs.transform(math.degrees(g.longitude), math.degrees(g.latitude))
                if epsg == 3857:
                    X -= 40075016.68557849 * round((X - ox) / 40075016.68557849)
                ctx.add("tie", **common, x=x, y=y, k=k, gx=q((X - ox) / delta, k), gy=q((Y - oy) / delta, k),
                        lon=q(math.degrees(g.longitude), 1e6), el=q(g.elevation, 1000), em=0, tol=10)
                p = sm.world_to_image(GeodeticWorldCoordinate([math.radians(lo), math.radians(la), 0.0]))
                ctx.add("tieinv", **common, x=x, y=y, turns=0, k=k, px=q(p.x, k), py=q(p.y, k), tol=10)
        except Exception as e:
            ctx.add("tie", st="exc", err=repr(e)[:300], epsg=epsg)
    a = next(e for e in ctx.rec.events if e["st"] == "ok" and e["op"] == "tie" and not e["cross"])
    ctx.corrupt = [dict(a, gx=a["gx"] + 300)]


MODELS = [{"module": "MC_Georef", "min_states": 20000}]
PARTS = [
    {"name": "affine", "drive": drive_affine, "trace": "Tr_Georef", "expect": ["AffinePosition", "AffineInverse", "Elevation"]},
    {"name": "around", "drive": drive_around, "trace": "Tr_Georef", "gen": {"module": "MC_Georef", "cfg": "Gen_Georef.cfg", "behaviours": True},
     "expect": ["TieGround", "TiePosition", "OneRelation", "OneRelationInverse", "LongitudeInUsualRange", "AnyTurnOfLongitude", "Elevation"]},
    {"name": "ties", "drive": drive_ties, "trace": "Tr_Georef",
     "expect": ["TieGround", "TiePosition", "OneRelation", "OneRelationInverse", "LongitudeInUsualRange", "AnyTurnOfLongitude", "Elevation"]},
    {"name": "projected", "drive": drive_projected, "trace": "Tr_Georef", "expect": ["TieGround", "TiePosition"]},
]
ASSUMPTIONS = ["coordinates of projected systems are read back with PROJ, in the direction opposite to the one under test",
               "tie points of one image lie within half a turn of longitude"]
