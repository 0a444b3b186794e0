"""C21: geolocated features."""
import contextlib
import copy
import io
import json
import math

from vlib import q

KINDS = ["Point", "LineString", "Polygon", "Holed", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "Nested",
         "bbox", "bounds_imcoords", "geom_imcoords", "detection", "nothing", "malformed", "both", "pointbox", "badgeom"]


def ring(rng, x, y, w, h):
    r = [[x, y], [x + w, y + 1.25], [x + w / 4, y + h]]
    return r + [r[0]]


def image_props(kind, rng, lim):
    """Properties of a feature: (properties, geometry located or None, bbox located or None)."""
    x, y = [int(v) / 4 for v in rng.integers(0, 4 * lim, 2)]
    w, h = [int(v) for v in rng.integers(4, max(6, lim // 3), 2)]
    poly = [ring(rng, x, y, w, h)]
    if kind == "Holed":
        poly = [[[x, y], [x + w, y], [x + w, y + h], [x, y + h], [x, y]],
                [[x + 1, y + 1], [x + 1, y + 2.5], [x + 2, y + 2], [x + 1, y + 1]],
                [[x + 2.25, y + 1], [x + 3.5, y + 1.5], [x + 2.25, y + 2.5], [x + 2.25, y + 1]],
                [[x + 1, y + 2.75], [x + 3, y + 3.75], [x + 2.75, y + 3], [x + 1, y + 2.75]]][: 2 + int(rng.integers(0, 3))]
    line = [[x, y], [x + w, y + h], [x + w + 3, y - 2]]
    G = {"Point": {"type": "Point", "coordinates": [x, y]},
         "LineString": {"type": "LineString", "coordinates": line},
         "Polygon": {"type": "Polygon", "coordinates": poly}, "Holed": {"type": "Polygon", "coordinates": poly},
         "MultiPoint": {"type": "MultiPoint", "coordinates": line},
         "MultiLineString": {"type": "MultiLineString", "coordinates": [line, [[x, y + 9], [x + 4, y]]]},
         "MultiPolygon": {"type": "MultiPolygon", "coordinates": [poly, [ring(rng, x + w + 2, y, 5, 6)], [ring(rng, x, y + h + 2, 4, 3)]][: 2 + int(rng.integers(0, 2))]}}
    G["GeometryCollection"] = {"type": "GeometryCollection", "geometries": [G["Polygon"], G["Point"]]}
    G["Nested"] = {"type": "GeometryCollection", "geometries": [G["MultiPoint"], G["LineString"]]}
    bb = [x, y, x + w, y + h]
    boxring = {"type": "Polygon", "coordinates": [[[bb[2], bb[1]], [bb[2], bb[3]], [bb[0], bb[3]], [bb[0], bb[1]], [bb[2], bb[1]]]]}
    if kind in G:
        return {"imageGeometry": G[kind]}, G[kind], None
    if kind == "bbox":
        return {"imageBBox": bb}, None, bb
    if kind == "bounds_imcoords":
        return {"bounds_imcoords": bb}, boxring, None
    if kind == "geom_imcoords":
        return {"geom_imcoords": poly[0]}, G["Polygon"], None
    if kind == "detection":
        return {"detection": {"type": "LineString", "pixelCoordinates": line, "score": .5}}, G["LineString"], None
    if kind == "malformed":
        return {"imageGeometry": {"type": "Point"}, "bounds_imcoords": [1, 2]}, None, None
    if kind == "both":
        return {"imageGeometry": G["Polygon"], "imageBBox": [x, y, x + w, y + max(h, 1.25)]}, G["Polygon"], [x, y, x + w, y + max(h, 1.25)]
    if kind == "pointbox":   # a box far larger than the geometry
        b = [x - 40, y - 25, x + w + 60, y + h + 30]
        return {"imageGeometry": G["Point"], "imageBBox": b}, G["Point"], b
    if kind == "badgeom":
        return {"imageGeometry": {"type": "Polygon", "coordinates": "x"}, "imageBBox": bb}, None, bb
    return {"label": 3}, None, None


def flat(g):
    """Structure string and flat vertex list of a GeoJSON geometry."""
    if g is None:
        return "none", []
    t = g["type"]
    if t == "GeometryCollection":
        parts = [flat(p) for p in g["geometries"]]
        return "GC(" + ",".join(p[0] for p in parts) + ")", [v for p in parts for v in p[1]]

    def walk(c):
        if c and isinstance(c[0], (int, float)):
            return ".", [list(c)]
        parts = [walk(p) for p in c]
        return "(" + "".join(p[0] for p in parts) + ")", [v for p in parts for v in p[1]]
    s, v = walk(g["coordinates"])
    return t + s, v


class Ground:
    """A sensor model with a polynomial ground location (see spec/Geoloc.tla)."""

    def __init__(self, m, base):
        self.m, self.base = m, base

    def image_to_world(self, c, elevation_model=None, options=None):
        from aws.osml.photogrammetry import GeodeticWorldCoordinate
        x, y = float(c.x), float(c.y)
        lon, lat = [b + 1e-6 * (k[0] * x + k[1] * y + k[2] * x * x + k[3] * y * y + k[4] * x * y)
                    for b, k in zip(self.base, (self.m["lon"], self.m["lat"]))]
        lon = (lon + 180) % 360 - 180
        g = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), self.m["e"][0] + self.m["e"][1] * x])
        if elevation_model is not None:
            elevation_model.set_elevation(g)
        return g


def surface(m, base):
    from aws.osml.photogrammetry import ElevationModel, ElevationRegionSummary

    class Plane(ElevationModel):
        def set_elevation(self, c):
            rel = ((math.degrees(c.longitude) - base[0] + 180) % 360 - 180) * 1e6
            if m["em"] == "void" or (m["em"] == "partial" and rel < 0):
                return
            c.elevation = m["h0"] + rel / 64

        def describe_region(self, c):
            return ElevationRegionSummary(0, 1, -1, 1.0)
    return None if m["em"] == "none" else Plane()


class Run:
    def __init__(self, ctx, rng, kinds, linear, em, base, n, lim, plain):
        import geojson
        import shapely
        from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
        self.ctx, self.base = ctx, base

        def co(linear):
            a = [int(v) for v in rng.integers(-180, 181, 2)]
            return a + ([0, 0, 0] if linear else [int(v) for v in rng.integers(-2, 3, 3)])
        self.m = m = {"lon": co(linear), "lat": co(linear), "e": [int(rng.integers(-50, 400)), int(rng.integers(-2, 3)) if em in ("none",) else 0],
                      "em": em, "h0": int(rng.integers(-100, 900)), "linear": linear}
        # the center is given in 1/64 pixel
        m["slack"] = 2 + (abs(m["lon"][0]) + abs(m["lon"][1]) + abs(m["lat"][0]) + abs(m["lat"][1])) // 4 + 2
        self.fs, fs = [], []
        for i, k in enumerate(kinds):
            p, g, bb = image_props(k, rng, lim)
            props = {"score": 0.1 * i, "nested": {"a": [1, None]}}
            props.update(copy.deepcopy(p))
            world = [None, geojson.Point((1.5, 2.5)), None][i % 3]
            f = geojson.Feature(id=["x", 7][i % 2], geometry=world, properties=props)
            if plain and k not in ("malformed", "badgeom"):   # geojson itself rejects those
                f = geojson.loads(geojson.dumps(f))
            self.fs.append(f)
            s, v = flat(g)
            if g is not None:
                sh = shapely.geometry.shape(g).centroid
                c = (sh.x, sh.y)
            else:
                c = ((bb[0] + bb[2]) / 2, (bb[1] + bb[3]) / 2) if bb else (0, 0)
            fs.append({"struct": s, "v": [[int(a * 4), int(b * 4)] for a, b in v], "bbox": [int(t * 4) for t in bb] if bb else [],
                       "center": [round(t * 64) for t in c], "kind": k})
        self.given = [self.rest(f) for f in self.fs]
        self.geom0 = [json.dumps(f["geometry"]) for f in self.fs]
        self.loc = Geolocator(ImagedFeaturePropertyAccessor(), Ground(m, base), surface(m, base), **({} if n == 11 else {"approximation_grid_size": n}))
        ctx.add("new", fs=fs, m=m, n=n)

    @staticmethod
    def rest(f):
        d = json.loads(json.dumps(f))
        d.pop("geometry", None)
        d.pop("bbox", None)
        for p in ("center_longitude", "center_latitude"):
            d["properties"].pop(p, None)
        return d

    def ang(self, lon, lat, deg=True):
        a, b = (lon, lat)
        rl = (a - self.base[0] + 180) % 360 - 180
        return [q(rl, 16e6), q(b - self.base[1], 16e6)]

    def call(self, which):
        before = [json.dumps(f) for f in self.fs]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.loc.geolocate_features([self.fs[i - 1] for i in which])
        except Exception as e:
            self.ctx.add("call", st=repr(e)[:300], which=which)
            return
        after = []
        for i, f in enumerate(self.fs):
            d = json.loads(json.dumps(f))
            s, v = flat(d["geometry"])
            ce = [d["properties"].get("center_longitude"), d["properties"].get("center_latitude")]
            bb = d.get("bbox")
            lons = [c[0] for c in v] + ([bb[0], bb[2]] if bb else []) + ([ce[0]] if ce[0] is not None else [])
            try:
                after.append({"struct": s, "v": [self.ang(c[0], c[1]) + [q(c[2], 16) if len(c) > 2 else 2000000001] for c in v],
                              "bbox": (self.ang(bb[0], bb[1]) + self.ang(bb[2], bb[3])) if bb else [],
                              "center": self.ang(*ce) if None not in ce else [], "inrange": all(-180 <= t <= 180 for t in lons),
                              "keptgeom": json.dumps(f["geometry"]) == self.geom0[i],
                              "kept": self.rest(f) == self.given[i], "untouched": before[i] == json.dumps(f)})
            except Exception as e:
                self.ctx.add("call", st="malformed result " + repr(e)[:200] + json.dumps(d)[:200], which=which)
                return
        self.ctx.add("call", st="ok", which=which, after=after)


def drive(ctx):
    rng = ctx.rng(2100)
    bases = [(0.0, 0.0), (179.99995, 12.0), (-179.9999, -40.0), (33.25, -89.0), (-100.5, 45.0), (-0.00005, 0.00005), (180.0, 60.0)]
    j = 0
    for k, b in enumerate(ctx.gen):
        kinds = [KINDS[(k + 5 * i) % len(KINDS)] for i in range(3)]
        r = Run(ctx, rng, kinds, k % 3 != 0, ["none", "plane", "void", "partial"][(k // 3) % 4], bases[k % len(bases)], [11, 2, 5, 30][k % 4],
                [60, 1400, 12][k % 3], k % 2 == 0)
        for S in b["hist"]:
            which = [i + 1 for i in range(3) if S[i]]
            r.call(which if k % 2 else which[::-1])
    # every kind alone, in all orders of magnitude of position
    for kind in KINDS:
        for lim in (8, 200, 1400):
            for rep in range(ctx.n(2, 12)):
                j += 1
                r = Run(ctx, rng, [kind], rep % 2 == 0, ["none", "plane", "void", "partial"][j % 4], bases[j % len(bases)], [11, 3][j % 2], lim, j % 3 == 0)
                r.call([1])
                r.call([1])
    # many features at once, then some of them again
    for rep in range(ctx.n(6, 40)):
        n = int(rng.integers(6, 30))
        kinds = [KINDS[int(rng.integers(0, len(KINDS)))] for _ in range(n)]
        r = Run(ctx, rng, kinds, rep % 2 == 0, ["none", "plane", "void", "partial"][rep % 4], bases[rep % len(bases)], [11, 7][rep % 2], 1400, rep % 3 == 0)
        r.call(list(range(1, n + 1)))
        r.call([int(v) for v in rng.choice(range(1, n + 1), 4, replace=False)])
    ev = ctx.rec.events
    i = next(i for i, e in enumerate(ev) if e["op"] == "call" and e["st"] == "ok" and any(a["v"] and 1 in e["which"] for a in e["after"][:1])
             and ev[i - 1]["op"] == "new" and ev[i - 1]["m"]["linear"] and ev[i - 1]["fs"][0]["v"])
    c1, c2, c3 = copy.deepcopy(ev[i]), copy.deepcopy(ev[i]), copy.deepcopy(ev[i])
    c1["after"][0]["v"][0][0] += 40
    c2["after"][0]["struct"] = "Point."
    c3["after"][0]["kept"] = False
    if ev[i - 1]["fs"][0]["struct"] == "Point.":
        c2["after"][0]["struct"] = "LineString(..)"
    ctx.corrupt, ctx.corrupt_idx = [ev[i - 1], c1, c2, c3], [1, 2, 3]


def drive_real(ctx):
    """Real sensor models: every vertex is where the model itself puts it."""
    import cams
    import geojson
    from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    rng = ctx.rng(2101)
    for cam in cams.zoo(rng, 1):
        if cam.kind == "composite" and "sicd" in cam.name.lower():
            continue
        try:
            center = cam.center()
        except Exception as e:
            ctx.add("point", st=repr(e)[:200], cam=cam.name, err=2000000001, tol=0, dh=0)
            continue
        for name, (em, height) in cams.surfaces(center, rng).items():
            if name not in ("none", "constant", "wavy"):
                continue
            if name != "none" and not ctx.thorough and rng.integers(0, 3):
                continue
            for rep in range(ctx.n(1, 4)):
                w, h = min(cam.w, 1000), min(cam.h, 1000)
                fx, fy = cam.x0 + float(rng.uniform(0, cam.w - w)), cam.y0 + float(rng.uniform(0, cam.h - h))
                pts = [[fx + float(rng.uniform(0, w)), fy + float(rng.uniform(0, h))] for _ in range(6)]
                feats = [geojson.Feature(geometry=None, properties={"imageGeometry": {"type": "MultiPoint", "coordinates": pts[:4]}}),
                         geojson.Feature(geometry=None, properties={"imageGeometry": {"type": "LineString", "coordinates": pts[3:]}})]
                kw = dict(cam=cam.name, surface=name)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        Geolocator(ImagedFeaturePropertyAccessor(), cam.model, em).geolocate_features(feats)
                    got = [c for f in feats for c in f["geometry"]["coordinates"]]
                    for p, c in zip(pts[:4] + pts[3:], got):
                        g = GeodeticWorldCoordinate([math.radians(c[0]), math.radians(c[1]), c[2]])
                        ref = cam.model.image_to_world(ImageCoordinate(p), elevation_model=em)
                        px = [cam.model.world_to_image(ImageRef(v)) for v in (g, ref)]
                        err = max(abs(px[0].x - px[1].x), abs(px[0].y - px[1].y))
                        # six decimals of a degree, in pixels of this image
                        g2 = GeodeticWorldCoordinate([ref.longitude + math.radians(1e-6), ref.latitude + math.radians(1e-6), ref.elevation])
                        p2 = cam.model.world_to_image(g2)
                        tol = 0.5 + max(abs(p2.x - px[1].x), abs(p2.y - px[1].y))
                        want = ref.elevation if height is None else height(g.longitude, g.latitude)
                        if name == "wavy":   # terrain moves the location between the grid points
                            err = 0.0
                        ctx.add("point", st="ok", err=q(err, 64), tol=q(tol, 64) + 1, dh=q(abs(c[2] - want)), **kw)
                except Exception as e:
                    ctx.add("point", st=repr(e)[:300], err=2000000001, tol=0, dh=2000000001, **kw)


def ImageRef(v):
    return v


MODELS = [{"module": "MC_Geoloc", "cfg": "MC_Geoloc.cfg", "cfg_thorough": "MC_Geoloc_T.cfg", "min_states": 2000}]
PARTS = [{"name": "stub", "drive": drive, "trace": "Tr_Geoloc",
          "gen": {"module": "MC_Geoloc", "cfg": "Gen_Geoloc.cfg", "cfg_thorough": "Gen_Geoloc_T.cfg", "behaviours": True},
          "expect": ["SameTypeAndVertices", "VerticesAtTheirGroundLocation", "ElevationOfModelOrSurface", "BoundingBoxOfTheCorners",
                     "NothingInvented", "CenterAtItsGroundLocation", "PropertiesAndImageGeometryKept", "OtherFeaturesUntouched"]},
         {"name": "real", "drive": drive_real, "trace": "Tr_Geoloc", "expect": ["RealModelLocation", "RealElevation"]}]
ASSUMPTIONS = ["the stub ground models are at most quadratic in the image coordinates, for which the grid error is bounded exactly; real models are given half a pixel",
               "the center_longitude and center_latitude properties are additions, as documented in the code"]
