"""C23: the spatial index of features."""
import copy
import json

S = 8  # grid units per coordinate unit (coordinates are exact binary fractions)


def box(a, b, c, d):
    return [[a, b], [c, b], [c, d], [a, d]]


def build(kind, rng, lim):
    """A geometry of one kind: (shapely geometry, convex pieces in grid units, only boxes?)"""
    import shapely
    def c(p):
        return (p[0] / S, p[1] / S)
    x, y = [int(v) for v in rng.integers(0, lim, 2)]
    w, h, u, v = [int(t) for t in rng.integers(1, max(3, lim // 6), 4)]
    if kind == "Point":
        return shapely.Point(c((x, y))), [[[x, y]]], True
    if kind == "HLine":
        return shapely.LineString([c((x, y)), c((x + w, y)), c((x + w, y + h))]), [box(x, y, x + w, y), box(x + w, y, x + w, y + h)], True
    if kind == "Slant":
        return shapely.LineString([c((x, y)), c((x + w, y + h)), c((x + w + u, y - v))]), [[[x, y], [x + w, y + h]], [[x + w, y + h], [x + w + u, y - v]]], False
    if kind == "Box":
        return shapely.box(*c((x, y)), *c((x + w, y + h))), [box(x, y, x + w, y + h)], True
    if kind == "Triangle":
        t = [[x, y], [x + w, y - v], [x + u, y + h]]
        return shapely.Polygon([c(p) for p in t]), [t], False
    if kind == "L":
        ring = [(x, y), (x + w + u, y), (x + w + u, y + h), (x + w, y + h), (x + w, y + h + v), (x, y + h + v)]
        return shapely.Polygon([c(p) for p in ring]), [box(x, y, x + w + u, y + h), box(x, y, x + w, y + h + v)], True
    if kind == "Holed":
        o, i = (x, y, x + w + u + 2, y + h + v + 2), (x + 1, y + 1, x + 1 + w, y + 1 + h)
        g = shapely.Polygon([c(p) for p in box(*o)], [[c(p) for p in box(*i)]])
        return g, [box(o[0], o[1], i[0], o[3]), box(i[2], o[1], o[2], o[3]), box(o[0], o[1], o[2], i[1]), box(o[0], i[3], o[2], o[3])], True
    if kind == "MultiPoint":
        ps = [[x, y], [x + w, y + h], [x - u, y + v]]
        return shapely.MultiPoint([c(p) for p in ps]), [[p] for p in ps], True
    if kind == "MultiLineString":
        ls = [[[x, y], [x + w, y + h]], [[x + u, y], [x + u, y + v]]]
        return shapely.MultiLineString([[c(p) for p in m] for m in ls]), ls, False
    if kind == "MultiPolygon":
        b1, b2 = (x, y, x + w, y + h), (x + w + 1, y + h + 1, x + w + 1 + u, y + h + 1 + v)
        return shapely.MultiPolygon([shapely.box(*[t / S for t in b]) for b in (b1, b2)]), [box(*b1), box(*b2)], True
    if kind == "Collection":
        a, b = build("Triangle", rng, lim), build("Point", rng, lim)
        return shapely.GeometryCollection([a[0], b[0]]), a[1] + b[1], False
    if kind == "Empty":
        return shapely.Polygon(), [], True
    return None, [], True


KINDS = ["Point", "HLine", "Slant", "Box", "Triangle", "L", "Holed", "MultiPoint", "MultiLineString", "MultiPolygon", "Collection", "Empty", "None"]


def from_pieces(g, rng):
    """The shapely geometry of pieces enumerated by TLC."""
    import shapely
    def one(p):
        p = [tuple(float(c) for c in v) for v in p]
        return shapely.Point(p[0]) if len(set(p)) == 1 else shapely.LineString(p) if len(p) == 2 else \
            shapely.Polygon(p) if shapely.Polygon(p).area else shapely.LineString([min(p), max(p)])
    if not g:
        return None if rng.integers(0, 2) else shapely.Polygon()
    ps = [one(p) for p in g]
    return ps[0] if len(ps) == 1 else shapely.GeometryCollection(ps)


def feature(i, geom, space, style, decoy):
    """A feature with the geometry in the given space, and possibly a decoy in the other."""
    import geojson
    import shapely
    props = {"n": i, "tag": ["x", {"y": None}]}
    world = None
    g = json.loads(shapely.to_geojson(geom)) if geom is not None else None
    d = json.loads(shapely.to_geojson(decoy)) if decoy is not None else None
    if space == "image":
        world = d
        if g is not None:
            rect = geom.geom_type == "Polygon" and not geom.is_empty and geom.equals(shapely.box(*geom.bounds))
            if rect and style % 4 == 1:
                props["imageBBox"] = list(geom.bounds)
            elif rect and style % 4 == 2:
                props["bounds_imcoords"] = list(geom.bounds)
            elif g["type"] == "Polygon" and len(g["coordinates"]) == 1 and style % 4 == 3:
                props["geom_imcoords"] = g["coordinates"][0]
            elif g["type"] != "GeometryCollection" and style % 8 == 4:
                props["detection"] = {"type": g["type"], "pixelCoordinates": g["coordinates"]}
            else:
                props["imageGeometry"] = g
    else:
        world = g
        if d is not None:
            props["imageGeometry"] = d
    f = geojson.Feature(geometry=world, properties=props)
    if style % 3 == 0:
        f["id"] = "same"
    return f


class Session:
    def __init__(self, ctx, feats, pieces, space, plain, how):
        import geojson
        from aws.osml.features import ImagedFeaturePropertyAccessor, STRFeature2DSpatialIndex
        self.ctx, self.space = ctx, space
        fc = geojson.FeatureCollection(feats)
        if plain:
            fc = geojson.loads(json.dumps(fc))
        self.before = [json.dumps(f, sort_keys=True) for f in fc.features]
        self.fc = fc
        try:
            if space == "image":
                self.ix = [lambda: STRFeature2DSpatialIndex(fc), lambda: STRFeature2DSpatialIndex(fc, True, ImagedFeaturePropertyAccessor(True)),
                           lambda: STRFeature2DSpatialIndex(fc, use_image_geometries=True)][how % 3]()
            else:
                self.ix = [lambda: STRFeature2DSpatialIndex(fc, False), lambda: STRFeature2DSpatialIndex(fc, use_image_geometries=False, property_accessor=ImagedFeaturePropertyAccessor(False)),
                           lambda: STRFeature2DSpatialIndex(fc, False, None)][how % 3]()
            st = "ok"
        except Exception as e:
            st, self.ix = repr(e)[:200], None
        ctx.add("index", st=st, gs=pieces, space=space)

    def ask(self, op, geom, pieces, mx=None, unit=S):
        if self.ix is None:
            return
        kw = {"q": pieces, "space": self.space}
        if op == "nearest":
            kw.update(max=-1 if mx is None else mx, unit=unit)
        try:
            r = self.ix.find_intersects(geom) if op == "query" else self.ix.find_nearest(geom) if mx is None else self.ix.find_nearest(geom, mx / S)
            r = list(r)
            got = [int(f["properties"]["n"]) for f in r]
            same = [json.dumps(f, sort_keys=True) for f in self.fc.features] == self.before and \
                all(json.dumps(f, sort_keys=True) == self.before[n - 1] for f, n in zip(r, got))
            self.ctx.add(op, st="ok", got=got, same=same, **kw)
        except Exception as e:
            self.ctx.add(op, st=repr(e)[:200], **kw)


def drive_small(ctx):
    import shapely
    rng = ctx.rng(2300)
    decoys = [None, shapely.box(-9, -9, 99, 99), shapely.Point(1, 1)]
    for k, b in enumerate(ctx.gen):
        feats = [feature(i + 1, from_pieces(g, rng), b["space"], k + i, decoys[(k + i) % 3]) for i, g in enumerate(b["gs"])]
        s = Session(ctx, feats, b["gs"], b["space"], k % 2 == 0, k)
        s.ask("query", from_pieces(b["q"], rng), b["q"])
    ev = ctx.rec.events
    i = next(i for i, e in enumerate(ev) if e["op"] == "query" and e["st"] == "ok" and len(e["got"]) == 2)
    ctx.corrupt = [ev[i - 1], dict(ev[i], got=[ev[i]["got"][0]]), dict(ev[i], got=ev[i]["got"] * 2), dict(ev[i], same=False)]
    ctx.corrupt_idx = [1, 2, 3]


def drive_large(ctx):
    import shapely
    rng = ctx.rng(2301)
    sizes = [0, 1, 3, 9, 10, 11, 12, 40, 101, 150] + ([250, 400] if ctx.thorough else [])
    for rep in range(ctx.n(2, 12)):
        for n in sizes:
            for space in ("image", "world"):
                boxes = bool(rng.integers(0, 2))
                lim = int([60, 400, 3000][int(rng.integers(0, 3))])
                kinds = [k for k in KINDS if not boxes or k not in ("Slant", "Triangle", "MultiLineString", "Collection")]
                feats, pieces, geoms = [], [], []
                for i in range(n):
                    g, p, _ = build(kinds[int(rng.integers(0, len(kinds)))], rng, lim)
                    d = build("Box", rng, lim)[0] if rng.integers(0, 2) else None
                    feats.append(feature(i + 1, g, space, int(rng.integers(0, 24)), d))
                    pieces.append(p)
                    geoms.append((g, p))
                s = Session(ctx, feats, pieces, space, bool(rng.integers(0, 2)), int(rng.integers(0, 3)))
                for t in range(ctx.n(8, 12)):
                    g, p, _ = build(KINDS[int(rng.integers(0, 12))], rng, lim)
                    if geoms and t % 4 == 3:   # one of the indexed geometries itself
                        g, p = geoms[int(rng.integers(0, n))]
                        g = shapely.Point() if g is None else g
                    s.ask("query", g, p)
                if boxes:
                    for t in range(ctx.n(4, 8)):
                        g, p, _ = build(["Point", "Box", "L", "MultiPoint", "Holed"][int(rng.integers(0, 5))], rng, lim)
                        s.ask("nearest", g, p, [None, int(rng.integers(1, lim)), 30000][int(rng.integers(0, 3))])
                s.ask("query", shapely.box(-500, -500, 1000, 1000), [box(-4000, -4000, 8000, 8000)])


MODELS = [{"module": "MC_Index", "cfg": "MC_Index.cfg", "cfg_thorough": "MC_Index_T.cfg", "min_states": 2000}]
PARTS = [{"name": "small", "drive": drive_small, "trace": "Tr_Index",
          "gen": {"module": "MC_Index", "cfg": "Gen_Index.cfg", "cfg_thorough": "Gen_Index_T.cfg", "behaviours": True},
          "expect": ["EveryIntersectingFeature", "NoOtherFeature", "EachOnce", "Unmodified"]},
         {"name": "large", "drive": drive_large, "trace": "Tr_Index",
          "expect": ["EveryIntersectingFeature", "NoOtherFeature", "EachOnce", "Unmodified", "NearestExactly"]}]
ASSUMPTIONS = ["geometries are valid and have coordinates that are binary fractions, so intersection is exact",
               "nearest queries compare axis-parallel geometries only; without a maximum distance only features within one unit must be found"]
