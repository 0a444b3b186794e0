"""C22: image geometry of features."""
import copy
import json

PROPS = ["imageGeometry", "imageBBox", "geom_imcoords", "detection", "bounds_imcoords"]


def shapes(rng, k):
    """Geometries by kind; integer and fractional coordinates."""
    import shapely
    x, y = [float(v) for v in rng.integers(-50, 5000, 2) + (0 if k % 2 else rng.integers(1, 64, 2) / 64)]  # geojson keeps 6 decimals
    w, h = [float(v) for v in rng.integers(5, 200, 2)]
    tri = [(x, y), (x + w, y + 1), (x + w / 4, y + h), (x, y)]
    box = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
    hole = [(x + 1, y + 1), (x + 2, y + 1), (x + 2, y + 2), (x + 1, y + 1)]
    return {
        "Polygon": shapely.Polygon(tri), "Box": shapely.Polygon(box), "Holed": shapely.Polygon(box, [hole]),
        "Point": shapely.Point(x, y), "LineString": shapely.LineString(tri[:3]), "MultiPoint": shapely.MultiPoint(tri[:3]),
        "MultiLineString": shapely.MultiLineString([tri[:2], box[:4]]),
        "MultiPolygon": shapely.MultiPolygon([shapely.Polygon(tri), shapely.Polygon([(a + 1000, b) for a, b in box])]),
        "GeometryCollection": shapely.GeometryCollection([shapely.Point(x, y), shapely.Polygon(tri)])}


BAD = {
    "imageGeometry": [None, "text", 3, [], {}, {"type": "Point"}, {"type": "Nope", "coordinates": [1, 2]}, {"type": "Polygon", "coordinates": "abc"},
                      {"type": "Polygon", "coordinates": [[[0, 0], [1, 1]]]}, {"type": "Point", "coordinates": []}, {"type": None, "coordinates": [1, 2]},
                      {"coordinates": [1, 2]}, {"type": "Polygon", "coordinates": []}, {"type": "LineString", "coordinates": [[1, 2]]}],
    "imageBBox": [None, [1, 2, 3], "abcd", [], {}, {"a": 1}, [1, None, 2, 3], 7, ["a", "b", "c", "d"], [[1, 2], [3, 4]]],
    "geom_imcoords": [None, [], "x", [[0, 0], [1, 1]], 5, [None], {"a": 1}, [["a", "b"], [1, 2], [3, 4], [5, 6]]],
    "detection": [{"type": "Point", "pixelCoordinates": None}, {"pixelCoordinates": [1, 2]}, {"type": "Nope", "pixelCoordinates": [1, 2]},
                  {"type": "Polygon", "pixelCoordinates": [1, 2]}, {"type": "Point", "pixelCoordinates": []}, {"type": 5, "pixelCoordinates": [1, 2]}],
    "bounds_imcoords": [None, [1], 5, "abcd", [], {}, [None] * 4],
}
NOPIX = [None, "pixelCoordinates", [1], {"type": "Point"}, {}, 3, ["pixelCoordinates"]]


def encode(p, g):
    import shapely
    m = json.loads(json.dumps(shapely.geometry.mapping(g)))
    if p == "imageGeometry":
        return m
    if p in ("imageBBox", "bounds_imcoords"):
        return list(g.bounds)
    if p == "geom_imcoords":
        return [list(c) for c in g.exterior.coords]
    return {"type": m["type"], "pixelCoordinates": m["coordinates"], "score": 0.5}


def names(found, G):
    import shapely
    if found is None:
        return [["none", "none"]]
    out = []
    for k, g in G.items():
        if found.equals_exact(g) and found.geom_type == g.geom_type:
            out.append(["full", k])
        b = shapely.box(*g.bounds)
        if found.geom_type == "Polygon" and found.bounds == b.bounds and not found.interiors \
                and set(found.exterior.coords) == set(b.exterior.coords):
            out.append(["box", k])
        if g.geom_type == "Polygon" and found.geom_type == "Polygon" and found.equals_exact(shapely.Polygon(g.exterior)):
            out.append(["ring", k])
    return out or [["other", found.wkt[:60]]]


class Feature:
    def __init__(self, ctx, md, dep, G, k, plain):
        import geojson
        from aws.osml.features import ImagedFeaturePropertyAccessor
        self.ctx, self.dep, self.G = ctx, dep, G
        self.acc = ImagedFeaturePropertyAccessor(allow_deprecated=dep) if not dep or k % 2 else ImagedFeaturePropertyAccessor()
        props = {"score": .25, "label": ["a", {"b": None}]}
        for i, p in enumerate(PROPS):
            v = md[p]
            if v == "bad":
                props[p] = copy.deepcopy(BAD[p][(k + i) % len(BAD[p])])
            elif v == "nopixels":
                props[p] = copy.deepcopy(NOPIX[(k + i) % len(NOPIX)])
            elif v != "absent":
                props[p] = encode(p, G[v])
        self.given = copy.deepcopy(props)
        f = geojson.Feature(id="f1", geometry=None if k % 3 else geojson.Point((1., 2.)), properties=props)
        self.f = geojson.loads(geojson.dumps(f)) if plain else f
        self.other = self.rest()
        self.emit("start", md=md, given=json.dumps({p: props.get(p, "absent") for p in PROPS})[:300])

    def rest(self):
        d = json.loads(json.dumps(self.f))
        det = d["properties"].get("detection")
        for p in PROPS:
            d["properties"].pop(p, None)
        if isinstance(det, dict):
            d["det"] = {a: b for a, b in det.items() if a not in ("type", "pixelCoordinates")}
        return d

    def emit(self, op, err=None, **kw):
        if err is not None:
            self.ctx.add(op, st=err, dep=self.dep, **kw)
            return
        try:
            before = json.dumps(self.f)
            found = self.acc.find_image_geometry(self.f)
            a, b = self.acc.get_image_geometry(self.f), self.acc.get_image_bbox(self.f)
            pure = before == json.dumps(self.f)
            self.ctx.add(op, st="ok", dep=self.dep, find=names(found, self.G), geom=names(a, self.G), bbox=names(b, self.G), pure=pure,
                         rest=self.rest() == self.other, present={p: p in self.f["properties"] for p in PROPS}, **kw)
        except Exception as e:
            self.ctx.add(op, st=repr(e)[:200], dep=self.dep, **kw)

    def step(self, s):
        op, p, g = s
        try:
            if op == "set":
                (self.acc.set_image_geometry if p == "imageGeometry" else self.acc.set_image_bbox)(self.f, self.G[g])
            else:
                self.acc.update_existing_image_geometries(self.f, self.G[g])
        except Exception as e:
            self.emit(op, err=repr(e)[:200], prop=p, g=g)
            return
        self.emit(op, prop=p, g=g)


def pick(rng, k, md, hist):
    """Three geometries of kinds that the properties present can hold."""
    ring = md["geom_imcoords"] != "absent"
    det = md["detection"] not in ("absent", "nopixels")
    kinds = ["Polygon", "Box"] if ring else ["Polygon", "Box", "Holed", "Point", "LineString", "MultiPoint", "MultiLineString", "MultiPolygon"]
    if not ring and not det:
        kinds.append("GeometryCollection")
    if not ring:
        kinds = [kinds[(k + j) % len(kinds)] for j in range(3)]
    return {"g%d" % (j + 1): shapes(rng, k + j)[kinds[(k + j) % len(kinds)]] for j in range(3)}


def drive(ctx):
    rng = ctx.rng(2200)
    for k, g in enumerate(ctx.gen):
        f = Feature(ctx, g["md"], g["dep"], pick(rng, k, g["md"], g["hist"]), k, k % 4 == 0)
        for s in g["hist"]:
            f.step(s)
    # every malformed value of every property alone and above a usable deprecated one
    for p in PROPS:
        for i, v in enumerate(BAD[p] + (NOPIX if p == "detection" else [])):
            for below in (False, True):
                md = {x: "absent" for x in PROPS}
                md[p] = "bad" if i < len(BAD[p]) else "nopixels"
                if below and p != "bounds_imcoords":
                    md["bounds_imcoords"] = "g1"
                k = (i if i < len(BAD[p]) else i - len(BAD[p])) - PROPS.index(p)
                n = len(BAD[p]) if i < len(BAD[p]) else len(NOPIX)
                f = Feature(ctx, md, True, pick(rng, i, md, []), k % n + n * 6, False)
                f.step(["update", "", "g2"])
    # long histories
    for k in range(ctx.n(60, 1200)):
        md = {p: ["absent", "bad", "g1"][int(rng.integers(0, 3))] for p in PROPS}
        dep = bool(rng.integers(0, 2))
        f = Feature(ctx, md, dep, pick(rng, k, md, []), k, k % 2 == 0)
        for _ in range(int(rng.integers(2, 9))):
            f.step([["set", "imageGeometry"], ["set", "imageBBox"], ["update", ""]][int(rng.integers(0, 3))] + ["g%d" % int(rng.integers(1, 4))])
    ev = ctx.rec.events
    i = next(i for i, e in enumerate(ev) if e["op"] == "start" and e["st"] == "ok" and e["find"][0][0] != "none")
    ctx.corrupt = [dict(ev[i], find=[["none", "none"]]), dict(ev[i], rest=False)]


MODELS = [{"module": "MC_Feature", "cfg": "MC_Feature.cfg", "cfg_thorough": "MC_Feature_T.cfg", "min_states": 500}]
PARTS = [{"name": "accessor", "drive": drive, "trace": "Tr_Feature",
          "gen": {"module": "MC_Feature", "cfg": "Gen_Feature.cfg", "cfg_thorough": "Gen_Feature_T.cfg", "behaviours": True},
          "expect": ["FoundInTheDocumentedOrder", "ReadBackAsSet", "EverythingElseUnchanged", "NoPropertyAppearsOrDisappears", "ReadingChangesNothing"]}]
ASSUMPTIONS = ["geom_imcoords can only hold a polygon without holes and detection no geometry collection, so updates are only made with what the properties present can hold",
               "an empty geometry counts as unusable"]
