"""C08: the elevation tile named for a location is the tile that contains it."""
from math import radians


def make(la, lo):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    return GeodeticWorldCoordinate([radians(lo / 3.6e6), radians(la / 3.6e6), 0.0])


OFFS = (0, 1, 500, 1800000, 3599500, 3599999)


def locations(ctx, n):
    rng = ctx.rng(8)
    out = []
    # every one-degree row and every one-degree column of the globe, at interior and edge offsets
    for la in range(-90, 90):
        for off in OFFS:
            out.append((la * 3600000 + off, int(rng.integers(-180, 180)) * 3600000 + OFFS[int(rng.integers(0, 6))]))
    for lo in range(-180, 180):
        for off in OFFS:
            out.append((int(rng.integers(-90, 90)) * 3600000 + OFFS[int(rng.integers(0, 6))], lo * 3600000 + off))
    for _ in range(n):
        out.append((int(rng.integers(-90 * 3600000, 90 * 3600000)), int(rng.integers(-180 * 3600000, 180 * 3600000))))
    return out


def drive_srtm(ctx):
    from aws.osml.photogrammetry import SRTMTileSet
    sets = [("", "1arc_v3", ".tif", SRTMTileSet()),
            ("srtm/", "3arc_v2", ".dt1", SRTMTileSet(prefix="srtm/", version="3arc_v2", format_extension=".dt1"))]
    for i, (la, lo) in enumerate(locations(ctx, ctx.n(1500, 30000))):
        p, v, x, ts = sets[i % 2]
        try:
            c = make(la, lo)
            r = ts.find_tile_id(c)
            ctx.add("srtm", st="ok", lat=la, lon=lo, prefix=p, version=v, ext=x, id="" if r is None else str(r))
        except Exception as e:
            ctx.add("srtm", st="exc", lat=la, lon=lo, err=repr(e)[:200])
    g = ctx.rec.events[900]
    ctx.corrupt = [dict(g, id="n00_e000_1arc_v3.tif"), dict(g, lat=-g["lat"] - 7200000)]


GEN_FMTS = ["%od%oh/%ld%lh.dt2", "%ld%lH%od%oH.tif", "dem_%lH%ld_%oH%od%%.dt1"]


def drive_generic(ctx):
    from aws.osml.photogrammetry import GenericDEMTileSet
    lims = [(-90, 90, -180, 180), (-56, 59, -180, 180), (0, 45, -100, 20), (-10, -10, 5, 5)]
    sets = []
    for f in GEN_FMTS:
        for (a, b, c, d) in lims:
            kw = dict(format_spec=f, min_latitude_degrees=float(a), max_latitude_degrees=float(b),
                      min_longitude_degrees=float(c), max_longitude_degrees=float(d))
            if f == GEN_FMTS[0] and (a, b, c, d) == lims[0]:
                kw = {}
            sets.append((f, a, b, c, d, GenericDEMTileSet(**kw)))
    rng = ctx.rng(9)
    locs = locations(ctx, ctx.n(1500, 30000))
    # dense probing of the configured limits
    for (a, b, c, d) in lims:
        for la in (a - 1, a, b, b + 1):
            for lo in (c - 1, c, d, d + 1):
                if -90 <= la < 90 and -180 <= lo < 180:
                    locs.append((la * 3600000 + 1800000, lo * 3600000 + 1800000))
    n0 = len(locs) - 64
    for i, (la, lo) in enumerate(locs):
        for j in ([int(rng.integers(0, 4)), 4 + int(rng.integers(0, 8))] if i < n0 else range(len(sets))):
            f, a, b, c, d, ts = sets[j]
            try:
                r = ts.find_tile_id(make(la, lo))
                ctx.add("generic", st="ok", lat=la, lon=lo, fmt=list(f), minlat=a, maxlat=b, minlon=c, maxlon=d,
                        id="" if r is None else str(r))
            except Exception as e:
                ctx.add("generic", st="exc", lat=la, lon=lo, err=repr(e)[:200])
    g = next(e for e in ctx.rec.events if e["st"] == "ok" and e["id"])
    ctx.corrupt = [dict(g, id=""), dict(g, lat=-g["lat"] - 7200000)]


MODELS = [{"module": "MC_GeoText", "min_states": 1000}]
PARTS = [
    {"name": "srtm", "drive": drive_srtm, "trace": "Tr_GeoText", "expect": ["SrtmTileContainsLocation"]},
    {"name": "generic", "drive": drive_generic, "trace": "Tr_GeoText", "expect": ["GenericTileContainsLocation"]},
]
ASSUMPTIONS = ["a location within 1e-9 degree of a cell edge may be named by either neighbouring cell",
               "coverage limits of the configurable tile set are whole degrees of the cell's south-west corner"]
