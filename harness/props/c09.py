"""C09: elevations come from the store alone: history, cache, voids and missing tiles."""
import gc
import os
import weakref
from math import radians, degrees

from vlib import q

W, H = 9, 9                 # posts per tile, one degree cells, post spacing 1/8 degree
LON0 = {"A": 10, "B": 11, "C": 12, "M": 13}
LAT0 = 40
# tile names: the part that tells tiles apart may be the directory, the file name or the extension
SCHEMES = [lambda k: k, lambda k: "%03de/40n.dt2" % LON0[k], lambda k: "40n/%03de.dt2" % LON0[k], lambda k: "dem40.%d" % LON0[k]]


def make_grid(rng, void=False, w=W, h=H):
    g = rng.integers(-200, 900, size=(h, w))
    if void:
        for _ in range(4):
            g[int(rng.integers(0, h)), int(rng.integers(0, w))] = -999
    return g


def store_json(grids, nd):
    out = {}
    for k, g in grids.items():
        if g is None:
            out[k] = {"grid": [], "hasnd": False, "nodata": 0}
        else:
            out[k] = {"grid": [[int(v) for v in row] for row in g], "hasnd": nd[k] is not None, "nodata": int(nd[k] or 0)}
    return out


class Store:
    """A tile set and tile factory built on the public extension points, with integer posts in memory."""

    def __init__(self, grids, nd, scheme=0):
        from aws.osml.photogrammetry import (DigitalElevationModelTileFactory, DigitalElevationModelTileSet,
                                             ElevationRegionSummary, GDALAffineSensorModel)
        outer = self
        self.loads, self.refs = 0, []
        name = {k: SCHEMES[scheme % len(SCHEMES)](k) for k in LON0}
        back = {v: k for k, v in name.items()}

        class TS(DigitalElevationModelTileSet):
            def find_tile_id(self, c):
                lo = int(degrees(c.longitude) // 1)
                for k, v in LON0.items():
                    if v == lo:
                        return name[k]
                return None

        class TF(DigitalElevationModelTileFactory):
            def get_tile(self, path):
                outer.loads += 1
                path = back[path]
                g = grids.get(path)
                if g is None:
                    return None, None, None
                # grid location 0,0 is the north west post
                sm = GDALAffineSensorModel([LON0[path], 1 / 8, 0.0, LAT0 + 1, 0.0, -1 / 8])
                outer.refs.append(weakref.ref(sm))
                v = g[g != nd[path]] if nd[path] is not None else g
                return g.astype(float), sm, ElevationRegionSummary(float(v.min()), float(v.max()), nd[path], 30.0)

        self.ts, self.tf = TS(), TF()

    def alive(self):
        gc.collect()
        return sum(1 for r in self.refs if r() is not None)


def ask(ctx, dem, st, tile, x8, y8, before, lon_of=None):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    lon = (LON0[tile] if tile else 20) + x8 / 64.0
    lat = LAT0 + 1 - y8 / 64.0
    rec = dict(tile=tile, x8=x8, y8=y8, before=before)
    try:
        c = GeodeticWorldCoordinate([radians(lon), radians(lat), before / 64.0])
        lo, la = c.longitude, c.latitude
        n = st.loads if st else 0
        dem.set_elevation(c)
        ctx.add("elev", st="ok", after=q(c.elevation, 64), moved=bool(c.longitude != lo or c.latitude != la),
                loads=(st.loads - n) if st else -1, **rec)
    except Exception as e:
        ctx.add("elev", st="exc", err=repr(e)[:200], **rec)


def ask_summary(ctx, dem, tile, spacing=None):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    try:
        s = dem.describe_region(GeodeticWorldCoordinate([radians(LON0[tile] + 0.5), radians(LAT0 + 0.5), 0.0]))
        if s is None:
            ctx.add("summary", st="ok", tile=tile, present=False, lo=0, hi=0, nd=0, spacing=0)
        else:
            sp = 0 if spacing is None else q(abs(s.post_spacing - spacing) / spacing, 1e6)
            ctx.add("summary", st="ok", tile=tile, present=True, lo=q(s.min_elevation, 64), hi=q(s.max_elevation, 64),
                    nd=q(s.no_data_value if s.no_data_value is not None else 0), spacing=sp)
    except Exception as e:
        ctx.add("summary", st="exc", tile=tile, err=repr(e)[:200])


def drive_histories(ctx):
    """Replay every history TLC generated."""
    from aws.osml.photogrammetry import DigitalElevationModel
    rng = ctx.rng(1)
    grids = {"A": make_grid(rng), "B": make_grid(rng, True), "C": make_grid(rng), "M": None}
    nd = {"A": None, "B": -999, "C": -32767, "M": None}
    sj = store_json(grids, nd)
    gen = ctx.gen
    if not ctx.thorough:
        idx = rng.permutation(len(gen))[:1200]
        gen = [gen[int(i)] for i in idx]
    else:
        idx = rng.permutation(len(gen))[:9000]
        gen = [gen[int(i)] for i in idx]
    for i, b in enumerate(gen):
        st = Store(grids, nd, i)
        dem = DigitalElevationModel(st.ts, st.tf, raster_cache_size=b["cap"])
        ctx.add("new", cap=b["cap"], store=sj)
        for t in b["h"]:
            ask(ctx, dem, st, t, int(rng.integers(1, 63)), int(rng.integers(1, 63)), int(rng.integers(-6400, 6400)))
        ctx.add("alive", alive=st.alive())
    good = [e for e in ctx.rec.events if e["op"] == "elev" and e["tile"] == "A"][0]
    ctx.corrupt = [ctx.rec.events[0], dict(good, after=good["after"] + 1), dict(good, moved=True)]
    ctx.corrupt_idx = [1, 2]


def drive_random(ctx):
    """Long random histories on fresh random stores, every grid fraction, edges, voids."""
    from aws.osml.photogrammetry import DigitalElevationModel
    rng = ctx.rng(2)
    for rep in range(ctx.n(12, 120)):
        names = list("ABC")
        grids = {k: make_grid(rng, rng.random() < 0.5, int(rng.integers(2, 10)), int(rng.integers(2, 10))) for k in names}
        grids["M"] = None
        nd = {k: (-999 if (g is not None and (g == -999).any()) else (None if rng.random() < 0.5 else -32767))
              for k, g in grids.items()}
        st = Store(grids, nd, rep)
        cap = int(rng.integers(1, 5))
        dem = DigitalElevationModel(st.ts, st.tf, raster_cache_size=cap) if rep % 3 else DigitalElevationModel(st.ts, st.tf)
        if rep % 3 == 0:
            cap = 10
        ctx.add("new", cap=cap, store=store_json(grids, nd))
        for _ in range(ctx.n(60, 150)):
            t = ["A", "B", "C", "M", ""][int(rng.integers(0, 5))]
            if rng.random() < 0.15 and t:
                ask_summary(ctx, dem, t)
            else:
                ask(ctx, dem, st, t, int(rng.integers(1, 64)), int(rng.integers(0, 64)), int(rng.integers(-6400, 6400)))
        ctx.add("alive", alive=st.alive())


def write_tif(path, g, gt, nd=None, proj=True):
    from osgeo import gdal, osr
    import numpy as np
    ds = gdal.GetDriverByName("GTiff").Create(path, g.shape[1], g.shape[0], 1, gdal.GDT_Int16)
    if gt is not None:
        ds.SetGeoTransform(gt)
        sr = osr.SpatialReference()
        sr.ImportFromEPSG(4326)
        ds.SetProjection(sr.ExportToWkt())
    ds.GetRasterBand(1).WriteArray(g.astype(np.int16))
    if nd is not None:
        ds.GetRasterBand(1).SetNoDataValue(nd)
    ds.FlushCache()
    ds = None


def drive_files(ctx):
    """GeoTIFF tiles on disk through the GDAL tile factory; missing, truncated and unreferenced files; both GDAL error modes."""
    import numpy as np
    from osgeo import gdal
    from aws.osml.gdal import GDALDigitalElevationModelTileFactory
    from aws.osml.photogrammetry import (DigitalElevationModel, GenericDEMTileSet, GeodeticWorldCoordinate, SRTMTileSet,
                                         geodetic_to_geocentric)
    rng = ctx.rng(3)
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    for rep in range(ctx.n(6, 40)):
        d = os.path.join(ctx.work, "dem%d" % rep)
        os.makedirs(d + "/sub")
        for v in LON0.values():
            os.makedirs(d + "/%03de" % v)
        srtm = rep % 2 == 0
        ts = SRTMTileSet(prefix="sub/") if srtm else GenericDEMTileSet(format_spec="%od%oh/%ld%lh.tif")
        name = (lambda k: "sub/n40_e%03d_1arc_v3.tif" % LON0[k]) if srtm else (lambda k: "%03de/40n.tif" % LON0[k])
        grids = {k: make_grid(rng, k == "B") for k in "ABC"}
        nd = {"A": None, "B": -999, "C": -32767}
        kind = ["missing", "truncated", "nogeo", "garbage"][rep % 4]
        for k in "ABC":
            # posts on whole 1/8 degrees: the north west post is the north west corner of the cell, at a pixel centre
            write_tif(os.path.join(d, name(k)), grids[k], (LON0[k] - 1 / 16, 1 / 8, 0, LAT0 + 1 + 1 / 16, 0, -1 / 8), nd[k])
        mp = os.path.join(d, name("M"))
        if kind == "nogeo":
            write_tif(mp, grids["A"], None)
        elif kind == "garbage":
            open(mp, "wb").write(b"not a raster at all")
        elif kind == "truncated":
            # header and directory intact, pixels cut off
            src = open(os.path.join(d, name("A")), "rb").read()
            big = np.arange(200 * 200).reshape(200, 200) % 100
            write_tif(mp, big, (LON0["M"] - 1 / 16, 1 / 200, 0, LAT0 + 1 + 1 / 16, 0, -1 / 200))
            raw = open(mp, "rb").read()
            import struct
            off = struct.unpack("<I", raw[4:8])[0]
            if off < 2000:
                open(mp, "wb").write(raw[:off + 1500])
            else:
                # directory at the end: move it forward is not possible here, so drop the file entirely
                os.remove(mp)
        (gdal.UseExceptions if (rep // 2) % 2 else gdal.DontUseExceptions)()
        grids["M"], nd["M"] = None, None
        dem = DigitalElevationModel(ts, GDALDigitalElevationModelTileFactory(d), raster_cache_size=2)
        ctx.add("new", cap=2, store=store_json(grids, nd), kind=kind)
        for _ in range(ctx.n(60, 120)):
            t = "ABCM"[int(rng.integers(0, 4))]
            if rng.random() < 0.2:
                lon = LON0[t]
                a = geodetic_to_geocentric(GeodeticWorldCoordinate([radians(lon), radians(41), 0])).coordinate
                b = geodetic_to_geocentric(GeodeticWorldCoordinate([radians(lon + 1), radians(40), 0])).coordinate
                ask_summary(ctx, dem, t, float(np.linalg.norm(a - b) / (8 * np.sqrt(2))))
            else:
                ask(ctx, dem, None, t, int(rng.integers(1, 64)), int(rng.integers(1, 64)), int(rng.integers(-6400, 6400)))
    gdal.DontUseExceptions()
    # a full size one degree tile with a single peak and a single pit
    d = os.path.join(ctx.work, "big")
    os.makedirs(d)
    g = np.full((1201, 1201), 100)
    g[603, 777], g[5, 7] = 5000, -400
    write_tif(os.path.join(d, "n40_e010_1arc_v3.tif"), g, (10 - .5 / 1200, 1 / 1200, 0, 41 + .5 / 1200, 0, -1 / 1200))
    dem = DigitalElevationModel(SRTMTileSet(), GDALDigitalElevationModelTileFactory(d))
    try:
        s = dem.describe_region(GeodeticWorldCoordinate([radians(10.5), radians(40.5), 0.0]))
        ctx.add("bigsummary", st="ok", tile="peak-1201x1201", lo=q(s.min_elevation, 64), hi=q(s.max_elevation, 64),
                minpost=-400, maxpost=5000)
    except Exception as e:
        ctx.add("bigsummary", st="exc", tile="peak-1201x1201", err=repr(e)[:200])


MODELS = [{"module": "MC_Dem", "cfg": "MC_Dem.cfg", "cfg_thorough": "MC_Dem_T.cfg", "min_states": 1000}]
PARTS = [
    {"name": "histories", "drive": drive_histories, "trace": "Tr_Dem",
     "gen": {"module": "MC_Dem", "cfg": "Gen_Dem.cfg", "cfg_thorough": "Gen_Dem_T.cfg", "behaviours": True},
     "expect": ["ElevationDependsOnlyOnLocation", "RecentTileNotReloaded", "UnchangedWithoutCoverage", "CacheBounded"]},
    {"name": "random", "drive": drive_random, "trace": "Tr_Dem", "expect": ["SummaryBoundsEveryPost"]},
    {"name": "files", "drive": drive_files, "trace": "Tr_Dem",
     "expect": ["ElevationDependsOnlyOnLocation", "SummaryBoundsEveryPost", "NoSummaryWithoutCoverage", "SummaryPostSpacing"]},
]
ASSUMPTIONS = ["the tile store does not change while a model is in use",
               "grid lines touching a void post may keep the old elevation or take the interpolated one"]
