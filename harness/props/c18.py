"""C18: orthophoto map tiles."""
import math
import os

MATS = [(1, 0, 0, -1), (0, 1, 1, 0), (3, 4, 4, -3), (-1, 0, 0, -1), (1, 0, 0, 1), (1, 1, 1, -1), (2, 0, 0, -3), (5, 1, -1, -4), (0, -2, 1, 0), (4, 3, 3, -4)]
MODELS_ = ("rpc", "rpcchip", "sicd", "sidd", "igeolo", "gcp", "utm", "rot", "geoN")
BAD = 1 << 20


class View:
    """An image, its factory and the map units it is looked at in."""


def ramps(w, h, bands, axis, mode, t, blue):
    import numpy as np
    y, x = np.mgrid[0:h, 0:w]
    c = [np.round(x * 200.0 / w + 20), np.round(y * 200.0 / h + 20), np.full((h, w), float(blue))]
    if mode == "gray":
        c = [c[0] if axis == "x" else c[1]] * bands
    if mode == "shade":
        v = (x if axis == "x" else y) * 1.0
        n = w if axis == "x" else h
        scale, off = {"Byte": (200.0, 20.0), "UInt16": (3000.0, 500.0), "Int16": (6000.0, -2000.0), "Float32": (1.0, 0.0), "Float64": (1e6, 1e3)}[t]
        a = v * scale / n + off
        c = [np.round(a) if t[0] in "BUI" else a] * bands
    while len(c) < bands:
        c.append(np.full((h, w), 100.0 + len(c)))
    return [a for a in c[:bands]]


def drive(ctx, kinds, salt, quick, thorough):
    import numpy as np
    from osgeo import gdal
    import cams
    import tilelab
    from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType, SensorModelFactory, load_gdal_dataset
    from aws.osml.image_processing import GDALTileFactory
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    rng = ctx.rng(salt)
    pick = lambda s: s[int(rng.integers(0, len(s)))]

    for k in range(ctx.n(quick, thorough)):
        b = pick(ctx.gen)
        S = b["s"]
        tilelab.quiet(k % 2)
        kind = kinds[k % len(kinds)]
        affine = kind == "affine"
        mode = ("colour", "gray", "colour", "shade")[int(rng.integers(0, 4))] if kind != "sicd" else ("gray", "shade")[int(rng.integers(0, 2))]
        axis = pick(("x", "y"))
        w, h = int(rng.integers(40, 201)), int(rng.integers(40, 201))
        t = pick(("Byte", "UInt16", "Int16", "Float32", "Float64")) if mode == "shade" else pick(("Byte", "Byte", "UInt16", "Float32"))
        bands = int(rng.choice([3, 3, 4, 5])) if mode == "colour" else int(rng.choice([1, 1, 2])) if mode == "gray" else int(rng.choice([1, 3]))
        if kind == "sicd":
            bands, t, w, h = 2, "Float32", 120, 100
        elif not affine:
            t = "Float32" if t == "Float64" else t
        blue = pick((250, 0, 250))
        arrays = ramps(w, h, bands, axis, mode, t, blue)
        gt = gdal.GetDataTypeByName(t)
        ra = "NONE" if mode != "shade" else pick(("MINMAX", "DRA"))
        g = dict(kind="affine" if affine else kind, w=w, h=h, m=[0] * 7, ov=[], mode=mode, axis=axis, ra=ra, type=t, bands=bands, whole=False, blue=blue)
        path = "/vsimem/c18/s%d.%s" % (k, "ntf" if kind[-1] == "N" or kind in ("rpc", "rpcchip", "igeolo", "sicd", "sidd") else "tif")
        st = "ok"
        if affine:
            a = pick(MATS)
            D = int(rng.choice([1, 2, 5]))
            f = max(1, int(round(D * min(w, h) / S / max(map(abs, a)))))
            a = [v * f for v in a]
            if D * min(w, h) < S * max(map(abs, a)):
                D = int(math.ceil(S * max(map(abs, a)) / min(w, h)))
            m3 = (w * D - (a[0] + a[1]) * S) // 2 + int(rng.integers(-S, S + 1)) // 2
            m6 = (h * D - (a[2] + a[3]) * S) // 2 + int(rng.integers(-S, S + 1)) // 2
            g["m"] = [a[0], a[1], m3, a[2], a[3], m6, D]
            q = 10.0 ** float(rng.uniform(-5, -3))
            lon0, lat0 = float(rng.uniform(-160, 150)), float(rng.uniform(-70, 70))
            inv = np.linalg.inv(np.array([[a[0], a[1]], [a[2], a[3]]], dtype=float) / D)
            o = inv @ np.array([-m3 / D, -m6 / D])
            ds = tilelab.mem(w, h, bands, gt, arrays)
            geot = [lon0 + q * o[0], q * inv[0, 0], q * inv[0, 1], lat0 + q * o[1], q * inv[1, 0], q * inv[1, 1]]
            sm = SensorModelFactory(w, h, geo_transform=geot, proj_wkt=tilelab.srs(4326)).build()
            elev = 0.0
        else:
            px = tilelab.source(kind, path, rng, cams, w, h, arrays, bands, gt)
            try:
                ds, sm = load_gdal_dataset(path)
                cs = [sm.image_to_world(ImageCoordinate(c)) for c in ([0.0, 0.0], [w, 0.0], [0.0, h], [w, h], [w / 2, h / 2])]
                elev = cs[4].elevation
                los, las = [math.degrees(c.longitude) for c in cs], [math.degrees(c.latitude) for c in cs]
            except Exception as e:
                ds, st = None, repr(e)[:150]
            if ds is None or max(los) - min(los) > 90:
                continue
            q = max(max(los) - min(los), max(las) - min(las)) / S / (2 if k % 3 else 1)
            lon0, lat0 = (min(los) + max(los)) / 2 - q * S / 2, (min(las) + max(las)) / 2 - q * S / 2
        if int(rng.integers(0, 2)) and ds is not None:
            levels = pick(([2, 4], [2], [4, 16], [3, 9], [2, 4, 8, 16]))
            try:
                ds.BuildOverviews(pick(("NEAREST", "AVERAGE")), levels)
                g["ov"] = levels
            except Exception:
                pass
            if ds.GetRasterBand(1).GetOverviewCount() == 0:
                g["ov"] = []
        if mode == "shade" and (int(rng.integers(0, 2)) or kind == "sicd"):
            for i in range(bands):
                bd = ds.GetRasterBand(i + 1)
                x = arrays[i]
                bd.SetStatistics(float(x.min()), float(x.max()), float(x.mean()), float(x.std()))
            g["whole"] = True
        try:
            f = GDALTileFactory(ds, sm, GDALImageFormats.PNG, GDALCompressionOptions.NONE, range_adjustment=getattr(RangeAdjustmentType, ra))
        except Exception as e:
            f, st = None, repr(e)[:150]
        ctx.add("image", st=st, **g)
        if f is None:
            continue

        def place(u, v):
            try:
                p = sm.world_to_image(GeodeticWorldCoordinate([math.radians(lon0 + q * u), math.radians(lat0 + q * v), elev]))
                r = [p.x * 16, p.y * 16]
                return [int(round(z)) if math.isfinite(z) and abs(z) < BAD else BAD for z in r]
            except Exception:
                return None

        for hst in b["hist"]:
            box, size, op = list(hst["box"]), list(hst["size"]), hst["op"]
            if op == "end":
                continue
            far = op == "far" or (affine is False and max(abs(box[0]), abs(box[1])) > 12 * S)
            lo, la = [lon0 + q * box[0], lon0 + q * box[2]], [lat0 + q * box[1], lat0 + q * box[3]]
            if op == "far" and not affine and int(rng.integers(0, 2)):
                # somewhere else on the globe
                lo = [-179.0 + float(rng.uniform(0, 350)), 0]
                if min(abs(lo[0] - lon0), 360 - abs(lo[0] - lon0)) < 30:
                    lo[0] = (lon0 + 180.0 + 180.0) % 360.0 - 180.0
                lo[1] = lo[0] + q * S
                la = [-float(rng.uniform(-1, 1)) * 60, 0]
                la[1] = la[0] + q * S
            if la[0] < -85 or la[1] > 85 or lo[0] < -180 or lo[1] > 180:
                continue
            bb = tuple(math.radians(v) for v in (lo[0], la[0], lo[1], la[1]))
            e = dict(box=box, size=size, far=bool(far), st="none", got=[], ch=0, s=[], pos=[], step=0)
            try:
                r = f.create_orthophoto_tile(bb, tuple(size))
                e["st"] = "none" if r is None else "tile"
            except Exception as x:
                r, e["st"] = None, "exc " + repr(x)[:120]
            W, H = size
            ij = {(0, 0), (W - 1, 0), (0, H - 1), (W - 1, H - 1), (W // 2, H // 2)}
            n = 24 if mode == "shade" else 60
            if W * H <= n:
                ij = {(i, j) for i in range(W) for j in range(H)}
            while len(ij) < min(n, W * H):
                ij.add((int(rng.integers(0, W)), int(rng.integers(0, H))))
            ij = sorted(ij)
            a = None
            if r is not None:
                gdal.FileFromMemBuffer("/vsimem/c18/t.png", bytes(r))
                d = gdal.Open("/vsimem/c18/t.png")
                if d is not None:
                    a = d.ReadAsArray()
                    a = a[None] if a.ndim == 2 else a
                    e["got"], e["ch"] = [d.RasterXSize, d.RasterYSize], d.RasterCount
                d = None
            if not affine:
                if far:
                    e["pos"] = [[BAD, BAD]] * len(ij)
                else:
                    cell = lambda i, j: place(box[0] + (box[2] - box[0]) * (i + .5) / W, box[3] - (box[3] - box[1]) * (j + .5) / H)
                    ps = [cell(i, j) for i, j in ij]
                    if any(p is None for p in ps):
                        ps = [p or [BAD, BAD] for p in ps]
                    e["pos"] = ps
                    c = [place(box[x], box[y]) or [BAD, BAD] for x, y in ((0, 1), (2, 1), (0, 3), (2, 3))]
                    dx = [abs(c[1][z] - c[0][z]) / W + abs(c[2][z] - c[0][z]) / H for z in (0, 1)]
                    e["step"] = int(min(BAD, math.ceil(max(dx))))
            if a is not None and e["got"] == size and e["ch"] == 4:
                e["s"] = [[i, j, int(a[3, j, i]), int(a[0, j, i]), int(a[1, j, i]), int(a[2, j, i])] for i, j in ij]
            else:
                e["s"] = [[i, j, 0, 0, 0, 0] for i, j in ij]
            ctx.add("tile", **e)
        f = ds = sm = None
        tilelab.clear("c18/")


def drive_affine(ctx):
    drive(ctx, ("affine",), 18, 150, 3000)


def drive_models(ctx):
    drive(ctx, MODELS_, 181, 110, 1500)


MODELS = [{"module": "MC_MapTile", "cfg": "MC_MapTile.cfg", "cfg_thorough": "MC_MapTile_T.cfg", "min_states": 40000}]
GEN = {"module": "Gen_MapTile", "cfg": "Gen_MapTile.cfg", "behaviours": True, "extra": ("-simulate", "num=1500", "-depth", "12", "-seed", "1")}
E = ["FactoryIsMade", "NoErrors", "OverlapMakesATile", "NothingFarAway", "RequestedSize", "ColourAndOpacity", "BlankOutside", "ShowsTheImage", "RightPlace", "RightColours", "GrayIsGray", "SameShadesInAllTiles"]
PARTS = [{"name": "affine", "drive": drive_affine, "trace": "Tr_MapTile", "gen": GEN, "expect": E + ["NothingBesideTheImage", "BrighterIsBrighter"]},
         {"name": "models", "drive": drive_models, "trace": "Tr_MapTile", "gen": GEN, "expect": E}]
ASSUMPTIONS = ["ground is at the elevation the factory uses (that of the image centre); images do not cross the antimeridian or the poles",
               "pixels of the image that are zero count as not reached by it; map tiles have at least two rows and columns and are small enough for the image to be nearly affine in them",
               "places are compared to within an image pixel and a map tile pixel (and an overview pixel not coarser than that)"]
