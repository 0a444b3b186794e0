"""C19: dynamic range adjustment."""
import math

from vlib import q

M = 1000000
DEFAULT = (2, 98, 2, 4)


def one(ctx, counts, first, last, par, default=False):
    from aws.osml.gdal.dynamic_range_adjustment import DRAParameters
    minp, maxp, a, b = par
    N = len(counts)
    given = list(counts)
    kw = {} if default else dict(min_percentage=minp / 100, max_percentage=maxp / 100, a=a / 10, b=b / 10)
    if first is not None:
        kw["first_bucket_value"] = first
    if last is not None:
        kw["last_bucket_value"] = last
    f = 0 if first is None else first
    e = N if last is None else last
    try:
        d = DRAParameters.from_counts(counts=given, **kw)
        v = [d.suggested_min_value, d.suggested_max_value, d.actual_min_value, d.actual_max_value]
        if not any(counts):
            ctx.add("empty", st="ok", n=N, finite=all(math.isfinite(x) for x in v), ordered=v[0] <= v[1] and v[2] <= v[3],
                    inside=all(min(f, e) <= x <= max(f, e) for x in v))
        elif f == e:
            ctx.add("flat", st="ok", same=all(x == f for x in v))
        else:
            p = [q((x - f) * N / (e - f), 1000) for x in v]
            ctx.add("hist", st="ok", c=list(counts), first=str(first), last=str(last), minp=minp, maxp=maxp, a=a, b=b,
                    smin=p[0], smax=p[1], amin=p[2], amax=p[3], mine=given == list(counts))
    except Exception as ex:
        ctx.add("hist", st="exc", err=repr(ex)[:200], c=list(counts), first=str(first), last=str(last))


VALUES = [(None, None), (0, 10), (-100.0, 0.0), (-7.5, 2.5), (1000, 5096), (0.0, 1.0), (-3, None), (3.0, 3.0), (-2147483648.0, 2147483647.0)]
PARS = [DEFAULT, (0, 100, 0, 0), (50, 50, 2, 4), (0, 98, 4, 2), (10, 90, 4, 0)]


def drive_hist(ctx):
    rng = ctx.rng(1900)
    for i, g in enumerate(ctx.gen):
        c = g["c"]
        one(ctx, c, None, None, DEFAULT, default=True)
        for k in range(ctx.n(2, 4)):
            v = VALUES[(i + k) % len(VALUES)]
            one(ctx, c, v[0], v[1], PARS[(i // 2 + k) % len(PARS)])
    one(ctx, [], None, None, DEFAULT, default=True)
    one(ctx, [], 4., 9., DEFAULT)
    for k in range(ctx.n(200, 8000)):
        n = int(rng.integers(1, 40))
        kind = k % 5
        if kind == 0:
            c = [int(x) for x in rng.integers(0, 50, n)]
        elif kind == 1:
            c = [0] * n
            c[int(rng.integers(0, n))] = int(rng.integers(1, 9999))
        elif kind == 2:      # a spike with tails
            c = [int(x) for x in rng.integers(0, 3, n)]
            c[int(rng.integers(0, n))] += 2000
        elif kind == 3:      # two populations with a gap
            c = [0] * n
            for j in range(n // 4):
                c[j], c[n - 1 - j] = int(rng.integers(0, 20)), int(rng.integers(0, 900))
        else:
            c = [int(1000 * math.exp(-((j - n / 3) / (n / 6 + .1)) ** 2)) for j in range(n)]
        v = VALUES[int(rng.integers(0, len(VALUES)))]
        one(ctx, c, v[0], v[1], PARS[int(rng.integers(0, len(PARS)))], default=False)
    e = next(e for e in ctx.rec.events if e["op"] == "hist" and e["st"] == "ok")
    ctx.corrupt = [dict(e, smin=e["smax"] + 5), dict(e, amax=e["amax"] + 1000)]


def dataset(arrays, nodata=None):
    from osgeo import gdal, gdal_array
    a = arrays[0]
    t = gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype.type)
    d = gdal.GetDriverByName("MEM").Create("", a.shape[1], a.shape[0], len(arrays), t)
    for i, x in enumerate(arrays):
        d.GetRasterBand(i + 1).WriteArray(x)
        if nodata is not None:
            d.GetRasterBand(i + 1).SetNoDataValue(nodata)
    return d


def images(rng):
    """Every row holds the same values, so that statistics of a sample of the rows are those of the image."""
    import numpy as np

    def rows(v, dt):
        v = np.asarray(v)
        return np.stack([rng.permutation(v) for _ in range(9)]).astype(dt)
    out = []
    for dt in (np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.float32, np.float64):
        info = np.iinfo(dt) if np.issubdtype(dt, np.integer) else None
        neg = info is None or info.min < 0
        out.append(("ramp", dt, rows(np.arange(60) + 3, dt), None))
        out.append(("constant", dt, rows([7] * 12, dt), None))
        out.append(("zero", dt, rows([0] * 12, dt), None))
        out.append(("mostly", dt, rows([9] * 199 + [200], dt), None))
        out.append(("mostlylow", dt, rows([9] + [200] * 199, dt), None))
        out.append(("two", dt, rows([3, 3, 3, 4, 4, 4], dt), None))
        out.append(("outliers", dt, rows([0] + list(rng.integers(100, 140, 120)) + [250], dt), None))
        out.append(("nodata", dt, rows([0] * 20 + list(range(10, 30)), dt), 0))
        out.append(("allnodata", dt, rows([0] * 20, dt), 0))
        if neg:
            out.append(("zeromax", dt, rows(list(-np.arange(100)) , dt), None))
            out.append(("negative", dt, rows(list(-np.arange(20, 90)), dt), None))
        if info is not None:
            out.append(("extremes", dt, rows([info.min, info.max] + [info.max // 2] * 20, dt), None))
        else:
            out.append(("unit", dt, rows(np.linspace(0, 1, 50), dt), None))
            out.append(("tiny", dt, rows(np.linspace(1e-6, 2e-6, 50), dt), None))
            out.append(("large", dt, rows(np.linspace(-1e9, 3e9, 50), dt), None))
            out.append(("nans", dt, rows([np.nan] * 9, dt), None))
            out.append(("somenans", dt, rows([np.nan] * 9 + list(range(50)), dt), None))
            out.append(("neginf", dt, rows([-np.inf] + list(range(50)), dt), None))
            out.append(("posinf", dt, rows([np.inf] + list(range(50)), dt), None))
    return out


def drive_image(ctx):
    import numpy as np
    from osgeo import gdal, gdalconst
    from aws.osml.gdal import RangeAdjustmentType, get_type_and_scales
    from aws.osml.gdal.gdal_utils import get_minmax_for_type
    rng = ctx.rng(1910)
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    limits = {}
    for name, dt in (("Byte", np.uint8), ("UInt16", np.uint16), ("Int16", np.int16), ("UInt32", np.uint32), ("Int32", np.int32),
                     ("UInt64", np.uint64), ("Int64", np.int64), ("Float32", np.float32), ("Float64", np.float64)):
        g = getattr(gdalconst, "GDT_" + name)
        inf = np.iinfo(dt) if np.issubdtype(dt, np.integer) else np.finfo(dt)
        lo, hi = get_minmax_for_type(g)
        limits[g] = (lo, hi)
        ctx.add("types", st="ok", type=name, same=bool(abs(lo - float(inf.min)) <= 1e-7 * abs(float(inf.min)) and abs(hi - float(inf.max)) <= 1e-7 * float(inf.max))
                if isinstance(inf, np.finfo) else (lo, hi) == (int(inf.min), int(inf.max)))
    for exc in (False, True):
        gdal.UseExceptions() if exc else gdal.DontUseExceptions()
        ims = images(rng)
        for k, (name, dt, a, nod) in enumerate(ims):
            for option in ("NONE", "MINMAX", "DRA"):
                for want in (None, gdalconst.GDT_Byte, gdalconst.GDT_UInt16):
                    ds = dataset([a], nod)
                    case = dict(image=name, dt=np.dtype(dt).name, option=option, exc=exc, want=str(want))
                    try:
                        md = str(ds.GetRasterBand(1).GetMetadata()) + str(ds.GetMetadata())
                        kw = {} if option == "NONE" and k % 2 else {"range_adjustment": getattr(RangeAdjustmentType, option)}
                        ot, sp = get_type_and_scales(ds, want, **kw) if want is not None or k % 2 else get_type_and_scales(ds, **kw)
                        own = ds.GetRasterBand(1).DataType
                        want_t = own if want is None else want
                        lo, hi, o0, o1 = [float(x) for x in sp[0]]
                        okout = len(sp) == 1 and (o0, o1) == tuple(float(x) for x in limits[want_t])
                        v = a[np.isfinite(a)].astype(np.float64)
                        if nod is not None:
                            v = v[v != nod]
                        if v.size == 0 or (np.isinf(a).any() and option != "NONE"):
                            # no statistics to adjust by
                            ctx.add("blank", st="ok", finite=bool(np.isfinite([lo, hi]).all()), ordered=lo <= hi, out=okout, **case)
                            continue
                        mn, mx = float(v.min()), float(v.max())
                        r = (mx - mn) or 1.0
                        lo, hi, flo, fhi = max(lo, -1e200), min(hi, 1e200), lo, hi
                        integer = np.issubdtype(dt, np.integer)
                        nb = min(max(int(mx - mn), 1), 255 if not integer else 65536)
                        ctx.add("scale", st="ok", smin=q((lo - mn) / r, M), smax=q((hi - mn) / r if mx > mn else (1.0 if hi == mx else hi), M),
                                inverted=lo > hi, out=okout, type=ot == want_t, bucket=q(1.0 / nb, M) + 1 if mx > mn else M,
                                typerange=option != "NONE" or (flo, fhi) == tuple(float(x) for x in limits[own]),
                                mine=md == str(ds.GetRasterBand(1).GetMetadata()) + str(ds.GetMetadata()), **case)
                        if option != "NONE" and want is not None:
                            out = gdal.Translate("", ds, format="MEM", outputType=ot, scaleParams=sp)
                            b = out.GetRasterBand(1).ReadAsArray()
                            ok = np.isfinite(a)
                            if nod is not None:
                                ok &= a != nod
                            order = np.argsort(a[ok], kind="stable")
                            av, bv = a[ok][order], b[ok][order]
                            keep = np.r_[True, np.diff(av) > 0]
                            ctx.add("map", st="ok", o=[int(x) for x in bv[keep]], m=int(o1), degenerate=lo == hi, **case)
                    except Exception as e:
                        ctx.add("scale", st="exc", err=repr(e)[:200], **case)
        # bands are adjusted independently of one another
        for dt in (np.uint8, np.uint16, np.float32):
            ls = [(3, 50), (100, 110), (0, 200), (77, 77)]
            arrs = [np.stack([rng.permutation(np.linspace(a, b, 60).round()) for _ in range(9)]).astype(dt) for a, b in ls]
            for option in ("MINMAX", "DRA"):
                try:
                    ot, sp = get_type_and_scales(dataset(arrs), gdalconst.GDT_Byte, getattr(RangeAdjustmentType, option))
                    for i, ((mn, mx), s) in enumerate(zip(ls, sp)):
                        one_, many = s, get_type_and_scales(dataset([arrs[i]]), gdalconst.GDT_Byte, getattr(RangeAdjustmentType, option))[1][0]
                        r = (mx - mn) or 1.0
                        ctx.add("scale", st="ok", image="band%d" % i, dt=np.dtype(dt).name, option=option, exc=exc, smin=q((s[0] - mn) / r, M),
                                smax=q((s[1] - mn) / r if mx > mn else (1.0 if s[1] == mx else s[1]), M), inverted=s[0] > s[1],
                                out=list(one_) == list(many) and len(sp) == len(ls), type=ot == gdalconst.GDT_Byte,
                                bucket=q(1.0 / min(max(mx - mn, 1), 255), M) + 1 if mx > mn else M, typerange=True, mine=True)
                except Exception as e:
                    ctx.add("scale", st="exc", err=repr(e)[:200], image="bands")
    gdal.PopErrorHandler()


def drive_central(ctx):
    """The range chosen for an image is that of the central part of its pixels, whichever blocks it is stored in."""
    import numpy as np
    from osgeo import gdal, gdal_array, gdalconst
    from aws.osml.gdal import RangeAdjustmentType, get_type_and_scales
    rng = ctx.rng(1930)
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    DTS = (np.uint8, np.uint16, np.int16, np.int32, np.float32, np.float64)
    for k in range(ctx.n(60, 1500)):
        gdal.UseExceptions() if k % 2 else gdal.DontUseExceptions()
        dt = DTS[k % len(DTS)]
        off = 0 if dt == np.uint8 else int(rng.integers(0, 9000)) * (1 if dt == np.uint16 or k % 3 else -1)
        lo, hi = sorted(int(x) for x in rng.choice(np.arange(20, 180), 2, replace=False))
        core = rng.integers(lo, hi + 1, 250)
        low, high = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        v = np.concatenate([core, np.full(low, 0), np.full(high, 200)])      # 256 pixels, more or less
        v = np.concatenate([v, rng.choice(core, 4)])[:256] if v.size < 256 else np.r_[v[-(low + high):], v[:256 - low - high]]
        tiled = bool(rng.integers(0, 2))
        nod = off - 7 if int(rng.integers(0, 3)) == 0 and dt != np.uint8 else None
        case = dict(dt=np.dtype(dt).name, tiled=tiled, off=off, nod=str(nod))
        try:
            if tiled:        # blocks of 16 by 16, each with the same pixels
                nx, ny = int(rng.integers(1, 6)), int(rng.integers(1, 6))
                a = np.block([[rng.permutation(v).reshape(16, 16) for _ in range(nx)] for _ in range(ny)])
            else:
                a = np.stack([rng.permutation(v) for _ in range(int(rng.integers(1, 9)))])
            n = np.bincount(v, minlength=201)
            a = (a.astype(np.int64) + off).astype(dt)
            if nod is not None:      # missing pixels beside those of the image
                a = np.concatenate([a, np.full((16, a.shape[1]), nod, dt)])
            elif a.dtype.kind == "f" and k // 6 % 2:
                a = np.concatenate([a, np.full((16, a.shape[1]), np.nan, dt)])
            t = gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype.type)
            opts = ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"] if tiled else ["BLOCKYSIZE=1"]
            d = gdal.GetDriverByName("GTiff").Create("/vsimem/c19c.tif", a.shape[1], a.shape[0], 1, t, opts)
            d.GetRasterBand(1).WriteArray(a)
            if nod is not None:
                d.GetRasterBand(1).SetNoDataValue(nod)
            d = None
            d = gdal.Open("/vsimem/c19c.tif")
            s = get_type_and_scales(d, gdalconst.GDT_Byte, RangeAdjustmentType.DRA)[1][0]
            d = None
            ctx.add("central", st="ok", c=[int(x) for x in n], smin=q(s[0] - off, 10), smax=q(s[1] - off, 10), **case)
        except Exception as ex:
            ctx.add("central", st="exc", err=repr(ex)[:200], **case)
        gdal.Unlink("/vsimem/c19c.tif")
    # brightness that varies across or down an image stored in tiles
    for k in range(ctx.n(60, 1000)):
        gdal.UseExceptions() if k % 2 else gdal.DontUseExceptions()
        nx, ny = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        if k < 8:
            nx = ny = k + 1
        r, c = np.mgrid[0:16 * ny, 0:16 * nx]
        u = (c / (16 * nx), r / (16 * ny))[k % 2]
        if nx != ny and min(nx, ny) < 3:
            continue
        a = np.clip(u * 200 + rng.integers(-3, 4, u.shape), 0, 200).astype(DTS[k % len(DTS)])
        try:
            d = gdal.GetDriverByName("GTiff").Create("/vsimem/c19c.tif", a.shape[1], a.shape[0], 1, gdal_array.NumericTypeCodeToGDALTypeCode(a.dtype.type),
                                                     ["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"])
            d.GetRasterBand(1).WriteArray(a)
            if nx != ny:     # GDAL's own sample of the blocks may be too small for the extremes
                d.GetRasterBand(1).SetStatistics(float(a.min()), float(a.max()), float(a.mean()), float(a.std()))
            d = None
            d = gdal.Open("/vsimem/c19c.tif")
            s = get_type_and_scales(d, gdalconst.GDT_Byte, RangeAdjustmentType.DRA)[1][0]
            d = None
            ctx.add("central2", st="ok", nx=nx, ny=ny, kind=k % 2, c=[int(x) for x in np.bincount(a.astype(int).ravel(), minlength=201)],
                    smin=q(s[0], 10), smax=q(s[1], 10), dt=a.dtype.name)
        except Exception as ex:
            ctx.add("central2", st="exc", err=repr(ex)[:200], nx=nx, ny=ny)
        gdal.Unlink("/vsimem/c19c.tif")
    gdal.PopErrorHandler()
    e = next(e for e in ctx.rec.events if e["op"] == "central" and e["st"] == "ok")
    f = next(e for e in ctx.rec.events if e["op"] == "central2" and e["st"] == "ok")
    ctx.corrupt = [dict(e, smin=e["smin"] - 60), dict(e, smax=e["smax"] + 60), dict(f, smax=600), dict(f, smin=1400)]


def drive_display(ctx):
    """Map tiles of images made of stripes of constant pixels: what every value of every band is displayed as."""
    import numpy as np
    from osgeo import gdal
    import tilelab
    from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType, SensorModelFactory
    from aws.osml.image_processing import GDALTileFactory
    rng = ctx.rng(1920)
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    L, B = 6, 8
    gt = (10.0, 1e-4, 0.0, 20.0, 0.0, -1e-4)

    def levels(dt):
        kind = int(rng.integers(0, 5))
        if kind == 0:
            v = rng.choice(np.arange(0, 256), L, replace=False)
        elif kind == 1:
            v = int(rng.integers(0, 100)) + rng.choice(np.arange(0, 20), L, replace=False)
        elif kind == 2 and dt != np.uint8:
            v = rng.choice(np.arange(0, 32000, 7), L, replace=False)
        elif kind == 3 and np.dtype(dt).kind != "u":
            v = rng.choice(np.arange(-500, 500), L, replace=False)
        elif kind == 4:
            v = np.full(L, int(rng.integers(0, 256)))
        else:
            v = rng.choice(np.arange(0, 200), L, replace=False)
        v = np.sort(v).astype(dt)
        if int(rng.integers(0, 3)) == 0 and kind != 4:
            v[0] = 0
            v = np.sort(v)
        return v

    def show(arrays, dt, option, stats):
        h, w = arrays[0].shape
        ds = tilelab.mem(w, h, len(arrays), gdal.GetDataTypeByName({"uint8": "Byte"}.get(np.dtype(dt).name, {"u": "UInt", "i": "Int", "f": "Float"}[np.dtype(dt).kind] + str(8 * np.dtype(dt).itemsize))), arrays)
        if stats:
            for i, a in enumerate(arrays):
                ds.GetRasterBand(i + 1).SetStatistics(float(a.min()), float(a.max()), float(a.mean()), float(a.std()))
        sm = SensorModelFactory(w, h, geo_transform=list(gt), proj_wkt=tilelab.srs(4326)).build()
        kw = {} if option == "NONE" and stats else {"range_adjustment": getattr(RangeAdjustmentType, option)}
        f = GDALTileFactory(ds, sm, GDALImageFormats.PNG, GDALCompressionOptions.NONE, **kw)
        box = [math.radians(v) for v in (gt[0], gt[3] + h * gt[5], gt[0] + w * gt[1], gt[3])]
        r = f.create_orthophoto_tile(tuple(box), (w, h))
        gdal.FileFromMemBuffer("/vsimem/c19.png", bytes(r))
        a = gdal.Open("/vsimem/c19.png").ReadAsArray()
        gdal.Unlink("/vsimem/c19.png")
        return a

    for k in range(ctx.n(150, 2500)):
        tilelab.quiet(k % 2)
        dt = (np.uint8, np.uint16, np.int16, np.int32, np.float32, np.float64)[k % 6]
        nb = (1, 3, 3, 4, 5)[int(rng.integers(0, 5))]
        option = ("NONE", "MINMAX", "DRA", "DRA")[int(rng.integers(0, 4))]
        stats = bool(rng.integers(0, 2))
        vs = [levels(dt) for _ in range(nb)]
        # a value may be that of several stripes
        at = [np.concatenate([rng.permutation(L), rng.integers(0, L, 2)]) for _ in range(nb)]
        arrays = [np.tile(np.repeat(v[p], B), (2 * B, 1)) for v, p in zip(vs, at)]
        case = dict(option=option, dt=np.dtype(dt).name, nb=nb, stats=stats)
        try:
            a = show(arrays, dt, option, stats)
            # bands by stripe, in the order of their values
            n = min(nb, 3)
            mid = lambda x, c, p: [int(x[c, B, B * int(np.flatnonzero(p == j)[0]) + B // 2]) for j in range(L)]
            alone = [mid(show([arrays[i]], dt, option, stats), 0, at[i]) for i in range(n)]
            ch = [mid(a, i, at[i]) for i in range(n)]
            # the known finding: MINMAX divides by the maximum where it should divide by the size of the range
            quirk = all(v[0] == v[-1] or c[0] == 0 and (c[-1] >= 254 or v[0] > 0 and abs(c[-1] - (float(v[-1]) - float(v[0])) * 255 / max(float(v[-1]), 1)) <= 1) for c, v in zip(ch, vs))
            ctx.add("display", st="ok", ch=ch, alone=alone, bands=a.shape[0], quirk=bool(quirk),
                    v=[[int(x) for x in v] for v in vs[:n]], flat=[bool(v[0] == v[-1]) for v in vs[:n]], **case)
        except Exception as e:
            ctx.add("display", st="exc", err=repr(e)[:200], **case)
    gdal.PopErrorHandler()
    e = next(e for e in ctx.rec.events if e["st"] == "ok" and e["option"] == "DRA" and not e["flat"][0])
    ctx.corrupt = [dict(e, ch=[[x // 2 for x in c] for c in e["ch"]]), dict(e, ch=[c[::-1] for c in e["ch"]])]


MODELS = [{"module": "MC_Dra", "cfg": "MC_Dra.cfg", "cfg_thorough": "MC_Dra_T.cfg", "min_states": 100}]
PARTS = [
    {"name": "hist", "drive": drive_hist, "trace": "Tr_Dra",
     "gen": {"module": "MC_Dra", "cfg": "Gen_Dra.cfg", "cfg_thorough": "Gen_Dra_T.cfg", "behaviours": True},
     "expect": ["NeverInverts", "WithinTheDataRange", "CentralRangeWidenedByTheWeights", "UsableWithoutCounts", "SingleValueKept"]},
    {"name": "display", "drive": drive_display, "trace": "Tr_Dra",
     "expect": ["LowerPixelsNeverBrighter", "AcrossTheFullOutputRange", "EachBandByItsOwnValues", "ValuesDisplayedAsTheyAre"]},
    {"name": "central", "drive": drive_central, "trace": "Tr_Dra",
     "expect": ["CentralRangeOfThePixels", "CentralHalfOfThePixelsTold", "WithinTheDataRange"]},
    {"name": "image", "drive": drive_image, "trace": "Tr_Dra",
     "expect": ["OntoTheOutputRange", "StatedInputRange", "LowerPixelsNeverBrighter", "AcrossTheFullOutputRange", "UsableWithoutPixels", "SourceUntouched"]},
]
ASSUMPTIONS = ["a bucket whose cumulative count is exactly at a set point may be taken as reached or not",
               "MINMAX may end one histogram bucket below the maximum",
               "images are built so that GDAL's row sampling sees every value"]
