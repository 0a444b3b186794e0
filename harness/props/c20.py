"""C20: display of SAR complex pixels."""
import math
from fractions import Fraction

from vlib import q


def funcs():
    from aws.osml.image_processing import histogram_stretch, quarter_power_image
    return [("stretch", histogram_stretch, 8), ("quarter", quarter_power_image, 3)]


def sane(out, src, keep, fin=True):
    import numpy as np
    f = bool(np.isfinite(out).all())
    return dict(shape=out.shape == src.shape[1:], finite=f, lo=q(out.min(), 1000) if f else -1, hi=q(out.max(), 1000) if f else -1,
                mine=bool(np.array_equal(src, keep, equal_nan=True) if src.dtype.kind == "f" else np.array_equal(src, keep)))


def entry(m, k, top):
    """Table entry of magnitude m: the brightest pixel's is the last entry, the first, or in between."""
    return (m * 7 + (5, 255 - 7 * top, -7 * top)[k % 3]) % 256


def encodings(px, k):
    """The same pixels in every encoding, with gains that exceed what the squares of the integer types can hold."""
    import numpy as np
    a = np.array(px, dtype=np.int64).T  # 2 x n
    out = []
    for name, dt, gain in (("RE16I_IM16I", np.int16, 1), ("RE16I_IM16I", np.int16, 500), ("RE32F_IM32F", np.float32, 1),
                           ("RE32F_IM32F", np.float32, 2.0 ** 60), ("RE32F_IM32F", np.float32, 2.0 ** -40), (None, np.int16, 400), (None, np.float32, 1)):
        out.append((name, (a * gain).astype(dt), None, gain))
    mag = [int(round(math.hypot(*p))) for p in px]
    ph = [int((k * 37 + 11 * i) % 256) for i in range(len(px))]
    out.append(("AMP8I_PHS8I", np.array([mag, ph], dtype=np.uint8), None, 1))
    out.append(("AMP8I_PHS8I", np.array([[entry(m, k, max(mag)) for m in mag], ph], dtype=np.uint8), "lut", 1))
    return out, mag


def drive_exact(ctx):
    import numpy as np
    F = funcs()
    rng = ctx.rng(2000)
    for k, g in enumerate(ctx.gen):
        # columns, rows and blocks
        n = len(g["img"])
        forms = [(1, n), (n, 1)] + ([(2, 2)] if n == 4 else [])
        encs, mag = encodings(g["img"], k)
        lut = np.zeros(256)
        for m in mag:
            lut[entry(m, k, max(mag))] = m
        pick = encs if ctx.thorough and k % 8 == 0 else [encs[i] for i in (k % 9, (k + 4) % 9)]
        for name, a, l, gain in pick:
            src = a.reshape((2,) + forms[k % len(forms)])
            for fn, f, s in F:
                try:
                    keep = src.copy()
                    kw = {"amplitude_table": lut if k % 2 else list(lut)} if l else {}
                    sc = s
                    if k % 3 == 0:
                        sc = int(rng.integers(1, 9))
                        kw["scale_factor"] = float(sc)
                    out = f(src, pixel_type=name, **kw)
                    v = mag if fn == "quarter" else [m * m for m in mag]
                    ctx.add("exact", st="ok", fn=fn, enc=str(name), v=v, s=sc, pre=-1, o=[q(x, 100) for x in np.ravel(out)], **sane(out, src, keep))
                    if fn == "quarter" and sum(mag) and max(mag) <= 12:
                        # a mean taken from elsewhere: pre is n times that mean
                        pre = int(rng.integers(1, 50))
                        out = f(src, pixel_type=name, precomputed_mean=gain * pre / len(mag), **kw)
                        ctx.add("exact", st="ok", fn=fn, enc=str(name), v=v, s=sc, pre=pre, o=[q(x, 100) for x in np.ravel(out)], **sane(out, src, keep))
                except Exception as e:
                    ctx.add("exact", st="exc", err=repr(e)[:200], fn=fn, enc=str(name))
        if n >= 3:
            a, b = np.array(g["img"]).T.reshape(2, 1, n), np.array(g["turned"]).T.reshape(2, 1, n)
            for dt, gain in ((np.int16, 300), (np.float32, 1)):
                for fn, f, s in F:
                    d = np.abs(f((a * gain).astype(dt)) - f((b * gain).astype(dt))).max()
                    ctx.add("phase", st="ok", fn=fn, d=q(d, 1e6), tol=1)
    e = next(e for e in ctx.rec.events if e["op"] == "exact" and e["st"] == "ok" and 0 < e["o"][0] < 25000)
    ctx.corrupt = [dict(e, o=[e["o"][0] + 5] + e["o"][1:]), dict(e, hi=256000)]


def order(ctx, fn, f, name, src, power, kw, case):
    import numpy as np
    try:
        keep = src.copy()
        out = f(src, pixel_type=name, **kw)
        s = sane(out, src, keep)
        o = np.ravel(out)
        p = list(power)
        idx = sorted(range(len(p)), key=lambda i: p[i])
        rank, r = [], 0
        for j, i in enumerate(idx):
            if j and p[i] != p[idx[j - 1]]:
                r += 1
            rank.append(r)
        ctx.add("order", st="ok", fn=fn, enc=str(name), o=[q(o[i], 1000) for i in idx], r=rank, case=case, **s)
        return out
    except Exception as e:
        ctx.add("order", st="exc", err=repr(e)[:200], fn=fn, enc=str(name), case=case)


def drive_wide(ctx):
    """Whole ranges of the pixel types, degenerate images, non-finite pixels."""
    import numpy as np
    from aws.osml.image_processing.sar_complex_imageop import linear_mapping
    rng = ctx.rng(2010)
    F = funcs()
    for k in range(ctx.n(60, 900)):
        shape = [(1, 1), (1, 7), (6, 1), (5, 8), (3, 3)][k % 5]
        for fn, f, _ in F:
            # 16 bit integers over their whole range
            hi = int(rng.choice([3, 200, 5000, 32767]))
            src = rng.integers(-hi - 1, hi + 1, (2,) + shape).astype(np.int16)
            if k % 7 == 0:
                src.flat[0] = -32768
            P = [int(a) ** 2 + int(b) ** 2 for a, b in zip(src[0].ravel(), src[1].ravel())]
            order(ctx, fn, f, ["RE16I_IM16I", None][k % 2], src, P, {}, "int16")
            order(ctx, fn, f, None, src.astype(np.int32) * 60000 if k % 2 else np.abs(src).astype(np.uint16), [p * (3600000000 if k % 2 else 1) for p in P], {}, "wide")
            # floats of all sizes
            e = float(rng.choice([1e-30, 1e-12, 1., 1e6, 1e18, 1e30]))
            sf = (rng.normal(size=(2,) + shape) * e * 10 ** rng.uniform(-3, 3, (1,) + shape)).astype(np.float32)
            if k % 3 == 0:
                sf[:, 0, 0] = 0
            P = [Fraction(float(a)) ** 2 + Fraction(float(b)) ** 2 for a, b in zip(sf[0].ravel(), sf[1].ravel())]
            order(ctx, fn, f, ["RE32F_IM32F", None][k % 2], sf, P, {}, "float32")
            # amplitude and phase, with and without a table
            amp, ph = rng.integers(0, 256, (2,) + shape).astype(np.uint8)
            sa = np.array([amp, ph])
            o1 = order(ctx, fn, f, "AMP8I_PHS8I", sa, [int(v) for v in amp.ravel()], {}, "amp")
            lut = np.sort(rng.uniform(0, 1e4, 256))
            order(ctx, fn, f, "AMP8I_PHS8I", sa, [float(lut[v]) for v in amp.ravel()], {"amplitude_table": lut}, "lut")
            o2 = f(np.array([amp, rng.integers(0, 256, shape).astype(np.uint8)]), pixel_type="AMP8I_PHS8I")
            if o1 is not None:
                ctx.add("phase", st="ok", fn=fn, d=q(np.abs(o1 - o2).max(), 1e6), tol=2)
    for fn, f, _ in F:
        for shape in ((1, 1), (2, 3)):
            n = shape[0] * shape[1]
            for dt in (np.int16, np.float32, np.uint8):
                order(ctx, fn, f, None, np.zeros((2,) + shape, dt), [0] * n, {}, "zero")
                order(ctx, fn, f, None, np.full((2,) + shape, 77, dt), [1] * n, {}, "constant")
                order(ctx, fn, f, "AMP8I_PHS8I", np.zeros((2,) + shape, np.uint8), [0] * n, {"amplitude_table": np.zeros(256)}, "zerolut")
            for bad in (np.nan, np.inf):
                order(ctx, fn, f, None, np.full((2,) + shape, bad, np.float32), [0] * n, {}, "nonfinite")
        # one non-finite pixel leaves the others as they are
        a = rng.normal(size=(2, 4, 5)).astype(np.float32)
        for bad in (np.nan, np.inf, -np.inf):
            b = a.copy()
            b[:, 0, 0] = bad
            P = [Fraction(float(u)) ** 2 + Fraction(float(v)) ** 2 for u, v in zip(a[0].ravel(), a[1].ravel())]
            P[0] = Fraction(-1) if np.isnan(bad) else Fraction(10 ** 9)
            out = order(ctx, fn, f, None, b, P, {}, "onebad")
            rest = np.concatenate([a[:, 0, 1:], a[:, 1:].reshape(2, -1)], axis=1).reshape(2, 1, -1)
            if out is not None:
                ctx.add("phase", st="ok", fn=fn, d=q(np.abs(np.ravel(out)[1:] - np.ravel(f(rest))).max(), 1e6), tol=200)
    for k in range(ctx.n(40, 300)):
        lo = int(rng.choice([0, -5, 1000, 16777216, -32768]))
        v = np.array([lo + int(x) for x in rng.integers(0, [2, 50, 30000][k % 3], 9)]).astype([np.int64, np.float64, np.int32][k % 3] if lo != -32768 else np.int16)
        if k % 5 == 0:              # the whole range of the small integer types
            t = [np.int8, np.uint8, np.int16, np.uint16, np.int32][k // 5 % 5]
            v = rng.integers(np.iinfo(t).min, np.iinfo(t).max, 9, dtype=t, endpoint=True)
            v[:2] = np.iinfo(t).min, np.iinfo(t).max
        o = linear_mapping(v.reshape(3, 3))
        mn, mx = int(v.min()), int(v.max())
        ctx.add("linear", st="ok", o=[q(x, 1e6) for x in o.ravel()], w=[500000 if mn == mx else q(Fraction(int(x) - mn, mx - mn), 1e6) for x in v])
    # the complex value of amplitude and phase, and refusal of unknown encodings
    from aws.osml.image_processing.sar_complex_imageop import image_pixels_to_complex
    for k in range(ctx.n(30, 300)):
        a = rng.integers(0, 256, (2, 3)).astype(np.uint8)
        a.flat[k % 6] = (255, 0)[k // 6 % 2]
        e = rng.integers(0, 8, (2, 3))
        lut = rng.integers(0, 1000, 256).astype(float) if k % 2 else None
        try:
            z = image_pixels_to_complex(np.array([a, (e * 32).astype(np.uint8)]), pixel_type="AMP8I_PHS8I", amplitude_table=lut)
            for j in range(6):
                ctx.add("complex", st="ok", a=int(lut[a.flat[j]] if k % 2 else a.flat[j]), e=int(e.flat[j]), re=q(z[0].flat[j], 1000), im=q(z[1].flat[j], 1000))
        except Exception as x:
            ctx.add("complex", st="exc", err=repr(x)[:200])
        src = rng.integers(0, 100, (2, 2, 3)).astype([np.uint8, np.int16][k % 2])
        for name in ("AMP8I", "RE32F", "amp8i_phs8i", "", "C32F"):
            try:
                F[k % 2][1](src, pixel_type=name)
                ctx.add("unknown", st="ok", refused=False)
            except ValueError:
                ctx.add("unknown", st="ok", refused=True)
            except Exception as x:
                ctx.add("unknown", st="ok", refused=False, err=repr(x)[:200])


def drive_tile(ctx):
    """Map tiles of two band images of complex pixels: stripes of one magnitude and any phase."""
    import numpy as np
    from osgeo import gdal
    import tilelab
    from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType, SensorModelFactory
    from aws.osml.image_processing import GDALTileFactory
    rng = ctx.rng(2020)
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    gt = (10.0, 1e-4, 0.0, 20.0, 0.0, -1e-4)
    B, L, H = 8, 7, 16
    UNITS = [(1, 0), (0, 1), (-1, 0), (0, -1)]   # exact for integer magnitudes

    def show(f, x, w):
        box = [math.radians(v) for v in (gt[0] + x * gt[1], gt[3] + H * gt[5], gt[0] + (x + w) * gt[1], gt[3])]
        r = f.create_orthophoto_tile(tuple(box), (w, H))
        gdal.FileFromMemBuffer("/vsimem/c20.png", bytes(r))
        a = gdal.Open("/vsimem/c20.png").ReadAsArray()
        gdal.Unlink("/vsimem/c20.png")
        return a if a.ndim == 2 else a[0]

    for k in range(ctx.n(60, 900)):
        tilelab.quiet(k % 2)
        dt, name = ((np.int16, "Int16"), (np.int32, "Int32"), (np.float32, "Float32"), (np.float64, "Float64"))[k % 4]
        top = (12, 200, 3000, 30000)[k // 4 % 4]
        m = np.sort(rng.choice(np.arange(1, top + 1), L, replace=False))
        if k % 3 == 0:
            m[0] = 0
        if k % 5 == 0:
            m[-1] = 10 * m[-2] if 10 * m[-2] < 32768 else 32767    # limited to the brightest
        at = np.concatenate([rng.permutation(L), np.arange(L), np.full(4, (0, L - 1, L // 2)[k % 3])])
        stripes = np.repeat(m[at], B)
        turn = rng.integers(0, 4, (H, len(stripes)))
        turn[::2] = (turn[1::2] + 2) % 4           # no band has a mean
        u = np.array(UNITS)[turn]
        px = [(stripes * u[..., i]).astype(dt) for i in (0, 1)]
        stats = bool(k // 2 % 2)
        case = dict(dt=name, top=int(top), stats=stats)
        try:
            w = len(stripes)
            ds = tilelab.mem(w, H, 2, gdal.GetDataTypeByName(name), px)
            if stats:
                for i, a in enumerate(px):
                    ds.GetRasterBand(i + 1).SetStatistics(float(a.min()), float(a.max()), float(a.mean()), float(a.std()))
            sm = SensorModelFactory(w, H, geo_transform=list(gt), proj_wkt=tilelab.srs(4326)).build()
            f = GDALTileFactory(ds, sm, GDALImageFormats.PNG, GDALCompressionOptions.NONE, range_adjustment=RangeAdjustmentType.DRA)
            a = show(f, 0, w)
            first = lambda a, off, j: int(a[5, B * (int(np.flatnonzero(at[off:] == j)[0]) + off) + B // 2])
            o = [first(a, 0, j) for j in range(L)]
            # the second half alone
            b = show(f, L * B, L * B)
            o2 = [int(b[5, B * j + B // 2]) for j in range(L)]
            mean = float(np.mean(stripes))
            j = int(np.argmin(np.abs(m - mean)))
            om = int(o[j] * mean / m[j]) if m[j] and o[j] < 255 else -1
            ctx.add("tile", st="ok", shape=a.shape == (H, w), m=[int(x) for x in m], o=o, om=om, both=o2 if stats else [], **case)
        except Exception as e:
            ctx.add("tile", st="exc", err=repr(e)[:200], **case)
    gdal.PopErrorHandler()
    for e in [e for e in ctx.rec.events if e["st"] == "ok" and max(e["o"]) == 255 and e["m"][0] == 0][:1]:
        ctx.corrupt = [dict(e, o=e["o"][:-1] + [7]), dict(e, o=[3] + e["o"][1:]), dict(e, om=20)]


MODELS = [{"module": "MC_SarDisplay", "cfg": "MC_SarDisplay.cfg", "cfg_thorough": "MC_SarDisplay_T.cfg", "min_states": 100}]
PARTS = [
    {"name": "exact", "drive": drive_exact, "trace": "Tr_SarDisplay",
     "gen": {"module": "MC_SarDisplay", "cfg": "Gen_SarDisplay.cfg", "cfg_thorough": "Gen_SarDisplay_T.cfg", "behaviours": True},
     "expect": ["BrightnessRelativeToTheMean", "FiniteAndInRange", "SameRowsAndColumns", "IndependentOfPhase"]},
    {"name": "wide", "drive": drive_wide, "trace": "Tr_SarDisplay",
     "expect": ["BrighterForLargerMagnitude", "EqualForEqualMagnitude", "FiniteAndInRange", "IndependentOfPhase", "LinearInUnitRange", "ComplexValueOfAmplitudeAndPhase", "UnknownEncodingRefused"]},
    {"name": "tile", "drive": drive_tile, "trace": "Tr_SarDisplay",
     "expect": ["BrighterForLargerMagnitude", "BrightnessProportionalToMagnitude", "SameBrightnessInEveryTile", "MeanIsShownInTheMiddle"]},
]
ASSUMPTIONS = ["display values are real numbers in the 8-bit range, as the functions return them", "non-finite pixels show as black (NaN) or white (infinite)"]
