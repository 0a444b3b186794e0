"""C13: pixels of encoded tiles."""
import os

NP = {"Byte": "uint8", "UInt16": "uint16", "Int16": "int16", "UInt32": "uint32", "Int32": "int32", "Float32": "float32", "Float64": "float64",
      "Int64": "int64", "UInt64": "uint64", "Int8": "int8", "CFloat32": "complex64", "CInt16": "complex64"}
LOSSLESS = [("NITF", "NONE"), ("GTIFF", "LZW"), ("GTIFF", "NONE"), ("GTIFF", None), ("PNG", None), ("PNG", "NONE")]


def palette(rng, t, m):
    """m distinct values of a pixel type in ascending order, its extremes among them."""
    import numpy as np
    dt = np.dtype(NP[t])
    if dt.kind == "c":
        v = set()
        while len(v) < m:
            v.add(complex(int(rng.integers(-300, 300)), int(rng.integers(-300, 300))))
        return np.array(sorted(v, key=lambda c: (c.real, c.imag)), dtype=dt)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        v = {int(i.min), int(i.max)} if rng.integers(0, 2) else set()
        while len(v) < m:
            v.add(int(rng.integers(int(i.min), int(i.max), dtype=dt.type, endpoint=True)) if rng.integers(0, 2) else int(rng.integers(max(int(i.min), -100), min(int(i.max), 127))))
        return np.array(sorted(v)[:m], dtype=dt)
    v = set()
    while len(v) < m:
        v.add(dt.type(float(rng.standard_normal()) * 10.0 ** float(rng.integers(-3, 6))))
    return np.array(sorted(v), dtype=dt)


def pattern(rng, m):
    return {"m": m, "a": int(rng.integers(1, m)) if m > 1 else 0, "b": int(rng.integers(1, m)) if m > 1 else 0, "c": int(rng.integers(0, m)), "d": int(rng.integers(0, m))}


def indices(g, w, h, nb):
    import numpy as np
    y, x = np.mgrid[0:h, 0:w]
    return [(g["a"] * x + g["b"] * y + g["c"] * b + g["d"]) % g["m"] for b in range(nb)]


class Lab:
    def __init__(self, ctx):
        from osgeo import gdal
        import tilelab
        from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType
        from aws.osml.image_processing import GDALTileFactory
        self.gdal, self.lab, self.ctx = gdal, tilelab, ctx
        self.F, self.C, self.R, self.Factory = GDALImageFormats, GDALCompressionOptions, RangeAdjustmentType, GDALTileFactory
        self.n = 0

    def put(self, rng, d, t):
        """The image in memory, or in a file with blocks of its own."""
        how = int(rng.integers(0, 4))
        self.n += 1
        if how == 0 or t in ("Int64", "UInt64", "Int8"):
            return d
        path = os.path.join(self.ctx.work, "s%d.tif" % self.n)
        opts = [["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"], ["COMPRESS=LZW"], ["INTERLEAVE=PIXEL"]][how - 1]
        self.lab.copy("GTiff", path, d, opts)
        return self.gdal.Open(path)

    def factory(self, ds, fmt, comp, otype, ra):
        gt = None if otype is None else self.gdal.GetDataTypeByName(otype)
        return self.Factory(ds, None, getattr(self.F, fmt), None if comp is None else getattr(self.C, comp), output_type=gt, range_adjustment=getattr(self.R, ra))

    def request(self, f, win, out):
        """-> status, dataset (opened from the encoded bytes)"""
        name = "/vsimem/c13/t%d" % self.n
        self.n += 1
        try:
            b = f.create_encoded_tile(list(win), tuple(out) if out else None)
            if b is None:
                return "none", None
            self.gdal.FileFromMemBuffer(name, bytes(b))
            d = self.gdal.Open(name)
            return ("tile", d) if d is not None else ("unreadable", None)
        except Exception:
            return "exc", None

    def shape(self, d, win, out):
        g = self.gdal
        if d is None:
            return {"size": [], "nb": 0, "type": "", "win": list(win), "out_size": list(out or []), "enc": ""}
        enc = {"NITF": d.GetMetadataItem("NITF_IC"), "GTiff": d.GetMetadataItem("COMPRESSION", "IMAGE_STRUCTURE") or "none"}.get(d.GetDriver().ShortName, "")
        return {"size": [d.RasterXSize, d.RasterYSize], "nb": d.RasterCount, "type": g.GetDataTypeName(d.GetRasterBand(1).DataType), "win": list(win), "out_size": list(out or []), "enc": enc or ""}

    def bands(self, d):
        return [d.GetRasterBand(i + 1).ReadAsArray() for i in range(d.RasterCount)]


def fmt_name(f):
    return {"GTIFF": "GTiff"}.get(f, f)


def drive_cut(ctx):
    import numpy as np
    lab = Lab(ctx)
    rng = ctx.rng(13)
    types = list(NP)
    for k in range(ctx.n(260, 2600)):
        b = ctx.gen[k % len(ctx.gen)]
        lab.lab.quiet(k % 2)
        s = [1, 2, 3][int(rng.integers(0, 3))]
        w, h = b["w"] * s, b["h"] * s
        t = types[k % len(types)]
        nb = int(rng.integers(1, 6)) if k % 3 else 1
        fmt, comp = LOSSLESS[(k // len(types)) % len(LOSSLESS)]
        m = int(rng.integers(2, 60))
        g = pattern(rng, m)
        pal = palette(rng, t, m)
        nd = None
        if pal.dtype.kind != "c" and t not in ("Int64", "UInt64") and int(rng.integers(0, 2)):
            nd = float(pal[int(rng.integers(0, m))]) if int(rng.integers(0, 2)) else float(np.float32(7))
        d = lab.lab.mem(w, h, nb, lab.gdal.GetDataTypeByName(t), [pal[i] for i in indices(g, w, h, nb)])
        if nd is not None:
            for i in range(nb):
                d.GetRasterBand(i + 1).SetNoDataValue(nd)
        ds = lab.put(rng, d, t)
        look = {v.tobytes(): i for i, v in enumerate(pal)}

        def index(v):
            i = look.get(np.asarray(v).astype(pal.dtype).tobytes(), -9)
            return -1 if i == -9 and v == 0 else -2 if i == -9 and nd is not None and v == nd else i

        blank = [-1, -2] + [i for i, v in enumerate(pal) if v == 0 or (nd is not None and v == nd)]
        head = dict(w=w, h=h, nb=nb, type=t, otype=t, fmt=fmt_name(fmt), comp=str(comp), lossless=True, ra="NONE", blank=blank, **g)

        def make(op, ds, **kw):
            try:
                f, st = lab.factory(ds, fmt, comp, None if k % 5 else t, "NONE"), "ok"
            except Exception as e:
                f, st = None, repr(e)[:150]
            ctx.add(op, st=st, **kw)
            return f
        f = make("image", ds, **head)
        last = None
        if f is None:
            continue
        for op, win in b["hist"]:
            if op == "open":
                if last is None:
                    continue
                ds, win = last
                f = make("open", ds, win=win)
                last = None
                if f is None:
                    break
                continue
            cw = [v * s for v in win]
            st, o = lab.request(f, cw, [] if int(rng.integers(0, 3)) else cw[2:])
            e = lab.shape(o, cw, [])
            e["st"] = st
            e["px"], e["nodata"] = [], "none"
            if o is not None:
                same_kind = e["type"] == t
                e["px"] = [[index(v) if same_kind else -9 for v in a.ravel()] for a in lab.bands(o)]
                ndt = o.GetRasterBand(1).GetNoDataValue()
                e["nodata"] = "same" if (ndt is None and nd is None) or (ndt is not None and nd is not None and np.float64(ndt) == np.float64(nd)) else "none" if ndt is None else "other"
                if fmt == "NITF":
                    nd = nd if ndt is not None or op == "cut" else None
            ctx.add("tile", **e)
            if win[2] > 0 and win[3] > 0:
                last = (o, cw) if o is not None else None
        del f, ds, last
        lab.lab.clear("c13/")
    ev = ctx.rec.events
    good = [e for e in ev if e["op"] == "image"][0]
    i = ev.index(good)
    run = [good]
    for e in ev[i + 1:]:
        if e["op"] in ("image", "open"):
            break
        run.append(e)
    t = next((e for e in run if e["op"] == "tile" and e["st"] == "tile" and e["px"] and len(set(e["px"][0])) > 1), None)
    if t is not None:
        for f, v in (("px", [list(reversed(p)) for p in t["px"]]), ("size", [1, 1]), ("nb", t["nb"] + 1), ("type", "Unknown"), ("nodata", "other")):
            ctx.corrupt += [good, dict(t, **{f: v})]
        ctx.corrupt_idx = list(range(1, len(ctx.corrupt), 2))


CONV = [("UInt16", "Byte"), ("UInt16", None), ("Int16", "Byte"), ("Float32", "Byte"), ("Byte", None), ("Float32", None), ("UInt16", "UInt16"), ("Int32", "UInt16"),
        ("Byte", "UInt16"), ("UInt32", "Byte"), ("Float64", "Byte"), ("Byte", "Byte"), ("Float64", "Float32"), ("Int16", "Int16"),
        ("Float64", None), ("UInt16", "Float64"), ("Int32", None)]


def drive_adjusted(ctx):
    import numpy as np
    lab = Lab(ctx)
    rng = ctx.rng(131)
    beh = [b for b in ctx.gen]
    for k in range(ctx.n(130, 1500)):
        b = beh[(k * 7) % len(beh)]
        lab.lab.quiet(k % 2)
        s = [1, 2][int(rng.integers(0, 2))]
        w, h = b["w"] * s, b["h"] * s
        t, ot = CONV[k % len(CONV)]
        ra = ["MINMAX", "DRA", "NONE"][int(rng.integers(0, 5)) // 2]
        if ra == "NONE" and t in ("Float32", "Float64"):
            ra = "DRA"
        nb = int(rng.integers(1, 4))
        fmt, comp = [("PNG", None), ("GTIFF", "LZW"), ("NITF", "NONE")][int(rng.integers(0, 3))]
        if fmt == "PNG" and (ot or t) not in ("Byte", "UInt16"):
            fmt = "GTIFF"
        m = int(rng.integers(2, 40))
        g = pattern(rng, m)
        pal = palette(rng, t, m)
        d = lab.lab.mem(w, h, nb, lab.gdal.GetDataTypeByName(t), [pal[i] for i in indices(g, w, h, nb)])
        ds = lab.put(rng, d, t)
        head = dict(w=w, h=h, nb=nb, type=t, otype=ot or t, fmt=fmt_name(fmt), comp=str(comp), lossless=True, ra=ra, blank=[-1], **g)
        try:
            f, st = lab.factory(ds, fmt, comp, ot, ra), "ok"
        except Exception as e:
            f, st = None, repr(e)[:150]
        ctx.add("image", st=st, **head)
        if f is None:
            continue
        evs, vals = [], []
        wins = [[v * s for v in win] for op, win in b["hist"] if op == "cut"] + [[0, 0, w, h]]
        for win in wins:
            st, o = lab.request(f, win, [])
            e = lab.shape(o, win, [])
            e.update(st=st, out=[], whole=win == [0, 0, w, h], span=[])
            if o is not None and win[0] >= 0 and win[1] >= 0 and win[0] + win[2] <= w and win[1] + win[3] <= h and e["size"] == win[2:]:
                arr = lab.bands(o)
                if e["whole"]:
                    it = np.iinfo(NP[ot or t]) if (ot or t) in NP and np.dtype(NP[ot or t]).kind in "iu" else None
                    e["span"] = [[bool(it is None or a.min() == a.max() or a.min() <= it.min + 1), bool(it is None or a.min() == a.max() or a.max() >= it.max - 1)] for a in arr]
                    # a constant output of an image with several values is not a use of the output range
                    if it is not None and m > 1:
                        e["span"] = [sp if len(set(ix.ravel().tolist())) < 2 or a.min() != a.max() else [False, False]
                                     for sp, a, ix in zip(e["span"], arr, indices(g, w, h, nb))]
                e["arr"] = arr
                vals += [a.ravel() for a in arr]
            evs.append(e)
        u = np.unique(np.concatenate(vals)) if vals else np.zeros(0)
        for e in evs:
            if "arr" in e:
                e["out"] = [[-5 if v != v else int(r) for v, r in zip(a.ravel(), np.searchsorted(u, a.ravel()))] for a in e.pop("arr")]
            ctx.add("adjusted", **e)
        del f, ds
        lab.lab.clear("c13/")


def drive_resized(ctx):
    import numpy as np
    lab = Lab(ctx)
    rng = ctx.rng(132)
    for k in range(ctx.n(160, 1800)):
        lab.lab.quiet(k % 2)
        w, h = int(rng.integers(4, 200)), int(rng.integers(4, 200))
        lossy = k % 4 == 3
        if lossy:
            w, h = w + 120, h + 120
        y, x = np.mgrid[0:h, 0:w]
        t = ["Byte", "UInt16", "Float32", "Int16"][int(rng.integers(0, 4))]
        nb = int(rng.integers(2, 5)) if not lossy else int(rng.choice([1, 3]))
        arrays = [x + 1, y + 1] + [np.full((h, w), 9)] * 3
        scale = 1
        if lossy:
            fmt, comp = [("NITF", "J2K"), ("NITF", None), ("NITF", "JPEG"), ("JPEG", None), ("GTIFF", "JPEG")][int(rng.integers(0, 5))]
            t = "Byte"
            if fmt == "NITF" and comp != "JPEG":
                t = ["Byte", "UInt16", "Int16", "UInt32", "Int32", "Float32", "Float64"][k // 4 % 7]
            scale = {"UInt16": 250, "Int16": 100, "UInt32": 15000000, "Int32": 8000000, "Float32": 0.01, "Float64": 1e7}.get(t, 1)
            low = 0 if t[0] in "BU" else 120
            arrays = [(a - low) * scale for a in (x * 200 // w + 20, y * 200 // h + 20, (x + y) * 200 // (w + h) + 20)]
        d = lab.lab.mem(w, h, nb, lab.gdal.GetDataTypeByName(t), arrays)
        ds = lab.put(rng, d, t)
        ov = 4 if not lossy and int(rng.integers(0, 4)) == 0 else 0
        if ov:
            ds.BuildOverviews("NEAREST", [2, 4])
        if not lossy:
            fmt, comp = LOSSLESS[int(rng.integers(0, len(LOSSLESS)))]
            if fmt == "PNG" and t not in ("Byte", "UInt16"):
                fmt, comp = "GTIFF", None
        head = dict(w=w, h=h, nb=nb, type=t, otype=t, fmt=fmt_name(fmt), comp=str(comp), lossless=not lossy, ra="NONE", blank=[-1], ov=ov, m=1, a=0, b=0, c=0, d=0)
        try:
            f, st = lab.factory(ds, fmt, comp, None, "NONE"), "ok"
        except Exception as e:
            f, st = None, repr(e)[:150]
        ctx.add("image", st=st, **head)
        if f is None:
            continue
        for j in range(4):
            least = 64 if lossy else 1
            ww, wh = int(rng.integers(least, w + 1)), int(rng.integers(least, h + 1))
            x0, y0 = int(rng.integers(0, w - ww + 1)), int(rng.integers(0, h - wh + 1))
            if lossy:
                st, o = lab.request(f, [x0, y0, ww, wh], [])
                e = dict(lab.shape(o, [x0, y0, ww, wh], []), st=st, worst=0)
                if o is not None and o.RasterCount == nb and e["size"] == [ww, wh]:
                    e["worst"] = int(max(np.mean(np.abs(a.astype(float) - b[y0:y0 + wh, x0:x0 + ww])) / scale for a, b in zip(lab.bands(o), arrays)))
                ctx.add("lossy", **e)
                continue
            if j == 3:
                x0, y0 = x0 + int(rng.integers(-w, w)), y0 + int(rng.integers(-h, h))
            ow, oh = [int(rng.integers(1, 20)), int(rng.integers(1, 20))] if j != 1 else [max(1, min(ww // 2, 25)), max(1, min(wh // 2, 25))]
            win, out = [x0, y0, ww, wh], [ow, oh]
            st, o = lab.request(f, win, out)
            e = dict(lab.shape(o, win, out), st=st, xs=[], ys=[])
            if o is not None and o.RasterCount >= 2:
                a = lab.bands(o)
                e["xs"], e["ys"] = ([int(round(float(v))) - 1 for v in c.ravel()] for c in a[:2])
            ctx.add("ramp", **e)
        del f, ds
        lab.lab.clear("c13/")


MODELS = [{"module": "MC_Cut", "cfg": "MC_Cut.cfg", "cfg_thorough": "MC_Cut_T.cfg", "min_states": 50000}]
GEN = {"module": "Gen_Cut", "cfg": "Gen_Cut.cfg", "behaviours": True, "extra": ("-simulate", "num=1500", "-depth", "9", "-seed", "1")}
SH = ["WorksOnTheImage", "RequestedSize", "EncodedAsRequested", "SameBands", "SameType", "WindowsInsideYieldTiles", "EmptyWindowsYieldNothing"]
PARTS = [{"name": "cut", "drive": drive_cut, "trace": "Tr_Cut", "gen": GEN, "expect": SH + ["PixelsOfTheWindow", "NothingFromElsewhere", "NoDataKept", "NoOtherNoData"], "heap": "6g"},
         {"name": "adjusted", "drive": drive_adjusted, "trace": "Tr_Cut", "gen": GEN,
          "expect": SH + ["OneMappingForAllTiles", "PixelsAreNumbers", "MonotoneMapping", "MappingUsesTheOutputRange", "MappingKeepsContrast"]},
         {"name": "resized", "drive": drive_resized, "trace": "Tr_Cut", "expect": SH + ["ResampledWindow", "NothingFromElsewhere", "LossyPixelsAreClose"]}]
ASSUMPTIONS = ["all bands of an image have the same pixel type and no-data value; pixel values are numbers",
               "pixel values are compared in encodings that can hold them: NITF without compression (not 8-bit signed or 64-bit integers, complex integers), GeoTIFF, PNG (unsigned, up to 4 bands); "
               "NITF has no no-data value; JPEG 2000 and JPEG tiles are compared to within 4 of 255 on average on smooth images",
               "pixels outside of the image are zero or the no-data value",
               "resampled pixels are within a source pixel (or an output pixel, when shrinking) of their place"]
