"""C16: what tile creation leaves behind; interleaved and failing requests."""
import gc
import hashlib
import os
import shutil
import threading

TL = threading.local()
POINTS = {"Translate": "write", "VSIFOpenL": "open", "VSIFReadL": "read", "Unlink": "clean"}


def install(gdal):
    """Uses of the raster library become points where a worker stops and where a fault can strike."""
    if getattr(gdal, "_c16", False):
        return
    gdal._c16 = True

    def wrap(fname, stage):
        real = getattr(gdal, fname)

        def f(*a, **k):
            w = getattr(TL, "worker", None)
            if w is None:
                return real(*a, **k)
            w.stop(stage)
            kind = w.fault.pop(stage, None)
            if kind is None:
                r = real(*a, **k)
                if fname == "VSIFOpenL" and r is not None:
                    w.handles += 1
                return r
            w.fired = kind
            if kind == "partial":
                r = real(*a, **k)
                del r
                name = a[0] if isinstance(a[0], str) else None
                if name and gdal.VSIStatL(name) is not None:
                    h = real_open(name, "rb+")
                    if h is not None:
                        gdal.VSIFTruncateL(h, 100)
                        real_close(h)
            if w.raises:
                raise RuntimeError("injected")
            return None
        setattr(gdal, fname, f)
    real_open, real_close = gdal.VSIFOpenL, gdal.VSIFCloseL
    for fname, stage in POINTS.items():
        wrap(fname, stage)

    def close(h):
        w = getattr(TL, "worker", None)
        if w is not None and h is not None:
            w.handles -= 1
        return real_close(h)
    gdal.VSIFCloseL = close


class Worker:
    def __init__(self, n, jobs, raises):
        self.n, self.jobs, self.raises = n, jobs, raises
        self.go, self.stopped = threading.Semaphore(0), threading.Semaphore(0)
        self.fault, self.fired, self.handles = {}, "", 0
        self.done, self.running, self.free = 0, False, False
        self.result = None
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def stop(self, stage):
        if self.free:
            return
        self.stopped.release()
        self.go.acquire()

    def loop(self):
        TL.worker = self
        for job in self.jobs:
            if not self.free:
                self.go.acquire()
            self.running = True
            self.result = job()
            self.running = False
            self.done += 1
            self.stopped.release()


class Request:
    """A request that can be made of any factory of the same options."""

    def __init__(self, kind, win=None, out=None, box=None):
        self.kind, self.win, self.out, self.box = kind, win, out, box

    def make(self, f):
        try:
            if self.kind == "map":
                b = f.create_orthophoto_tile(self.box, self.out)
            else:
                b = f.create_encoded_tile(list(self.win), None if self.out is None else tuple(self.out))
            return ("none", None) if b is None else ("tile", bytes(b))
        except Exception:
            return "exc", None


class Broken:
    """A sensor model that fails after some uses."""

    def __init__(self, sm, n):
        self.sm, self.n = sm, n

    def image_to_world(self, *a, **k):
        self.n -= 1
        if self.n < 0:
            raise RuntimeError("no location")
        return self.sm.image_to_world(*a, **k)

    def world_to_image(self, *a, **k):
        return self.sm.world_to_image(*a, **k)


class Scene:
    def __init__(self, ctx):
        from osgeo import gdal
        import cams
        import tilelab
        install(gdal)
        from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, RangeAdjustmentType, load_gdal_dataset
        from aws.osml.image_processing import GDALTileFactory
        from aws.osml.photogrammetry import ImageCoordinate
        self.gdal, self.lab, self.cams, self.ctx = gdal, tilelab, cams, ctx
        self.F, self.C, self.R, self.Factory, self.load, self.IC = GDALImageFormats, GDALCompressionOptions, RangeAdjustmentType, GDALTileFactory, load_gdal_dataset, ImageCoordinate
        self.dir = os.path.join(ctx.work, "c16src")
        self.tmp = os.path.join(ctx.work, "c16tmp")
        for d in (self.dir, self.tmp):
            os.makedirs(d, exist_ok=True)
        os.environ["TMPDIR"] = self.tmp
        gdal.SetConfigOption("CPL_TMPDIR", self.tmp)
        import tempfile
        tempfile.tempdir = None
        os.chdir(self.tmp)
        self.seen = {}
        self.n = 0

    def meta(self, ds):
        g = ds
        out = [g.GetMetadata(x) for x in sorted(g.GetMetadataDomainList() or []) if x != "DERIVED_SUBDATASETS"]
        out += [g.GetGeoTransform(can_return_null=True), g.GetProjection(), str([(p.GCPX, p.GCPY, p.GCPPixel, p.GCPLine) for p in g.GetGCPs()]), g.RasterCount, g.GetMetadata("RPC")]
        for i in range(g.RasterCount):
            b = g.GetRasterBand(i + 1)
            out += [b.GetMetadata(), b.GetNoDataValue(), b.GetMinimum(), b.GetMaximum(), b.DataType, b.GetColorInterpretation(), b.GetOverviewCount(), b.GetDescription()]
        return repr(out)

    def pixels(self, ds):
        return [ds.GetRasterBand(i + 1).Checksum() for i in range(ds.RasterCount)]

    def digest(self, b):
        name = "/vsimem/h/d%d" % self.n
        self.n += 1
        self.gdal.FileFromMemBuffer(name, b)
        try:
            d = self.gdal.Open(name)
            if d is None:
                return hashlib.sha1(b).hexdigest()
            h = hashlib.sha1()
            md = {x: d.GetMetadata(x) for x in sorted(d.GetMetadataDomainList() or [""]) if x != "DERIVED_SUBDATASETS"}
            for x in md.values():
                if isinstance(x, dict):
                    for k in [k for k in x if k.endswith(("_FDT", "DATIM"))]:
                        del x[k]
            h.update(repr((md, d.RasterXSize, d.RasterYSize, d.GetGeoTransform(can_return_null=True), d.GetProjection(), [(p.GCPX, p.GCPY, p.GCPPixel, p.GCPLine) for p in d.GetGCPs()])).encode())
            for i in range(d.RasterCount):
                bd = d.GetRasterBand(i + 1)
                h.update(repr((bd.DataType, bd.GetNoDataValue())).encode())
                h.update(bd.ReadAsArray().tobytes())
            return h.hexdigest()
        except Exception:
            return hashlib.sha1(b).hexdigest()
        finally:
            self.gdal.Unlink(name)
            if self.gdal.VSIStatL(name + ".aux.xml") is not None:
                self.gdal.Unlink(name + ".aux.xml")

    def files(self):
        out = []
        for x in self.lab.listing():
            if x.startswith("h/") or x in self.base or x == "h":
                continue
            out.append(self.seen.setdefault(x, len(self.seen) + 1))
        return sorted(out)

    def source(self, rng, w):
        kind = self.lab.KINDS[int(rng.integers(0, len(self.lab.KINDS)))]
        path = os.path.join(self.dir, "s%d.%s" % (w, "ntf" if kind[-1] == "N" or kind in ("rpc", "rpcchip", "igeolo", "sicd", "sidd") else "tif"))
        bands = int(rng.choice([1, 3])) if kind not in ("sicd", "sidd") else (2 if kind == "sicd" else 1)
        t = self.gdal.GDT_Float32 if kind == "sicd" else [self.gdal.GDT_Byte, self.gdal.GDT_UInt16][int(rng.integers(0, 2))]
        self.lab.source(kind, path, rng, self.cams, 64, 48, bands=bands, t=t)
        return kind, path

    def options(self, rng, kind):
        fmt, comp = [("NITF", "NONE"), ("NITF", "J2K"), ("NITF", None), ("GTIFF", None), ("GTIFF", "JPEG"), ("PNG", None), ("JPEG", None), ("GTIFF", "NONE"), ("NITF", "JPEG")][int(rng.integers(0, 9))]
        ra = ("NONE", "NONE", "MINMAX", "DRA")[int(rng.integers(0, 4))]
        ot = [None, None, self.gdal.GDT_Byte, self.gdal.GDT_Float32][int(rng.integers(0, 4))]
        return fmt, comp, ra, ot, int(rng.integers(0, 6)) if int(rng.integers(0, 8)) == 0 else None, int(rng.integers(0, 5)) == 0

    def factory(self, path, o):
        ds, sm = self.load(path)
        fmt, comp, ra, ot, broken, nomodel = o
        if nomodel:
            sm = None
        elif broken is not None and sm is not None:
            sm = Broken(sm, broken)
        return ds, self.Factory(ds, sm, getattr(self.F, fmt), None if comp is None else getattr(self.C, comp), ot, getattr(self.R, ra))

    def request(self, rng, path):
        k = int(rng.integers(0, 10))
        win = [int(rng.integers(0, 40)), int(rng.integers(0, 30)), int(rng.integers(1, 24)), int(rng.integers(1, 18))]
        out = None if int(rng.integers(0, 3)) else (int(rng.integers(1, 30)), int(rng.integers(1, 30)))
        if k == 0:
            win[int(rng.integers(2, 4))] = int(rng.integers(-5, 1))
        elif k == 1:
            win[int(rng.integers(0, 2))] += int(rng.choice([-60, -20, 30, 100]))
        elif k == 2:
            out = (int(rng.integers(-3, 1)), 5)
        elif k in (3, 4):
            ds, sm = self.load(path)
            if sm is not None:
                try:
                    a = [sm.image_to_world(self.IC(c)) for c in ([5.0, 5.0], [40.0, 30.0])]
                    lo, la = sorted(c.longitude for c in a), sorted(c.latitude for c in a)
                    if int(rng.integers(0, 4)) == 0:
                        lo = [v + 0.5 for v in lo]
                    return Request("map", out=(int(rng.integers(2, 24)), int(rng.integers(2, 24))), box=(lo[0], la[0], lo[1], la[1]))
                except Exception:
                    pass
        return Request("tile", win, out)


def setup(sc, rng, nw, nreq, raises):
    """Sources, factories and the outcomes of the requests when made alone."""
    shutil.rmtree(sc.dir)
    os.makedirs(sc.dir)
    sc.seen, sc.base = {}, set(sc.lab.listing())
    jobs, opts, paths, kinds = [], [], [], []
    # workers often ask for the same windows of like images at the same time, or of one image
    alike = int(rng.integers(0, 3))
    for w in range(nw):
        if w and alike == 2:
            kind, path = kinds[0], paths[0]
        else:
            kind, path = sc.source(rng, w)
        kinds.append(kind)
        paths.append(path)
        o = sc.options(rng, kind)
        opts.append(opts[0][:2] + o[2:] if w and alike else o)
        r = [sc.request(rng, path) for _ in range(nreq)]
        if w and alike:
            r = [a if a.kind == "tile" or alike == 2 else b for a, b in zip(jobs[0], r)]
        jobs.append(r)
    before = sc.lab.digest_dir(sc.dir)
    want = []
    for w in range(nw):
        r = []
        for i in range(nreq):
            try:
                ds, f = sc.factory(paths[w], opts[w])
                if opts[w][4] is not None:
                    # the failing sensor model counts its uses: repeat the requests before
                    for j in range(i):
                        jobs[w][j].make(f)
                st, b = jobs[w][i].make(f)
                r.append((st, sc.digest(b) if b is not None else ""))
            except Exception:
                r.append(("nofactory", ""))
            ds = f = None
        want.append(r)
    return kinds, paths, opts, jobs, before, want


def begin(sc, paths, opts, kinds):
    made, st = [], "ok"
    for w in range(len(paths)):
        try:
            made.append(sc.factory(paths[w], opts[w]))
        except Exception as e:
            made.append(None)
            st = repr(e)[:150]
    sc.ctx.add("begin", st=st, kinds=kinds, options=[repr(o) for o in opts])
    return made


def quiet(sc, before, made, metas, pixels):
    disk = sorted(os.listdir(sc.tmp))
    now = sc.lab.digest_dir(sc.dir)
    if made is None:
        m = p = True
    else:
        m = [sc.meta(x[0]) for x in made] == metas
        p = [sc.pixels(x[0]) for x in made] == pixels
    sc.ctx.add("quiet", files=sc.files(), disk=disk, srcfiles=now == before, srcmeta=m, srcpixels=p)


def drive_schedules(ctx):
    sc = Scene(ctx)
    rng = ctx.rng(16)
    serial = False
    for k in range(ctx.n(110, 1100)):
        b = ctx.gen[int(rng.integers(0, len(ctx.gen)))]["sched"]
        if serial:
            # workers wait for each other: one after the other
            b = sorted(b, key=lambda s: s[0])
        raises = k % 2
        sc.lab.quiet(raises)
        nw = max(s[0] for s in b)
        nreq = sum(1 for s in b if s[0] == 1 and s[1] == "start")
        kinds, paths, opts, reqs, before, want = setup(sc, rng, nw, nreq, raises)
        made = begin(sc, paths, opts, kinds)
        if any(m is None for m in made):
            continue
        metas, pixels = [sc.meta(m[0]) for m in made], [sc.pixels(m[0]) for m in made]
        ws = []
        for w in range(nw):
            ws.append(Worker(w + 1, [(lambda w=w, q=q: q.make(made[w][1])) for q in reqs[w]], raises))
        free = False

        def step(w, stage, fault):
            nonlocal free
            wk = ws[w - 1]
            started, done0 = not wk.running, wk.done
            if started and done0 == nreq:
                return
            wk.fired = ""
            if fault:
                wk.fault = {stage: "partial" if fault == "partial" else "fails"}
            wk.go.release()
            if not wk.stopped.acquire(timeout=5):
                # it waits for another worker: let all of them run to the end
                free = True
                return
            wk.fault = {}
            ended = wk.done > done0
            e = dict(w=w, stage=stage, started=started, ended=ended, fault=wk.fired, files=sc.files(), free=False, outcome="", want="", same=True, handles=wk.handles)
            if ended:
                st, data = wk.result
                e["outcome"], e["want"] = st, want[w - 1][done0][0]
                e["same"] = st != "tile" or sc.digest(data) == want[w - 1][done0][1]
            ctx.add("step", **e)

        for w, stage, fault in b:
            if free:
                break
            wk = ws[w - 1]
            if stage == "start":
                for other in ws if serial else [wk]:
                    while other.running and not free:
                        step(other.n, "clean", "")
            elif not wk.running:
                continue
            if not free:
                step(w, stage, fault)
        while not free and any(wk.running for wk in ws):
            for wk in ws:
                if wk.running:
                    step(wk.n, "clean", "")
        if free:
            serial = True
            run_free(ws)
        quiet(sc, before, made, metas, pixels)
        made = ws = None
        gc.collect()
        quiet(sc, before, None, None, None)


def run_free(ws):
    for wk in ws:
        wk.free, wk.fault = True, {}
    for wk in ws:
        for _ in range(64):
            wk.go.release()
    for wk in ws:
        wk.thread.join(30)


def drive_parallel(ctx):
    """Workers that really run at the same time."""
    sc = Scene(ctx)
    rng = ctx.rng(161)
    for k in range(ctx.n(25, 250)):
        sc.lab.quiet(k % 2)
        nw, nreq = 6, 5
        kinds, paths, opts, reqs, before, want = setup(sc, rng, nw, nreq, k % 2)
        made = begin(sc, paths, opts, kinds)
        if any(m is None for m in made):
            continue
        metas, pixels = [sc.meta(m[0]) for m in made], [sc.pixels(m[0]) for m in made]
        res = [None] * nw
        gate = threading.Barrier(nw)

        def work(w):
            gate.wait()
            res[w] = [q.make(made[w][1]) for q in reqs[w]]
        ts = [threading.Thread(target=work, args=(w,), daemon=True) for w in range(nw)]
        [t.start() for t in ts]
        [t.join(120) for t in ts]
        for w in range(nw):
            for i in range(nreq):
                st, data = res[w][i] if res[w] else ("hangs", None)
                ctx.add("step", w=w + 1, stage="all", started=True, ended=True, fault="", files=[], free=True, outcome=st, want=want[w][i][0],
                        same=st != "tile" or sc.digest(data) == want[w][i][1], handles=0)
        quiet(sc, before, made, metas, pixels)
        made = None
        quiet(sc, before, None, None, None)


MODELS = [{"module": "MC_TileStore", "cfg": "MC_TileStore.cfg", "cfg_thorough": "MC_TileStore_T.cfg", "min_states": 1000}]
GEN = {"module": "Gen_TileStore", "cfg": "Gen_TileStore.cfg", "behaviours": True, "extra": ("-simulate", "num=1500", "-depth", "60", "-seed", "1")}
Q = ["FactoryIsMade", "SameOutcomeAsAlone", "SameTileAsAlone", "NothingLeftInMemory", "NothingLeftOnDisk", "SourceFilesUnchanged", "SourceMetadataUnchanged", "SourcePixelsUnchanged"]
PARTS = [{"name": "schedules", "drive": drive_schedules, "trace": "Tr_TileStore", "gen": GEN, "expect": Q + ["FailuresAreNotTiles", "FilesAreClosed"]},
         {"name": "parallel", "drive": drive_parallel, "trace": "Tr_TileStore", "expect": Q}]
ASSUMPTIONS = ["each worker has a dataset and a factory of its own, as the raster library requires; a request runs to the end",
               "interleavings are those of the raster library calls that create, open, read and remove the temporary file; removing a file does not fail",
               "tiles are compared by pixels, types and metadata except creation dates"]
