"""C14: geolocation of tiles, tiles of tiles and tiles made in any order."""
import math
import os

KINDS = ("geo", "utm", "rot", "gcp", "geoN", "utmN", "rpc", "rpcchip", "igeolo", "sicd", "sidd")


def drive(ctx):
    from osgeo import gdal
    import cams
    import tilelab
    from aws.osml.gdal import GDALCompressionOptions, GDALImageFormats, load_gdal_dataset
    from aws.osml.image_processing import GDALTileFactory
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    import props.c16 as c16
    sc = c16.Scene.__new__(c16.Scene)
    sc.gdal, sc.n = gdal, 0
    rng = ctx.rng(14)
    bad = 1 << 24

    def to_source(sm0, sm, x, y):
        try:
            w = sm.image_to_world(ImageCoordinate([x, y]))
            p = sm0.world_to_image(GeodeticWorldCoordinate([w.longitude, w.latitude, w.elevation]))
            v = [p.x * 64, p.y * 64]
            return [int(round(q)) if math.isfinite(q) and abs(q) < bad else bad for q in v]
        except Exception:
            return [bad, bad]

    for k in range(ctx.n(132, 800)):
        b = ctx.gen[int(rng.integers(0, len(ctx.gen)))]
        tilelab.quiet(k % 2)
        kind = KINDS[k % len(KINDS)]
        s = int(rng.integers(2, 7)) * 2
        W, H = b["w"] * s, b["h"] * s
        fmt = ("NITF", "GTIFF")[int(rng.integers(0, 2))] if kind not in ("rpc", "rpcchip", "sicd", "sidd") else "NITF"
        path = os.path.join(ctx.work, "g%d.%s" % (k, "ntf" if kind[-1] == "N" or kind in ("rpc", "rpcchip", "igeolo", "sicd", "sidd") else "tif"))
        bands, t = (2, gdal.GDT_Float32) if kind == "sicd" else (1, gdal.GDT_Byte)
        px = tilelab.source(kind, path, rng, cams, W, H, bands=bands, t=t, coarse=fmt == "NITF" and kind in ("geo", "utm", "rot", "gcp", "utmN"))
        try:
            ds, sm0 = load_gdal_dataset(path)
            st = "ok" if sm0 is not None else "no model"
        except Exception as e:
            sm0, st = None, repr(e)[:150]
        if sm0 is None:
            ctx.add("image", st=st, kind=kind, sec=0)
            continue
        sec = int(64 / 3600.0 / px) + 1
        ctx.add("image", st=st, kind=kind, sec=sec)
        cur, sm = ds, sm0
        comp = GDALCompressionOptions.NONE if fmt == "NITF" and k % 3 else None
        f = GDALTileFactory(cur, sm, getattr(GDALImageFormats, fmt), comp)
        curpath, last, keep = path, None, []
        for h in b["hist"]:
            if h[0] == "open":
                if last is None or (kind == "sicd" and wanted != out):
                    break
                name = os.path.join(ctx.work, "g%d_%d.%s" % (k, len(keep), "ntf" if fmt == "NITF" else "tif"))
                open(name, "wb").write(last)
                keep.append(name)
                try:
                    cur, sm = load_gdal_dataset(name)
                    f = GDALTileFactory(cur, sm, getattr(GDALImageFormats, fmt), comp)
                    st = "ok"
                except Exception as e:
                    st = repr(e)[:150]
                ctx.add("open", st=st, fmt="GTiff" if fmt == "GTIFF" else fmt)
                curpath, last = name, None
                if st != "ok":
                    break
                continue
            u = s
            win = [h[1] * u, h[2] * u, h[3] * u, h[4] * u]
            wanted = [h[5] * u, h[6] * u]
            out = [h[5] * u, h[6] * u] if kind != "sicd" or int(rng.integers(0, 12)) == 0 else win[2:]
            osz = None if out == win[2:] and int(rng.integers(0, 2)) else tuple(out)

            def request(fac):
                try:
                    r = fac.create_encoded_tile(list(win), osz)
                    return ("none", None) if r is None else ("tile", bytes(r))
                except Exception:
                    return "exc", None
            st, data = request(f)
            e = dict(st=st, win=win, out=out, fmt="GTiff" if fmt == "GTIFF" else fmt, pts=[], fresh=True, model=False)
            if data is not None:
                d2, m2 = load_gdal_dataset(curpath)
                st2, data2 = request(GDALTileFactory(d2, m2, getattr(GDALImageFormats, fmt), comp))
                e["fresh"] = st2 == "tile" and sc.digest(data) == sc.digest(data2)
                d2 = m2 = None
                gdal.FileFromMemBuffer("/vsimem/c14", data)
                try:
                    td, tm = load_gdal_dataset("/vsimem/c14")
                except Exception:
                    td = tm = None
                e["model"] = tm is not None
                if tm is not None:
                    xs = {(0, 0), (2 * out[0], 0), (0, 2 * out[1]), (2 * out[0], 2 * out[1]), (out[0], out[1])}
                    for _ in range(3):
                        xs.add((int(rng.integers(0, 2 * out[0] + 1)), int(rng.integers(0, 2 * out[1] + 1))))
                    e["pts"] = [[x, y] + to_source(sm0, tm, x / 2, y / 2) for x, y in sorted(xs)]
                td = tm = None
                tilelab.clear("c14")
                last = data
            ctx.add("tile", **e)
        cur = sm = f = ds = None
        for p in keep + [path]:
            for q in (p, p + ".aux.xml"):
                if os.path.exists(q):
                    os.unlink(q)


MODELS = [{"module": "MC_TileGeo", "cfg": "MC_TileGeo.cfg", "cfg_thorough": "MC_TileGeo_T.cfg", "workers": "4", "min_states": 50000}]
GEN = {"module": "Gen_TileGeo", "cfg": "Gen_TileGeo.cfg", "behaviours": True, "extra": ("-simulate", "num=1500", "-depth", "12", "-seed", "1")}
PARTS = [{"name": "tiles", "drive": drive, "trace": "Tr_TileGeo", "gen": GEN,
          "expect": ["SourceIsGeolocated", "TileOpens", "TileIsMade", "OnlyItsOwnWindow", "TileIsGeolocated", "PixelsKeepTheirPlace", "CornersKeepTheirPlace"]}]
ASSUMPTIONS = ["the reference is the sensor model the library builds for the source image",
               "tiles whose format states only corners (NITF tiles of images without RPC or SAR metadata) are compared to within a pixel and a second of arc per level; "
               "precise metadata (GeoTIFF, RPC, SICD, SIDD) to within a pixel and, unless resized, 1/20 pixel",
               "GeoTIFF, PNG and JPEG tiles of RPC, SICD and SIDD images carry no sensor model; resized SICD tiles are refused"]
