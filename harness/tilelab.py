"""Source images of every kind of geolocation and tools to look at tiles cut from them."""
import math
import os

import numpy as np
from osgeo import gdal, osr

RESAMPLED = {}
KINDS = ("geo", "utm", "rot", "gcp", "geoN", "utmN", "rpc", "rpcchip", "igeolo", "sicd", "sidd", "plain")


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("\0", "\\0")


def srs(epsg):
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return s.ExportToWkt()


def mem(w, h, bands=1, t=gdal.GDT_Byte, arrays=None, fill=None):
    d = gdal.GetDriverByName("MEM").Create("", w, h, bands, t)
    for b in range(bands):
        if arrays is not None:
            d.GetRasterBand(b + 1).WriteArray(arrays[b])
        elif fill is not None:
            y, x = np.mgrid[0:h, 0:w]
            d.GetRasterBand(b + 1).WriteArray(fill(x, y, b))
    return d


def copy(driver, path, d, options=()):
    x = gdal.GetDriverByName(driver).CreateCopy(path, d, options=list(options))
    if x is None:
        raise RuntimeError("could not write %s" % path)
    x = None


def _c(v):
    m, e = ("%+.6E" % v).split("E")
    return m + "E" + e[0] + str(int(e[1:]))


def rpc00b(lon, lat, h, w, hh, scale, rng=None):
    """A nearly affine RPC00B of an image w by hh with pixels of `scale` degrees."""
    j = (lambda s: 0.0) if rng is None else (lambda s: float(rng.uniform(-s, s)))
    ln, sn, de = [0.0] * 20, [0.0] * 20, [1.0] + [0.0] * 19
    sn[0], sn[1], sn[2], sn[3], sn[4] = 0.001 + j(.01), 0.95 + j(.03), 0.02 + j(.05), 0.003 + j(.01), 0.0005 + j(.002)
    ln[0], ln[1], ln[2], ln[3], ln[7] = j(.01), 0.03 + j(.05), -0.97 + j(.02), -0.004 + j(.01), 0.0003 + j(.002)
    s = "1" + "0001.00" + "0000.50" + "%06d" % (hh // 2) + "%05d" % (w // 2) + "%+08.4f" % lat + "%+09.4f" % lon + "%+05d" % h
    s += "%06d" % (hh // 2) + "%05d" % (w // 2) + "%+08.4f" % (scale * hh / 2) + "%+09.4f" % (scale * w / 2) + "%+05d" % 500
    s += "".join(_c(v) for part in (ln, de, sn, de) for v in part)
    if len(s) != 1041:
        raise RuntimeError("RPC00B of %d bytes" % len(s))
    return s


def ichipb(op, fi, fw, fh):
    s = "00" + "0002.00000" + "00" + "00" + "".join("%012.3f" % r + "%012.3f" % c for r, c in op + fi) + "%08d" % fh + "%08d" % fw
    if len(s) != 224:
        raise RuntimeError("ICHIPB of %d bytes" % len(s))
    return s


def des(xml):
    return "01U" + " " * 166 + "0773" + " " * 773 + xml


def dms(lat, lon):
    def f(v, n, a, b):
        s = round(abs(v) * 3600)
        return "%0*d%02d%02d%s" % (n, s // 3600, s // 60 % 60, s % 60, a if v >= 0 else b)
    return f(lat, 2, "N", "S") + f(lon, 3, "E", "W")


def source(kind, path, rng, cams, w=160, h=120, arrays=None, bands=1, t=gdal.GDT_Byte, coarse=False):
    """Writes an image of the given kind; returns a scale in degrees per pixel."""
    fill = (lambda x, y, b: (x + 2 * y + b) % 251 + 1) if arrays is None else None
    d = mem(w, h, bands, t, arrays, fill)
    lon, lat = float(rng.uniform(-170, 170)), float(rng.uniform(-60, 60))
    px = 10.0 ** float(rng.uniform(-4.5, -3.2))
    if coarse:
        px = float(rng.uniform(1, 4)) / 3600.0
    nitf = kind.endswith("N")
    if kind in ("geo", "geoN"):
        d.SetProjection(srs(4326))
        if nitf:
            # NITF states the corners of geographic images in whole arc seconds: pixels of whole arc seconds
            px = int(rng.integers(1, 4)) / 3600.0
            lon, lat = round(lon * 3600) / 3600.0, round(lat * 3600) / 3600.0
        d.SetGeoTransform([lon, px, 0, lat, 0, -px])
        copy("NITF" if nitf else "GTiff", path, d)
    elif kind in ("utm", "utmN", "rot"):
        d.SetProjection(srs(32633 if lat > 0 else 32733))
        # (not so coarse that the grid is curved beside that of latitude and longitude)
        s = int(rng.integers(3, 7)) * 10 if coarse else int(rng.integers(1, 8))
        px = s / 111000.0
        c, r = (s, 0.0) if kind != "rot" else (s * math.cos(0.6), s * math.sin(0.6))
        d.SetGeoTransform([float(rng.integers(400000, 600000)), c, r, float(rng.integers(1000000, 6000000)), r, -c])
        copy("NITF" if nitf else "GTiff", path, d)
    elif kind == "gcp":
        f = lambda x, y: (lon + px * x + px * .1 * y + px * 1e-4 * x * y, lat - px * y + px * .05 * x)
        g = [gdal.GCP(*f(x, y), 0, x, y) for x, y in ((0, 0), (w, 0), (w, h), (0, h))]
        d.SetGCPs(g, srs(4326))
        copy("GTiff", path, d)
    elif kind == "rpc":
        copy("NITF", path, d, ["TRE=RPC00B=" + rpc00b(lon, lat, 100, w, h, px, rng)])
    elif kind == "rpcchip":
        s = int(rng.integers(1, 4))
        x0, y0 = int(rng.integers(0, 200)), int(rng.integers(0, 200))
        fw, fh = x0 + w * s + int(rng.integers(0, 100)), y0 + h * s + int(rng.integers(0, 100))
        op = [(0.5, 0.5), (0.5, w - .5), (h - .5, 0.5), (h - .5, w - .5)]
        fi = [(y0 + s * r, x0 + s * c) for r, c in op]
        copy("NITF", path, d, ["TRE=RPC00B=" + rpc00b(lon, lat, 100, fw, fh, px, rng), "TRE=ICHIPB=" + ichipb(op, fi, fw, fh)])
        px *= s
    elif kind == "igeolo":
        px = int(rng.integers(2, 6)) / 3600.0
        f = lambda x, y: dms(lat - px * (y - .1 * x), lon + px * (x + .1 * y))
        copy("NITF", path, d, ["ICORDS=G", "IGEOLO=" + "".join(f(x, y) for x, y in ((0, 0), (w, 0), (w, h), (0, h)))])
    elif kind in ("sicd", "sidd"):
        xml = cams.sar_xml(("capella", "pfa", "rma")[int(rng.integers(0, 3))] if kind == "sicd" else ("sidd", "siddchip")[int(rng.integers(0, 2))])
        copy("NITF", path, d, ["DES=XML_DATA_CONTENT=" + esc(des(xml))])
    else:
        copy("GTiff", path, d)
    return px


def listing():
    return sorted(gdal.ReadDirRecursive("/vsimem/") or [])


def clear(prefix):
    for n in gdal.ReadDirRecursive("/vsimem/") or []:
        if n.startswith(prefix) and not n.endswith("/"):
            gdal.Unlink("/vsimem/" + n)


def quiet(exceptions):
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    (gdal.UseExceptions if exceptions else gdal.DontUseExceptions)()
    (osr.UseExceptions if exceptions else osr.DontUseExceptions)()


def digest_dir(d):
    import hashlib
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out
