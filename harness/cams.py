"""A zoo of cameras: real metadata documents and synthetic ones, with independent elevation surfaces."""
import math
import os
import xml.etree.ElementTree as ET

import numpy as np
import tre
from vlib import VERIF

DATA = os.path.join(VERIF, "data")


# ---------------------------------------------------------------- surfaces
def surfaces(center, rng, wav=None, amp=40.0):
    """name -> (elevation model or None, height function or None).  center: (lon, lat, h) in radians, metres."""
    from aws.osml.photogrammetry import ConstantElevationModel, ElevationModel, ElevationRegionSummary

    class Fn(ElevationModel):
        def __init__(self, f, lo, hi):
            super().__init__()
            self.f, self.lo, self.hi = f, lo, hi

        def set_elevation(self, c):
            c.elevation = self.f(c.longitude, c.latitude)

        def describe_region(self, c):
            return ElevationRegionSummary(self.lo, self.hi, -32767, 30.0)

    lon0, lat0, h0 = center
    k = wav or 2000.0
    base = h0 + float(rng.uniform(-50, 300))
    out = {"none": (None, None)}
    hc = round(h0 + float(rng.uniform(-80, 600)), 1)
    out["constant"] = (ConstantElevationModel(hc), lambda lo, la: hc)
    fw = lambda lo, la: base + amp * math.sin((lo - lon0) * k) * math.cos((la - lat0) * k)   # noqa: E731
    out["wavy"] = (Fn(fw, base - amp, base + amp), fw)
    z = 0.0
    out["zero"] = (ConstantElevationModel(z), lambda lo, la: z)
    dm, fd = dem_surface(center, rng)
    out["dem"] = (dm, fd)
    return out


def dem_surface(center, rng, post=None, amp=30.0):
    """A real DigitalElevationModel over generated one degree tiles of a smooth surface, 1/240 degree posts."""
    from aws.osml.photogrammetry import (DigitalElevationModel, DigitalElevationModelTileFactory, ElevationRegionSummary,
                                         GDALAffineSensorModel, GenericDEMTileSet)
    h0 = round(center[2])
    n = 240
    ph = rng.uniform(0, 6, 2)

    def posts(lon, lat):
        lo, la = np.meshgrid(lon + np.arange(n + 1) / n, lat + 1 - np.arange(n + 1) / n)
        return np.round(h0 + 60 + amp * np.sin(lo * 60 + ph[0]) * np.cos(la * 60 + ph[1]))

    cache = {}

    def grid(lon, lat):
        if (lon, lat) not in cache:
            cache[lon, lat] = posts(lon, lat)
        return cache[lon, lat]

    class TF(DigitalElevationModelTileFactory):
        def get_tile(self, path):
            # the tile name is <lon><hemi>/<lat><hemi>
            a, b = path.split("/")
            lon = int(a[:3]) * (-1 if a[3] == "w" else 1)
            lat = int(b[:2]) * (-1 if b[2] == "s" else 1)
            g = grid((lon + 180) % 360 - 180, lat)
            return (g.copy(), GDALAffineSensorModel([lon, 1 / n, 0, lat + 1, 0, -1 / n]),
                    ElevationRegionSummary(float(g.min()), float(g.max()), -32767, 100000 / n))

    def height(lo, la):
        d, e = math.degrees(lo), math.degrees(la)
        d = (d + 180) % 360 - 180
        lon, lat = math.floor(d), math.floor(e)
        g = grid(lon, lat)
        x, y = min(max((d - lon) * n, 0), n), min(max((lat + 1 - e) * n, 0), n)
        i, j = min(int(x), n - 1), min(int(y), n - 1)
        fx, fy = x - i, y - j
        return float((1 - fy) * ((1 - fx) * g[j, i] + fx * g[j, i + 1]) + fy * ((1 - fx) * g[j + 1, i] + fx * g[j + 1, i + 1]))

    return DigitalElevationModel(TileSetFmt(), TF(), raster_cache_size=3), height


def TileSetFmt():
    from aws.osml.photogrammetry import GenericDEMTileSet
    return GenericDEMTileSet(format_spec="%od%oh/%ld%lh.x")


# ---------------------------------------------------------------- synthetic metadata
def rpc_params(rng, w=4000, h=3000, lon=None, lat=None):
    lon = float(rng.uniform(-170, 170)) if lon is None else lon
    lat = float(rng.uniform(-65, 65)) if lat is None else lat
    gsd = float(rng.uniform(0.6, 8.0))
    th = float(rng.uniform(0, 2 * math.pi))
    las = h * gsd / 111000 / 2
    los = w * gsd / (111000 * math.cos(math.radians(lat))) / 2
    # about 20 degrees off nadir: one height scale (500 m) moves 180 m on the ground
    par = 500 * math.tan(math.radians(float(rng.uniform(0, 25))))
    pc, pr = par * math.cos(th) / gsd / (w / 2), par * math.sin(th) / gsd / (h / 2)
    rot = float(rng.uniform(-0.6, 0.6))
    sn, ln, sd, ld = ([0.0] * 20 for _ in range(4))
    asp = (w / h)
    sn[0], sn[1], sn[2], sn[3] = float(rng.uniform(-.01, .01)), math.cos(rot), math.sin(rot) / asp, pc
    ln[0], ln[1], ln[2], ln[3] = float(rng.uniform(-.01, .01)), math.sin(rot) * asp, -math.cos(rot), pr
    sd[0] = ld[0] = 1.0
    for c in (sn, ln, sd, ld):
        for i in range(4, 20):
            # as in real cameras, small enough to stay well behaved where the search starts (half a degree away)
            c[i] = float(rng.uniform(-1, 1)) * (2e-5 if i < 10 else 1e-7)
    for c in (sd, ld):
        for i in range(1, 4):
            c[i] = float(rng.uniform(-1, 1)) * 1e-3
    return {"LINE_OFF": h / 2, "SAMP_OFF": w / 2, "LAT_OFF": round(lat, 4), "LONG_OFF": round(lon, 4),
            "HEIGHT_OFF": int(rng.integers(-20, 800)), "LINE_SCALE": h / 2, "SAMP_SCALE": w / 2, "LAT_SCALE": las,
            "LONG_SCALE": los, "HEIGHT_SCALE": 500, "LINE_NUM_COEFF": ln, "LINE_DEN_COEFF": ld, "SAMP_NUM_COEFF": sn,
            "SAMP_DEN_COEFF": sd}


def rsm_docs(root, rng, form="G", w=4000, h=3000, sections=(1, 1), lon=None, lat=None, grp=None):
    """RSM TREs of a smooth camera in one of the ground domain forms, optionally sectioned."""
    from props.c03 import ecef
    lon = math.radians(float(rng.uniform(-170, 170)) if lon is None else lon)
    lat = math.radians(float(rng.uniform(-65, 65)) if lat is None else lat)
    h0 = float(rng.integers(0, 500))
    gsd = float(rng.uniform(0.6, 6.0))
    ida = {"GRNDD": form, "MINR": 0, "MAXR": h - 1, "MINC": 0, "MAXC": w - 1}
    if form == "R":
        off, sc = (0.0, 0.0, 0.0), (w * gsd / 2, h * gsd / 2, 500.0)
        e = np.array([-math.sin(lon), math.cos(lon), 0])
        n = np.array([-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)])
        u = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
        ida["rect"] = (ecef(lon, lat, h0), np.array([e, n, u]))
    else:
        R = 6371000.0
        dl = lon % (2 * math.pi) if form == "H" else lon
        off, sc = (dl, lat, h0), (w * gsd / 2 / R / math.cos(lat), h * gsd / 2 / R, 500.0)
    ida["vertices"] = [[off[0] + a * 1.1 * sc[0], off[1] + b * 1.1 * sc[1], off[2] + c * sc[2]]
                       for c in (-1, 1) for b in (-1, 1) for a in (-1, 1)]
    if (rng.random() < 0.5) if grp is None else grp:
        ida["grp"] = [off[0] + 0.3 * sc[0], off[1] - 0.4 * sc[1], off[2] + 25.0]
    tre.rsmida(root, ida)
    rot = float(rng.uniform(-0.5, 0.5))
    par = 500 * math.tan(math.radians(float(rng.uniform(0, 25)))) / gsd
    th = float(rng.uniform(0, 6.28))
    asp = w / h
    base_c = [0.0] * 27
    base_r = [0.0] * 27

    def idx(i, j, k):
        return i + 3 * j + 9 * k
    base_c[idx(1, 0, 0)], base_c[idx(0, 1, 0)], base_c[idx(0, 0, 1)] = math.cos(rot), math.sin(rot) / asp, par * math.cos(th) / (w / 2)
    base_r[idx(1, 0, 0)], base_r[idx(0, 1, 0)], base_r[idx(0, 0, 1)] = math.sin(rot) * asp, -math.cos(rot), par * math.sin(th) / (h / 2)
    for c in (base_c, base_r):
        for i, j, k in ((2, 0, 0), (0, 2, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1)):
            c[idx(i, j, k)] = float(rng.uniform(-1, 1)) * 2e-3
    den = [1.0, float(rng.uniform(-1, 1)) * 1e-3, float(rng.uniform(-1, 1)) * 1e-3, 0.0, 0, 0, 0, 0]
    nr, nc = sections
    for r in range(nr):
        for c in range(nc):
            # neighbouring sections differ by a little, as real ones do
            d = (0.0, 0.0) if nr * nc == 1 else (float(rng.uniform(-.1, .1)), float(rng.uniform(-.1, .1)))
            tre.rsmpca(root, {"RSN": r + 1, "CSN": c + 1, "RNRMO": h / 2 + d[0], "CNRMO": w / 2 + d[1], "XNRMO": off[0],
                              "YNRMO": off[1], "ZNRMO": off[2], "RNRMSF": h / 2, "CNRMSF": w / 2, "XNRMSF": sc[0],
                              "YNRMSF": sc[1], "ZNRMSF": sc[2], "RN": [2, 2, 2, base_r], "RD": [1, 1, 1, den],
                              "CN": [2, 2, 2, base_c], "CD": [1, 1, 1, den]})
    if nr * nc > 1:
        def low(b, s, o):
            # first order only, in domain units
            return [o - s * sum(b[idx(*t)] * off[m] / sc[m] for m, t in enumerate(((1, 0, 0), (0, 1, 0), (0, 0, 1))))] + \
                   [s * b[idx(*t)] / sc[m] for m, t in enumerate(((1, 0, 0), (0, 1, 0), (0, 0, 1)))] + [0.0] * 6
        tre.rsmpia(root, {"R": low(base_r, h / 2, h / 2), "C": low(base_c, w / 2, w / 2), "RNIS": nr, "CNIS": nc,
                          "RSSIZ": h / nr, "CSSIZ": w / nc})
    dflt = rsm_default(form, ida.get("rect"), ida["vertices"], ida.get("grp"))
    return {"center": (lon, lat, h0 if ida.get("grp") is None else h0 + 25.0), "w": w, "h": h, "gsd": gsd, "default": dflt}


def rsm_default(form, rect, vertices, grp):
    """Height of the reference point, or the average height of the corners of the ground domain."""
    from props.c03 import geodetic_of

    def height(v):
        return float(v[2]) if form != "R" else geodetic_of(np.array(rect[0]) + np.array(rect[1]).T @ np.array(v))[2]
    return height(grp) if grp is not None else sum(height(v) for v in vertices) / 8


def rsm_file_default(root):
    ida = root.find("./tre[@name='RSMIDA']")
    v = {f.get("name"): f.get("value") for f in ida.iter("field")}

    def xyz(*names):
        return None if v[names[0]].strip() == "" else [float(v[n]) for n in names]
    rect = (xyz("XUOR", "YUOR", "ZUOR"), [xyz("XUXR", "YUXR", "ZUXR"), xyz("XUYR", "YUYR", "ZUYR"), xyz("XUZR", "YUZR", "ZUZR")]) if v["GRNDD"] == "R" else None
    return rsm_default(v["GRNDD"], rect, [xyz("V%dX" % i, "V%dY" % i, "V%dZ" % i) for i in range(1, 9)], xyz("GRPX", "GRPY", "GRPZ"))


def corners_of(model, w, h):
    from aws.osml.photogrammetry import ImageCoordinate
    out = []
    for x, y in ((0, 0), (w, 0), (w, h), (0, h)):
        g = model.image_to_world(ImageCoordinate([float(x), float(y)]))
        out.append((math.degrees((g.longitude + math.pi) % (2 * math.pi) - math.pi), math.degrees(g.latitude), 0.0))
    return out


def factory(w, h, **kw):
    from aws.osml.gdal import SensorModelFactory
    return SensorModelFactory(w, h, **kw).build()


def wkt(epsg):
    from osgeo import osr
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(epsg)
    return sr.ExportToWkt()


def des_xml(xml):
    """The xml:DES form GDAL gives an XML_DATA_CONTENT segment."""
    import base64
    return ['<?xml version="1.0"?><des_list><des name="XML_DATA_CONTENT"><field name="DESVER" value="01"/>'
            '<field name="DESDATA" value="%s"/></des></des_list>' % base64.b64encode(xml.encode()).decode()]


def sar_xml(kind):
    return open(os.path.join(DATA, {"capella": "sicd/example.sicd121.capella.xml", "pfa": "sicd/example.sicd121.pfa.xml",
                                    "rma": "sicd/example.sicd121.rma.xml", "sidd": "sidd/example.sidd.xml",
                                    "siddchip": "sidd/example.sidd-chip.xml"}[kind])).read()


def sar_model(kind, xml=None):
    from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
    from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
    B = SIDDSensorModelBuilder if kind.startswith("sidd") else SICDSensorModelBuilder
    return B(xml or sar_xml(kind)).build()


class Cam:
    def __init__(self, name, kind, model, w, h, default=None, truth=None, x0=0.0, y0=0.0):
        self.name, self.kind, self.model, self.w, self.h = name, kind, model, w, h
        self.default, self.truth, self.x0, self.y0 = default, truth, x0, y0

    def point(self, rng, edge=False):
        if edge:
            fx, fy = (float(rng.choice([0.0, 1.0, 0.5, 1 / self.w])) for _ in range(2))
        else:
            fx, fy = float(rng.uniform(0, 1)), float(rng.uniform(0, 1))
        return self.x0 + fx * self.w, self.y0 + fy * self.h

    def center(self):
        from aws.osml.photogrammetry import ImageCoordinate
        g = self.model.image_to_world(ImageCoordinate([self.x0 + self.w / 2, self.y0 + self.h / 2]))
        return g.longitude, g.latitude, g.elevation


def tres(name):
    return ET.parse(os.path.join(DATA, name)).getroot()


def affine_cams(rng, n):
    out = []
    for i in range(n):
        k = i % 8
        rot = float(rng.uniform(-3, 3))
        if k == 0:
            lon, lat, s = float(rng.uniform(-170, 170)), float(rng.uniform(-80, 80)), float(rng.uniform(1e-6, 1e-3))
            gt, w = [lon, s, 0, lat, 0, -s], None
        elif k == 1:
            lon, lat, s = float(rng.uniform(-170, 170)), float(rng.uniform(-70, 70)), float(rng.uniform(1e-6, 1e-3))
            gt, w = [lon, s * math.cos(rot), s * math.sin(rot), lat, s * math.sin(rot), -s * math.cos(rot)], wkt(4326)
        elif k in (2, 3):
            z = int(rng.integers(1, 61))
            gs = float(rng.uniform(0.1, 30))
            gt = [500000 + float(rng.uniform(-2e5, 2e5)), gs * math.cos(rot), gs * math.sin(rot), float(rng.uniform(1e6, 8e6)),
                  gs * math.sin(rot), -gs * math.cos(rot)]
            w = wkt((32600 if k == 2 else 32700) + z)
        elif k == 4:
            gs = float(rng.uniform(0.1, 500))
            gt, w = [float(rng.uniform(-1.5e7, 1.5e7)), gs, 0, float(rng.uniform(-1e7, 1e7)), 0, -gs], wkt(3857)
        elif k == 5:
            gs = float(rng.uniform(1, 100))
            gt, w = [float(rng.uniform(-1e6, 1e6)), gs, 0, float(rng.uniform(-1e6, 1e6)), 0, -gs], wkt(3031)
        elif k == 6:
            gs = float(rng.uniform(1, 10))
            gt, w = [float(rng.uniform(1e5, 6e5)), gs, 0, float(rng.uniform(1e5, 8e5)), 0, gs], wkt(27700)
        else:
            gs = float(rng.uniform(1, 10))
            gt, w = [float(rng.uniform(1.5e6, 2.5e6)), gs, 0, float(rng.uniform(3e5, 9e5)), 0, -gs], wkt(2263)
        out.append((gt, w, k))
    return out


def zoo(rng, tier_n=1, kinds=None):
    """Build the cameras.  Construction failures propagate: they are failures of the code under test."""
    from aws.osml.gdal import SensorModelTypes
    cams = []

    def want(k):
        return kinds is None or k in kinds
    if want("affine"):
        for i, (gt, w, k) in enumerate(affine_cams(rng, 16 * tier_n)):
            cams.append(Cam("affine%d-%d" % (k, i), "affine", factory(1000, 800, geo_transform=gt, proj_wkt=w), 1000, 800, 0.0))
    if want("projective"):
        from osgeo import gdal
        for i in range(4 * tier_n):
            lon, lat, s, rot = float(rng.uniform(-175, 175)), float(rng.uniform(-75, 75)), float(rng.uniform(.002, .4)), float(rng.uniform(-3, 3))
            w, h = int(rng.integers(50, 20000)), int(rng.integers(50, 20000))
            g = []
            for (fx, fy) in ((0, 0), (1, 0), (1, 1), (0, 1)):
                x, y = (fx - .5) * (1 + .1 * float(rng.uniform(-1, 1))), (.5 - fy) * (1 + .1 * float(rng.uniform(-1, 1)))
                g.append((lon + s * (x * math.cos(rot) - y * math.sin(rot)), lat + s * (x * math.sin(rot) + y * math.cos(rot))))
            if i % 2:
                gcps = [gdal.GCP(a, b, 0, fx * w, fy * h) for (a, b), (fx, fy) in zip(g, ((0, 0), (1, 0), (1, 1), (0, 1)))]
                m = factory(w, h, ground_control_points=gcps)
            else:
                t = tre.root()
                tre.cscrna(t, *[(a, b, 30.0) for a, b in g])
                m = factory(w, h, xml_tres=t)
            cams.append(Cam("projective%d" % i, "projective", m, w, h, 0.0))
        cams.append(Cam("cscrna-file", "projective", factory(3000, 2000, xml_tres=tres("sample-metadata-cscrna.xml")), 3000, 2000, 0.0))
    if want("rpc"):
        t = tres("sample-metadata-ms-rpc00b.xml")
        cams.append(Cam("rpc-file", "rpc", factory(8819, 5212, xml_tres=t, selected_sensor_model_types=[SensorModelTypes.RPC]), 8819, 5212, 377.0))
        cams.append(Cam("rpc-composite-file", "composite", factory(8819, 5212, xml_tres=t), 8819, 5212, 377.0))
        cams.append(Cam("rpc-ichipb-file", "chipped", factory(512, 512, xml_tres=tres("sample-metadata-rpc00b-ichipb.xml")), 512, 512, 31.0))
        for i in range(3 * tier_n):
            # one camera looks across the antimeridian
            P = rpc_params(rng, lon=float(rng.choice([179.999, -179.999])) if i % 3 == 2 else None)
            r = tre.root()
            tre.rpc00b(r, P)
            m = factory(4000, 3000, xml_tres=r)
            tr = (math.radians(P["LONG_OFF"]), math.radians(P["LAT_OFF"]))
            cams.append(Cam("rpc%d" % i, "rpc", m, 4000, 3000, float(P["HEIGHT_OFF"]), truth=tr))
            if i % 3 == 0:
                r2 = tre.root()
                tre.rpc00b(r2, P)
                tre.cscrna(r2, *corners_of(m, 4000, 3000))
                cams.append(Cam("rpc-composite%d" % i, "composite", factory(4000, 3000, xml_tres=r2), 4000, 3000, float(P["HEIGHT_OFF"])))
    if want("rsm"):
        t = tres("i_6130a_truncated_tres.xml")
        cams.append(Cam("rsm-file", "rsm", factory(9292, 9122, xml_tres=t, selected_sensor_model_types=[SensorModelTypes.RSM]), 9292, 9122,
                        rsm_file_default(t)))
        for i in range(6 * tier_n):
            form = "GHR"[i % 3]
            r = tre.root()
            sec = [(1, 1), (2, 3), (3, 1)][(i // 3) % 3]
            # forms H and R exist to cover the antimeridian
            d = rsm_docs(r, rng, form, sections=sec, lon=float(rng.choice([179.999, -179.999])) if form != "G" and i >= 3 else None,
                         grp=bool((i // 3 + i % 3) % 2))
            m = factory(d["w"], d["h"], xml_tres=r)
            nm = "rsm%s%d%s" % (form, i, "-sec" if sec != (1, 1) else "")
            dflt = d["default"]
            cams.append(Cam(nm, "rsm", m, d["w"], d["h"], dflt, truth=d["center"][:2]))
            if i < 3:
                tre.cscrna(r, *corners_of(m, d["w"], d["h"]))
                cams.append(Cam("comp-" + nm, "composite", factory(d["w"], d["h"], xml_tres=r), d["w"], d["h"], dflt))
            if i < 3:
                op = [(0.5, 0.5), (255.5, 0.5), (0.5, 255.5), (255.5, 255.5)]
                fi = [(1000.5, 500.5), (1510.5, 500.5), (1000.5, 1010.5), (1510.5, 1010.5)]
                r3 = ET.fromstring(ET.tostring(r))
                tre.ichipb(r3, op, fi, d["w"], d["h"])
                cams.append(Cam("chip-" + nm, "chipped", factory(256, 256, xml_tres=r3), 256, 256, dflt))
    if want("sar"):
        for k in ("capella", "pfa", "rma", "sidd", "siddchip"):
            m = sar_model(k)
            full = getattr(m, "full_image_sensor_model", m)
            w, h = {"capella": (19082, 5388), "pfa": (1723, 1494), "rma": (1773, 1491), "sidd": (15327, 15328), "siddchip": (512, 512)}[k]
            cams.append(Cam(k, "sidd" if k.startswith("sidd") else "sicd", m, w, h))
    return cams
