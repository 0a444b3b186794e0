"""SAR collection geometry straight from SICD/SIDD documents, independent of the code under test (SICD volume 3, sections 2 and 4)."""
import copy
import math
import re
import xml.etree.ElementTree as ET

import numpy as np

A, F = 6378137.0, 1 / 298.257223563
E2 = F * (2 - F)


def local(t):
    return t.split("}")[-1]


def find(e, path):
    for p in path.split("/"):
        e = next((c for c in e if local(c.tag) == p), None)
        if e is None:
            return None
    return e


def num(e, path):
    return float(find(e, path).text)


def xyz(e, path):
    v = find(e, path)
    return np.array([num(v, "X"), num(v, "Y"), num(v, "Z")])


def poly1(e):
    c = np.zeros(int(e.get("order1")) + 1)
    for k in e:
        c[int(k.get("exponent1"))] = float(k.text)
    return c


def poly2(e):
    c = np.zeros((int(e.get("order1")) + 1, int(e.get("order2")) + 1))
    for k in e:
        c[int(k.get("exponent1")), int(k.get("exponent2"))] = float(k.text)
    return c


def ev1(c, x):
    return sum(a * x ** i for i, a in enumerate(c))


def ev2(c, x, y):
    return sum(c[i, j] * x ** i * y ** j for i in range(c.shape[0]) for j in range(c.shape[1]))


def der(c):
    return np.array([i * a for i, a in enumerate(c)][1:] or [0.0])


def ecef(lon, lat, h):
    s = math.sin(lat)
    n = A / math.sqrt(1 - E2 * s * s)
    return np.array([(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * (1 - E2) + h) * s])


def geodetic(p):
    x, y, z = p
    lon, r = math.atan2(y, x), math.hypot(x, y)
    lat = math.atan2(z, r * (1 - E2))
    for _ in range(12):
        n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        lat = math.atan2(z + E2 * n * math.sin(lat), r)
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    h = r * math.cos(lat) + z * math.sin(lat) - n * (1 - E2 * math.sin(lat) ** 2)
    return lon, lat, h


class Sar:
    chip = np.eye(3)        # image location to location in the image the metadata is about

    def __init__(self, xml):
        r = ET.fromstring(re.sub(r"^\s*<\?xml[^>]*\?>", "", xml))
        self.sidd = local(r.tag) == "SIDD"
        if self.sidd:
            m = find(r, "Measurement")
            p = find(m, "PlaneProjection")
            self.scp = xyz(p, "ReferencePoint/ECEF")
            self.scp_rc = (num(p, "ReferencePoint/Point/Row"), num(p, "ReferencePoint/Point/Col"))
            self.ss = (num(p, "SampleSpacing/Row"), num(p, "SampleSpacing/Col"))
            self.u = (xyz(p, "ProductPlane/RowUnitVector"), xyz(p, "ProductPlane/ColUnitVector"))
            self.first, self.kind = (0.0, 0.0), "PLANE"
            self.tcoa = poly2(find(p, "TimeCOAPoly"))
            arp = find(m, "ARPPoly")
            fp = find(m, "PixelFootprint")
            self.h, self.w = int(num(fp, "Row")), int(num(fp, "Col"))
            chip = find(r, "DownstreamReprocessing/GeometricChip")
            if chip is not None:
                self.h, self.w = int(num(chip, "ChipSize/Row")), int(num(chip, "ChipSize/Col"))
                ul, ur, ll = ([num(chip, "Original%sCoordinate/%s" % (n, k)) for k in ("Col", "Row")] for n in ("UpperLeft", "UpperRight", "LowerLeft"))
                self.chip = np.array([[(ur[0] - ul[0]) / self.w, (ll[0] - ul[0]) / self.h, ul[0]],
                                      [(ur[1] - ul[1]) / self.w, (ll[1] - ul[1]) / self.h, ul[1]], [0, 0, 1]])
        else:
            g, d = find(r, "Grid"), find(r, "ImageData")
            self.scp = xyz(r, "GeoData/SCP/ECF")
            self.scp_rc = (num(d, "SCPPixel/Row"), num(d, "SCPPixel/Col"))
            self.first = (num(d, "FirstRow"), num(d, "FirstCol"))
            self.h, self.w = int(num(d, "NumRows")), int(num(d, "NumCols"))
            self.ss = (num(g, "Row/SS"), num(g, "Col/SS"))
            self.u = (xyz(g, "Row/UVectECF"), xyz(g, "Col/UVectECF"))
            self.tcoa = poly2(find(g, "TimeCOAPoly"))
            arp = find(r, "Position/ARPPoly")
            self.kind = find(g, "Type").text.strip()
            self.algo = find(r, "ImageFormation/ImageFormAlgo").text.strip()
            if self.kind == "RGAZIM" and self.algo == "PFA":
                self.kind = "PFA"
                self.ang, self.ksf = poly1(find(r, "PFA/PolarAngPoly")), poly1(find(r, "PFA/SpatialFreqSFPoly"))
            elif self.kind == "RGAZIM":
                self.kind, self.azsf = "RGAZCOMP", num(r, "RgAzComp/AzSF")
            elif self.kind == "RGZERO":
                self.rca, self.tca = num(r, "RMA/INCA/R_CA_SCP"), poly1(find(r, "RMA/INCA/TimeCAPoly"))
                self.drsf = poly2(find(r, "RMA/INCA/DRateSFPoly"))
            else:
                self.kind = "PLANE"
        self.arp = [poly1(find(arp, a)) for a in "XYZ"]
        self.vel = [der(c) for c in self.arp]
        _, _, P, V = self.rrdot(*self.scp_xy())
        self.side = self.side_of(self.scp, P, V)
        self.stated = None if self.sidd else find(r, "SCPCOA/SideOfTrack").text.strip()

    def scp_xy(self):
        """Image location of the scene centre (column, row)."""
        v = np.linalg.solve(self.chip, [self.scp_rc[1] - self.first[1], self.scp_rc[0] - self.first[0], 1.0])
        return float(v[0]), float(v[1])

    @staticmethod
    def side_of(g, P, V):
        """+1 left of the flight direction, -1 right."""
        return 1 if float(np.dot(np.cross(P, V), g - P)) > 0 else -1

    def rrdot(self, x, y):
        """Range, range rate, position and velocity for image location (x = column, y = row)."""
        x, y, _ = self.chip @ [x, y, 1.0]
        xr, yc = (y + self.first[0] - self.scp_rc[0]) * self.ss[0], (x + self.first[1] - self.scp_rc[1]) * self.ss[1]
        t = ev2(self.tcoa, xr, yc)
        P, V = np.array([ev1(c, t) for c in self.arp]), np.array([ev1(c, t) for c in self.vel])
        d = P - self.scp
        R0 = math.sqrt(float(d @ d))
        D0 = float(V @ d) / R0
        if self.kind == "PFA":
            th, dth = ev1(self.ang, t), ev1(der(self.ang), t)
            k, dk = ev1(self.ksf, th), ev1(der(self.ksf), th)
            a, c = xr * math.cos(th) + yc * math.sin(th), -xr * math.sin(th) + yc * math.cos(th)
            return R0 + k * a, D0 + (dk * a + k * c) * dth, P, V
        if self.kind == "RGAZCOMP":
            return R0 + xr, D0 - math.sqrt(float(V @ V)) * self.azsf * yc, P, V
        if self.kind == "RGZERO":
            tc = ev1(self.tca, yc)
            v = np.array([ev1(c, tc) for c in self.vel])
            s = ev2(self.drsf, xr, yc) * float(v @ v)
            R = math.sqrt((self.rca + xr) ** 2 + s * (t - tc) ** 2)
            return R, s * (t - tc) / R, P, V
        d = P - (self.scp + xr * self.u[0] + yc * self.u[1])
        R = math.sqrt(float(d @ d))
        return R, float(V @ d) / R, P, V

    def contour(self, x, y, lo, hi, step):
        """Points of the R/Rdot circle between heights lo and hi on the imaged side, upwards, about step metres apart."""
        R, D, P, V = self.rrdot(x, y)
        v = math.sqrt(float(V @ V))
        uv = V / v
        cd = -D / v
        ctr, rad = P + R * cd * uv, R * math.sqrt(1 - cd * cd)
        left = np.cross(P, uv)
        left /= math.sqrt(float(left @ left))
        down = np.cross(left, uv)
        down *= -1 if float(down @ P) > 0 else 1

        def at(a):
            p = ctr + rad * (math.cos(a) * down + self.side * math.sin(a) * left)
            return p, geodetic(p)

        # height grows with the angle from the downward direction: bisect for the two heights
        def angle(h):
            a, b = 0.0, math.pi / 2
            for _ in range(60):
                m = (a + b) / 2
                if at(m)[1][2] < h:
                    a = m
                else:
                    b = m
            return a
        a0, a1 = angle(lo), angle(hi)
        n = max(4, int(math.ceil((a1 - a0) * rad / step)))
        return [at(a0 + (a1 - a0) * i / n)[1] for i in range(n + 1)]


# ---------------------------------------------------------------- document variants
def mirror(xml):
    """The same collection reflected in the equator: every Z, latitude and side of track changes sign."""
    r = ET.fromstring(re.sub(r"^\s*<\?xml[^>]*\?>", "", xml))

    def neg(e):
        e.text = repr(-float(e.text))

    for e in r.iter():
        n = local(e.tag)
        if n == "Z":
            if len(e):
                for c in e:
                    neg(c)
            elif e.text and e.text.strip():
                neg(e)
        elif n == "Lat" and e.text and e.text.strip():
            neg(e)
        elif n == "SideOfTrack":
            e.text = {"L": "R", "R": "L"}[e.text.strip()]
    return ser(r)


def ser(r):
    for pre, uri in (("", r.tag[1:].split("}")[0]), ("si", "urn:SICommon:1.0"), ("sfa", "urn:SFA:1.2.0")):
        ET.register_namespace(pre, uri)
    return ET.tostring(r, encoding="unicode")


def edit(xml, **kw):
    """Chip offset, grid type, range-azimuth compression, extra time-of-COA terms."""
    r = ET.fromstring(re.sub(r"^\s*<\?xml[^>]*\?>", "", xml))
    ns = r.tag[: r.tag.index("}") + 1] if "}" in r.tag else ""
    if "first" in kw:
        d = find(r, "ImageData")
        find(d, "FirstRow").text, find(d, "FirstCol").text = str(kw["first"][0]), str(kw["first"][1])
        find(d, "NumRows").text, find(d, "NumCols").text = str(kw["size"][0]), str(kw["size"][1])
    if "grid" in kw:
        find(r, "Grid/Type").text = kw["grid"]
    if "rgazcomp" in kw:
        find(r, "ImageFormation/ImageFormAlgo").text = "RGAZCOMP"
        i = list(r).index(find(r, "PFA"))
        r.remove(find(r, "PFA"))
        z = ET.Element(ns + "RgAzComp")
        ET.SubElement(z, ns + "AzSF").text = repr(kw["rgazcomp"])
        k = ET.SubElement(z, ns + "KazPoly", {"order1": "0"})
        ET.SubElement(k, ns + "Coef", {"exponent1": "0"}).text = "1.0"
        r.insert(i, z)
    if "tcoa" in kw:
        t = find(r, "Measurement/PlaneProjection/TimeCOAPoly") if local(r.tag) == "SIDD" else find(r, "Grid/TimeCOAPoly")
        tag = t[0].tag
        have = {(int(c.get("exponent1")), int(c.get("exponent2"))): c for c in t}
        for (i, j), v in kw["tcoa"].items():
            if (i, j) in have:
                have[(i, j)].text = repr(float(have[(i, j)].text) + v)
            else:
                ET.SubElement(t, tag, {"exponent1": str(i), "exponent2": str(j)}).text = repr(v)
        t.set("order1", str(max([int(t.get("order1"))] + [i for i, _ in kw["tcoa"]])))
        t.set("order2", str(max([int(t.get("order2"))] + [j for _, j in kw["tcoa"]])))
    if "drsf" in kw:
        t = find(r, "RMA/INCA/DRateSFPoly")
        for (i, j), v in kw["drsf"].items():
            ET.SubElement(t, t[0].tag, {"exponent1": str(i), "exponent2": str(j)}).text = repr(v)
        t.set("order1", str(max(i for i, _ in kw["drsf"])))
        t.set("order2", str(max(j for _, j in kw["drsf"])))
    if "ksf" in kw:
        t = find(r, "PFA/SpatialFreqSFPoly")
        for c in t:
            c.text = repr(float(c.text) + kw["ksf"].get(int(c.get("exponent1")), 0.0))
    if "ss" in kw:
        t = find(r, "Measurement/PlaneProjection/SampleSpacing")
        for c in [find(r, "Grid/Row/SS"), find(r, "Grid/Col/SS")] if t is None else t:
            c.text = repr(float(c.text) * kw["ss"][c is not (find(r, "Grid/Row/SS") if t is None else t[0])])
    if "skew" in kw:                # columns no longer at right angles to rows
        a, b = (find(r, p) for p in (("Measurement/PlaneProjection/ProductPlane/RowUnitVector", "Measurement/PlaneProjection/ProductPlane/ColUnitVector")
                                     if local(r.tag) == "SIDD" else ("Grid/Row/UVectECF", "Grid/Col/UVectECF")))
        u, v = (np.array([num(e, k) for k in "XYZ"]) for e in (a, b))
        v = v + kw["skew"] * u
        v /= math.sqrt(float(v @ v))
        for k, c in zip("XYZ", v):
            find(b, k).text = repr(float(c))
    if "chip" in kw:                # size and corners (row, col): upper left, upper right, lower left, lower right
        z = ET.Element(ns + "DownstreamReprocessing")
        g = ET.SubElement(z, ns + "GeometricChip")
        si = "{urn:SICommon:1.0}"
        for n, (a, b) in zip(("ChipSize", "OriginalUpperLeftCoordinate", "OriginalUpperRightCoordinate", "OriginalLowerLeftCoordinate",
                              "OriginalLowerRightCoordinate"), kw["chip"]):
            c = ET.SubElement(g, ns + n)
            ET.SubElement(c, si + "Row").text, ET.SubElement(c, si + "Col").text = repr(a), repr(b)
        r.insert([local(c.tag) for c in r].index("ExploitationFeatures") + 1, z)
    if "only" in kw:
        for c in list(r):
            if local(c.tag) not in kw["only"]:
                r.remove(c)
        v = find(r, "Measurement/ValidData")
        if kw["sidd"][0] == "1" and v is not None:
            find(r, "Measurement").remove(v)
    out = ser(r)
    if "sidd" in kw:
        out = out.replace("urn:SIDD:2.0.0", "urn:SIDD:" + kw["sidd"])
        if kw["sidd"][0] == "1":
            out = out.replace("urn:SICommon:1.0", "urn:SICommon:0.1")
    if "version" in kw:
        out = out.replace("urn:SICD:1.2.1", "urn:SICD:" + kw["version"])
    return out


def variants(rng, xmls):
    """name -> document.  Every image formation type, both sides of the track, chips and non-trivial aperture times."""
    out = {}
    for k in ("capella", "pfa", "rma", "sidd"):
        out[k] = xmls[k]
    W = {"capella": (5388, 19083), "pfa": (1494, 1723), "rma": (1491, 1773)}
    out["rgazcomp"] = edit(xmls["pfa"], rgazcomp=-5.79e-7 * float(rng.uniform(0.9, 1.1)))
    out["xctyat"] = edit(xmls["rma"], grid="XCTYAT")
    out["plane"] = edit(xmls["rma"], grid="PLANE")
    for k in ("capella", "pfa", "rma"):
        h, w = W[k]
        fr, fc = int(rng.integers(1, h // 2)), int(rng.integers(1, w // 2))
        out[k + "-chip"] = edit(xmls[k], first=(fr, fc), size=(h - fr - 10, w - fc - 10))
        # the aperture centre moves along the track with the pixel, differently in both directions
        out[k + "-t"] = edit(xmls[k], tcoa={(1, 0): float(rng.uniform(-3, 3)) * 1e-6, (0, 1): float(rng.uniform(1, 5)) * 1e-6,
                                            (2, 1): float(rng.uniform(-1, 1)) * 1e-14})
    out["sidd-t"] = edit(xmls["sidd"], tcoa={(1, 0): 3e-6, (0, 1): -5e-6, (1, 2): 1e-14})
    out["capella-dr"] = edit(xmls["capella"], tcoa={(0, 0): 0.05, (1, 0): 1e-6},
                             drsf={(1, 0): float(rng.uniform(-1, 1)) * 1e-7, (0, 1): float(rng.uniform(-1, 1)) * 1e-7,
                                   (0, 2): float(rng.uniform(-1, 1)) * 1e-12})
    # far from the reference time: polar angles of degrees, velocities that changed
    out["capella-late"] = edit(xmls["capella"], tcoa={(0, 0): 0.6, (1, 0): 1e-6},
                               drsf={(1, 0): float(rng.uniform(-1, 1)) * 1e-7, (0, 1): float(rng.uniform(-1, 1)) * 1e-7})
    out["pfa-late"] = edit(xmls["pfa"], tcoa={(0, 0): float(rng.choice([-1.5, 1.5])), (0, 1): 4e-5, (1, 0): -6e-5},
                           ksf={0: 0.01, 1: 0.3, 2: -0.2})
    out["plane-skew"] = edit(xmls["rma"], grid="PLANE", skew=float(rng.choice([-1, 1])) * float(rng.uniform(0.05, 0.4)))
    out["sidd-skew"] = edit(xmls["sidd"], skew=float(rng.choice([-1, 1])) * float(rng.uniform(0.05, 0.4)))
    # tens of kilometres: the Earth is round
    out["capella-wide"] = edit(xmls["capella"], ss=(30.0, 5.0))
    out["plane-wide"] = edit(xmls["rma"], grid="PLANE", ss=(70.0, 70.0))
    out["sidd-spacing"] = edit(xmls["sidd"], ss=(float(rng.uniform(0.5, 0.8)), float(rng.uniform(1.1, 1.5))))
    a = math.radians(float(rng.uniform(5, 85)))
    h, w, k = int(rng.integers(200, 900)), int(rng.integers(200, 900)), float(rng.uniform(0.5, 3))
    ul = (float(rng.uniform(5000, 9000)), float(rng.uniform(4000, 9000)))
    dc, dr = (k * w * math.sin(a), k * w * math.cos(a)), (k * h * math.cos(a), -k * h * math.sin(a))     # (row, col) along columns, rows
    out["sidd-chip"] = edit(xmls["sidd"], chip=((h, w), ul, (ul[0] + dc[0], ul[1] + dc[1]), (ul[0] + dr[0], ul[1] + dr[1]),
                                                (ul[0] + dc[0] + dr[0], ul[1] + dc[1] + dr[1])))
    h, w = int(rng.integers(200, 900)), int(rng.integers(1000, 2000))
    ul = (int(rng.integers(1000, 9000)), int(rng.integers(1000, 9000)))
    out["sidd-crop"] = edit(xmls["sidd"], chip=((h, w), ul, (ul[0], ul[1] + w), (ul[0] + h, ul[1]), (ul[0] + h, ul[1] + w)))
    for v in "13":
        out["sidd-%s00" % v] = edit(xmls["sidd"], sidd=v + ".0.0", only=("Measurement",),
                                    tcoa={(1, 0): 3e-6, (0, 1): -5e-6})
    out["capella-130"] = edit(xmls["capella"], version="1.3.0")
    out["rma-130"] = edit(xmls["rma"], version="1.3.0")
    for k in list(out):
        out[k + "-mirror"] = mirror(out[k])
    return out
