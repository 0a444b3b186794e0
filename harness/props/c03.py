"""C03: ground-to-image of RPC and RSM metadata is exactly the rational polynomial in the metadata."""
import math

import numpy as np
import tre
from vlib import q


def ri(rng, a, b):
    return int(rng.integers(a, b + 1))


TERMS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2),
         (1, 1, 1), (3, 0, 0), (1, 2, 0), (1, 0, 2), (2, 1, 0), (0, 3, 0), (0, 1, 2), (2, 0, 1), (0, 2, 1), (0, 0, 3)]


def build(root, kind, w=1000, h=1000):
    from aws.osml.gdal import SensorModelFactory, SensorModelTypes
    t = {"RPC": SensorModelTypes.RPC, "RSM": SensorModelTypes.RSM}[kind]
    return SensorModelFactory(w, h, xml_tres=root, selected_sensor_model_types=[t]).build()


def rpc8(c, l2, p2, h2):
    return sum(ci * l2 ** a * p2 ** b * h2 ** d * 2 ** (3 - a - b - d) for ci, (a, b, d) in zip(c, TERMS))


def drive_rpc(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, RPCPolynomial, RPCSensorModel
    rng = ctx.rng(3)
    n = ctx.n(250, 3000)
    for i in range(n):
        style = i % 3
        co = []
        for j in range(4):
            if style == 0:
                c = [ri(rng, -3, 3) for _ in range(20)]
            elif style == 1:                      # one monomial at a time over a constant
                c = [0] * 20
                c[0] = ri(rng, 1, 3) * 7
                c[(i // 3 + 5 * j) % 20] += ri(rng, 1, 3)
            else:
                c = [ri(rng, -2, 2) for _ in range(20)]
                c[0] = 100
            co.append(c)
        ln, ld, sn, sd = co
        P = {"LINE_OFF": ri(rng, -500, 500), "SAMP_OFF": ri(rng, -500, 500), "LAT_OFF": ri(rng, -60, 60),
             "LONG_OFF": ri(rng, -150, 150) if i % 4 else ri(rng, 177, 180) * (1 - i // 4 % 2 * 2), "HEIGHT_OFF": ri(rng, -100, 500), "LINE_SCALE": ri(rng, 1, 50),
             "SAMP_SCALE": ri(rng, 1, 50), "LAT_SCALE": ri(rng, 1, 4), "LONG_SCALE": ri(rng, 1, 4),
             "HEIGHT_SCALE": ri(rng, 1, 60), "LINE_NUM_COEFF": ln, "LINE_DEN_COEFF": ld, "SAMP_NUM_COEFF": sn,
             "SAMP_DEN_COEFF": sd}
        if i % 5 == 0:
            P["order"] = [int(x) for x in rng.permutation(20)]
        rec = {}
        try:
            if i % 2:
                r = tre.root()
                tre.rpc00b(r, P)
                sm = build(r, "RPC")
            else:
                sm = RPCSensorModel(0.0, 0.0, *(float(P[k]) for k in (
                    "LINE_OFF", "SAMP_OFF", "LAT_OFF", "LONG_OFF", "HEIGHT_OFF", "LINE_SCALE", "SAMP_SCALE",
                    "LAT_SCALE", "LONG_SCALE", "HEIGHT_SCALE")), RPCPolynomial(ln), RPCPolynomial(ld),
                    RPCPolynomial(sn), RPCPolynomial(sd))
            for _ in range(ctx.n(6, 10)):
                l2, p2, h2 = ri(rng, -4, 4), ri(rng, -4, 4), ri(rng, -4, 4)
                if rpc8(ld, l2, p2, h2) == 0 or rpc8(sd, l2, p2, h2) == 0:
                    continue
                lon = P["LONG_OFF"] + P["LONG_SCALE"] * l2 / 2       # callers' longitudes are in the usual range
                lon = lon - 360 if lon > 180 else lon + 360 if lon < -180 else lon
                g = GeodeticWorldCoordinate([math.radians(lon),
                                             math.radians(P["LAT_OFF"] + P["LAT_SCALE"] * p2 / 2),
                                             P["HEIGHT_OFF"] + P["HEIGHT_SCALE"] * h2 / 2])
                im = sm.world_to_image(g)
                ctx.add("rpc", st="ok", l2=l2, p2=p2, h2=h2, sn=sn, sd=sd, ln=ln, ld=ld, sscale=P["SAMP_SCALE"],
                        soff=P["SAMP_OFF"], lscale=P["LINE_SCALE"], loff=P["LINE_OFF"], k=100,
                        col=q(im.x, 100), row=q(im.y, 100), via="tre" if i % 2 else "api")
            w = sm.image_to_world(__import__("aws.osml.photogrammetry", fromlist=["x"]).ImageCoordinate([0, 0]))
            ctx.add("height", st="ok", got=q(w.elevation, 1000), want=P["HEIGHT_OFF"] * 1000)
        except Exception as e:
            ctx.add("rpc", st="exc", err=repr(e)[:300])
    g = next(e for e in ctx.rec.events if e["op"] == "rpc" and e["st"] == "ok")
    ctx.corrupt = [dict(g, col=g["col"] + 40), dict(g, row=g["row"] - 40), dict(g, sn=[x + 1 for x in g["sn"]])]


def rsmpoly(p, x, y, z):
    px, py, pz, c = p
    s, n = 0, 0
    for k in range(pz + 1):
        for j in range(py + 1):
            for i in range(px + 1):
                s += c[n] * x ** i * y ** j * z ** k
                n += 1
    return s


def rand_poly(rng, den=False, hi=3):
    px, py, pz = ri(rng, 0, hi), ri(rng, 0, hi), ri(rng, 0, min(hi, 2))
    c = [ri(rng, -2, 2) for _ in range((px + 1) * (py + 1) * (pz + 1))]
    if den:
        c[0] = ri(rng, 1, 9)
    return [px, py, pz, c]


def pj(p):
    return {"px": p[0], "py": p[1], "pz": p[2], "c": p[3]}


def random_rotation(rng):
    a = rng.normal(size=(3, 3))
    qq, _ = np.linalg.qr(a)
    return qq


class Frame:
    """A ground domain: maps integer normalised coordinates to geodetic coordinates for one of the three forms."""

    def __init__(self, rng, form, unit=False):
        self.form = form
        if form == "R":
            self.scale = (1.0, 1.0, 1.0) if unit else (float(ri(rng, 50, 900)), float(ri(rng, 50, 900)), float(ri(rng, 20, 200)))
            self.off = (0.0, 0.0, 0.0) if unit else (float(ri(rng, -500, 500)), float(ri(rng, -500, 500)), float(ri(rng, -50, 50)))
            lon, lat = math.radians(ri(rng, -170, 170)), math.radians(ri(rng, -70, 70))
            self.origin = ecef(lon, lat, 100.0)
            e = np.array([-math.sin(lon), math.cos(lon), 0])
            nn = np.array([-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)])
            u = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
            th = rng.uniform(0, 2 * math.pi)
            self.u = np.array([math.cos(th) * e + math.sin(th) * nn, -math.sin(th) * e + math.cos(th) * nn, u])
        else:
            self.scale = (1.0, 1.0, 1.0) if unit else (ri(rng, 1, 8) / 64.0, ri(rng, 1, 8) / 64.0, float(ri(rng, 10, 200)))
            lo = ri(rng, -40, 40) / 16.0 if form == "G" else ri(rng, 40, 60) / 16.0
            self.off = (0.0, 0.0, 0.0) if unit else (lo, ri(rng, -16, 16) / 16.0, float(ri(rng, -50, 300)))
            if unit and form == "H":
                self.off = (0.0, 0.0, 0.0)

    def domain(self, n):
        return [o + s * v for o, s, v in zip(self.off, self.scale, n)]

    def geodetic(self, n):
        d = self.domain(n)
        if self.form == "R":
            return geodetic_of(self.origin + self.u.T @ np.array(d))
        if self.form == "H":
            lon = d[0] % (2 * math.pi)
            # the caller's longitude is in the usual -pi..pi range
            return [lon - 2 * math.pi if lon >= math.pi else lon, d[1], d[2]]
        return d

    def ida(self, rng, **kw):
        verts = [self.domain((x, y, z)) for z in (-3, 3) for y in (-3, 3) for x in (-3, 3)]
        p = {"GRNDD": self.form, "vertices": verts, "MINR": 0, "MAXR": 999, "MINC": 0, "MAXC": 999}
        if self.form == "R":
            p["rect"] = (self.origin, self.u)
        p.update(kw)
        return p


A_WGS, F_WGS = 6378137.0, 1 / 298.257223563
E2 = F_WGS * (2 - F_WGS)


def ecef(lon, lat, h):
    n = A_WGS / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return np.array([(n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon),
                     (n * (1 - E2) + h) * math.sin(lat)])


def geodetic_of(p):
    """Iterated latitude; independent of the code under test."""
    x, y, z = (float(v) for v in p)
    lon, r = math.atan2(y, x), math.hypot(x, y)
    lat = math.atan2(z, r * (1 - E2))
    for _ in range(20):
        n = A_WGS / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        lat = math.atan2(z + E2 * n * math.sin(lat), r)
    n = A_WGS / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    h = r / math.cos(lat) - n if abs(math.cos(lat)) > 0.3 else z / math.sin(lat) - n * (1 - E2)
    return [lon, lat, h]


def api_model(frame, P, ida):
    from aws.osml.photogrammetry import (RSMContext, RSMGroundDomain, RSMGroundDomainForm, RSMImageDomain, RSMPolynomial,
                                         RSMPolynomialSensorModel, WorldCoordinate)
    kw = {}
    if frame.form == "R":
        kw = dict(rectangular_coordinate_origin=WorldCoordinate(list(frame.origin)),
                  rectangular_coordinate_unit_vectors=[list(r) for r in frame.u])
    gd = RSMGroundDomain(RSMGroundDomainForm(frame.form), [WorldCoordinate(v) for v in ida["vertices"]],
                         ground_reference_point=None if ida.get("grp") is None else WorldCoordinate(ida["grp"]), **kw)
    cx = RSMContext(gd, RSMImageDomain(ida["MINR"], ida["MAXR"], ida["MINC"], ida["MAXC"]))
    po = [RSMPolynomial(*P[k]) for k in ("RN", "RD", "CN", "CD")]
    return RSMPolynomialSensorModel(cx, P["RSN"], P["CSN"], P["RNRMO"], P["CNRMO"], P["XNRMO"], P["YNRMO"], P["ZNRMO"],
                                    P["RNRMSF"], P["CNRMSF"], P["XNRMSF"], P["YNRMSF"], P["ZNRMSF"], *po)


def drive_rsm(ctx):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    rng = ctx.rng(4)
    for i in range(ctx.n(250, 3000)):
        form = "GHR"[i % 3]
        fr = Frame(rng, form)
        P = {"RSN": 1, "CSN": 1, "RNRMO": ri(rng, -300, 300), "CNRMO": ri(rng, -300, 300), "RNRMSF": ri(rng, 1, 20),
             "CNRMSF": ri(rng, 1, 20), "RN": rand_poly(rng), "RD": rand_poly(rng, True), "CN": rand_poly(rng),
             "CD": rand_poly(rng, True)}
        for k, j in (("X", 0), ("Y", 1), ("Z", 2)):
            P[k + "NRMO"], P[k + "NRMSF"] = fr.off[j], fr.scale[j]
        grp = None
        if rng.random() < 0.5:
            grp = fr.domain((0, 0, ri(rng, -2, 2)))
        ida = fr.ida(rng, grp=grp)
        try:
            if (i // 3) % 2:
                r = tre.root()
                tre.rsmida(r, ida)
                tre.rsmpca(r, P)
                sm = build(r, "RSM")
            else:
                sm = api_model(fr, P, ida)
            for _ in range(ctx.n(6, 10)):
                x, y, z = ri(rng, -2, 2), ri(rng, -2, 2), ri(rng, -2, 2)
                vals = {k: rsmpoly(P[k], x, y, z) for k in ("RN", "RD", "CN", "CD")}
                if vals["RD"] == 0 or vals["CD"] == 0:
                    continue
                big = max(abs(vals["RN"]) * P["RNRMSF"] + abs(P["RNRMO"] * vals["RD"]),
                          abs(vals["CN"]) * P["CNRMSF"] + abs(P["CNRMO"] * vals["CD"]))
                k = 1000 if big * 1000 < 1e9 else 100 if big * 100 < 1e9 else 10
                if big * k > 1e9:
                    continue
                im = sm.world_to_image(GeodeticWorldCoordinate(fr.geodetic((x, y, z))))
                # metre-level noise of the geodetic conversion (1e-8 m over a scale of 20 m or more) stays below one unit
                ctx.add("rsm", st="ok", form=form, x=x, y=y, z=z, k=k, row=q(im.y, k), col=q(im.x, k),
                        m={"rn": pj(P["RN"]), "rd": pj(P["RD"]), "cn": pj(P["CN"]), "cd": pj(P["CD"]),
                           "rscale": P["RNRMSF"], "roff": P["RNRMO"], "cscale": P["CNRMSF"], "coff": P["CNRMO"]},
                        via="tre" if (i // 3) % 2 else "api")
            if grp is not None:
                want = geodetic_of(fr.origin + fr.u.T @ np.array(grp))[2] if form == "R" else grp[2]
            else:
                hs = [geodetic_of(fr.origin + fr.u.T @ np.array(v))[2] if form == "R" else v[2] for v in ida["vertices"]]
                want = sum(hs) / 8
            if i % 4 == 0:
                w = sm.image_to_world(ImageCoordinate([float(P["CNRMO"]), float(P["RNRMO"])]))
                ctx.add("height", st="ok", got=q(w.elevation, 1000), want=q(want, 1000))
        except Exception as e:
            ctx.add("rsm", st="exc", err=repr(e)[:300])
    g = next(e for e in ctx.rec.events if e["op"] == "rsm" and e["st"] == "ok")
    ctx.corrupt = [dict(g, col=g["col"] + 40), dict(g, row=g["row"] - 40)]


MODELS = [{"module": "MC_Poly", "min_states": 1000}]
PARTS = [
    {"name": "rpc", "drive": drive_rpc, "trace": "Tr_Poly", "expect": ["RpcColumn", "RpcRow", "DefaultElevation"]},
    {"name": "rsm", "drive": drive_rsm, "trace": "Tr_Poly", "expect": ["RsmRow", "RsmColumn", "DefaultElevation"]},
]
ASSUMPTIONS = ["coefficients, scales and offsets are small integers so the specified value is exact; the code is compared to one quantum"]
