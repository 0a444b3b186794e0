"""C01: image-to-ground and ground-to-image are inverses, for every camera, surface and hint."""
import math

import cams
from vlib import MachineryError, q, qceil

PX = 1000


def hints(rng, center, kind):
    """None, and guesses around the scene as lists and arrays, with search distances over three orders of magnitude."""
    import numpy as np
    from aws.osml.photogrammetry import SensorModelOptions
    k = int(rng.integers(0, 5))
    if k == 0:
        return "none", None
    if k == 1:
        return "empty", {}
    d = math.radians(float(rng.choice([0.0, 0.002, 0.02])))
    g = [center[0] + float(rng.uniform(-1, 1)) * d, center[1] + float(rng.uniform(-1, 1)) * d]
    s = math.radians(float(rng.choice([.001, .005, .05, .5])))
    if k == 2:
        return "guess", {SensorModelOptions.INITIAL_GUESS: g}
    if k == 3:
        return "distance", {SensorModelOptions.INITIAL_SEARCH_DISTANCE: s}
    if rng.random() < 0.5:
        g = np.array(g)
    return "both", {SensorModelOptions.INITIAL_GUESS: g, SensorModelOptions.INITIAL_SEARCH_DISTANCE: s}


def ground_m(a, b):
    """Horizontal distance between two nearby geodetic coordinates, metres."""
    dl = (a.longitude - b.longitude + math.pi) % (2 * math.pi) - math.pi
    return 6378137.0 * math.hypot(dl * math.cos(a.latitude), a.latitude - b.latitude)


def gsd_of(cam, em):
    """Ground size of a pixel at the image centre, from the model's own answers two pixels apart."""
    from aws.osml.photogrammetry import ImageCoordinate
    x, y = cam.x0 + cam.w / 2, cam.y0 + cam.h / 2
    p = [cam.model.image_to_world(ImageCoordinate([x + a, y + b]), elevation_model=em) for a, b in ((-20, 0), (20, 0), (0, -20), (0, 20))]
    return max(ground_m(p[0], p[1]), ground_m(p[2], p[3])) / 40


def surf_for(cam, rng):
    # a wavelength of at least sixty pixels and a slope far below the look angle
    return cams.surfaces(cam.center(), rng)


def planar(cam, g, b):
    """Whether image location b is ground point g dropped straight onto the product plane (see known finding F02)."""
    import sar
    s = SIDDS.setdefault("s", sar.Sar(cams.sar_xml("sidd")))
    off = 0.0 if cam.name == "sidd" else 512.0
    p = sar.ecef(g.longitude, g.latitude, g.elevation)
    d = [p[i] - s.scp[i] for i in range(3)]
    r, c = (sum(d[i] * s.u[k][i] for i in range(3)) / s.ss[k] + s.scp_rc[k] - off for k in (0, 1))
    return abs(b.x - c) < 2 and abs(b.y - r) < 2


SIDDS = {}


def run(ctx, zoo, salt, npts, names=("none", "constant", "wavy", "zero", "dem"), use_hints=True):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    rng = ctx.rng(salt)
    for cam in zoo:
        ctr = cam.center()
        S = surf_for(cam, rng)
        for sn in names:
            em, f = S[sn]
            for i in range(npts):
                x, y = cam.point(rng, edge=i % 3 == 0)
                hn, opt = hints(rng, ctr, cam.kind) if use_hints else ("none", None)
                tag = dict(cam=cam.name, kind=cam.kind, surf=sn, hint=hn)
                try:
                    g = cam.model.image_to_world(ImageCoordinate([x, y]), elevation_model=em, options=opt)
                    b = cam.model.world_to_image(g)
                    if cam.kind == "sidd":
                        tag["planar"] = planar(cam, g, b)
                    ctx.add("rt", st="ok", x=q(x, PX), y=q(y, PX), bx=q(b.x, PX), by=q(b.y, PX), tol=PX, **tag)
                except Exception as e:
                    ctx.add("rt", st="exc", x=q(x, PX), y=q(y, PX), err=repr(e)[:200], **tag)
    return rng


def ground(ctx, zoo, salt, npts, names=("none", "constant", "wavy")):
    """Ground points chosen independently of the inverse, on the surface, and back."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    rng = ctx.rng(salt)
    for cam in zoo:
        S = surf_for(cam, rng)
        for sn in names:
            em, f = S[sn]
            try:
                gsd = gsd_of(cam, em)
                c = cam.model.image_to_world(ImageCoordinate([cam.x0 + cam.w / 2, cam.y0 + cam.h / 2]), elevation_model=em)
                if cam.truth is not None:
                    c = GeodeticWorldCoordinate([cam.truth[0], cam.truth[1], c.elevation])
            except Exception as e:
                ctx.add("gr", st="exc", err=repr(e)[:200], cam=cam.name, kind=cam.kind, surf=sn, hint="none")
                continue
            r = min(cam.w, cam.h) * gsd * 0.3 / 6378137.0
            for i in range(npts):
                lo = c.longitude + float(rng.uniform(-r, r)) / math.cos(c.latitude)
                la = c.latitude + float(rng.uniform(-r, r))
                if abs(lo) > math.pi and cam.kind not in ("affine", "projective"):
                    lo = (lo + math.pi) % (2 * math.pi) - math.pi
                tag = dict(cam=cam.name, kind=cam.kind, surf=sn, hint="none")
                try:
                    g0 = GeodeticWorldCoordinate([lo, la, f(lo, la) if f else c.elevation])
                    p = cam.model.world_to_image(g0)
                    g1 = cam.model.image_to_world(p, elevation_model=em)
                    ctx.add("gr", st="ok", d=qceil(ground_m(g0, g1), 1000), tol=qceil(1.5 * gsd + 0.2, 1000), **tag)
                except Exception as e:
                    ctx.add("gr", st="exc", err=repr(e)[:200], **tag)


def sidd_plane(ctx, zoo, salt, npts):
    """SIDD images near their reference point, with the elevation of that point: the product plane and the surface agree there."""
    from aws.osml.photogrammetry import ConstantElevationModel, ImageCoordinate
    rng = ctx.rng(salt)
    for cam in zoo:
        m = getattr(cam.model, "full_image_sensor_model", cam.model)
        base = m.image_to_world(ImageCoordinate([7664.0, 7664.0])).elevation
        em = ConstantElevationModel(base)
        off = 0.0 if m is cam.model else 512.0
        for _ in range(npts):
            x, y = 7664.0 - off + float(rng.uniform(-300, 300)), 7664.0 - off + float(rng.uniform(-300, 300))
            tag = dict(cam=cam.name, kind=cam.kind, surf="scp", hint="none")
            try:
                b = cam.model.world_to_image(cam.model.image_to_world(ImageCoordinate([x, y]), elevation_model=em))
                ctx.add("rt", st="ok", x=q(x, PX), y=q(y, PX), bx=q(b.x, PX), by=q(b.y, PX), tol=PX, **tag)
            except Exception as e:
                ctx.add("rt", st="exc", err=repr(e)[:200], **tag)


def drive(kinds, salt, quick, thorough, tier_q=1, tier_t=4, names=("none", "constant", "wavy", "zero", "dem"), gnames=("none", "constant", "wavy")):
    def go(ctx):
        zoo = cams.zoo(ctx.rng(salt), ctx.n(tier_q, tier_t), kinds)
        if not zoo:
            raise MachineryError("no cameras")
        run(ctx, zoo, salt + 1, ctx.n(quick, thorough), names)
        ground(ctx, [c for c in zoo if not (c.kind == "sidd")], salt + 2, ctx.n(max(1, quick // 2), thorough), gnames)
        sidd_plane(ctx, [c for c in zoo if c.kind == "sidd"], salt + 3, ctx.n(quick, thorough))
        good = [e for e in ctx.rec.events if e["st"] == "ok"]
        a = next(e for e in good if e["op"] == "rt")
        ctx.corrupt = [dict(a, bx=a["bx"] + 1500), dict(a, by=a["by"] - 1500), dict(a, bx=2000000001),
                       dict(next(e for e in good if e["op"] == "gr"), d=90000000)]
    return go


EXP = ["RoundTripWithinTolerance", "GroundRoundTrip"]
MODELS = [{"module": "MC_Camera", "cfg": "MC_Camera.cfg", "cfg_thorough": "MC_Camera_T.cfg", "min_states": 1000, "workers": "4"}]
PARTS = [
    {"name": "flat", "drive": drive(("affine", "projective"), 100, 6, 40, 2, 8), "trace": "Tr_Camera", "expect": EXP},
    {"name": "rpc", "drive": drive(("rpc",), 110, 8, 30), "trace": "Tr_Camera", "expect": EXP},
    {"name": "rsm", "drive": drive(("rsm",), 120, 6, 20), "trace": "Tr_Camera", "expect": EXP},
    {"name": "sar", "drive": drive(("sar",), 130, 15, 150), "trace": "Tr_Camera", "expect": EXP},
]
ASSUMPTIONS = ["hints are within two hundredths of a degree of the scene with search distances from 0.001 to 0.5 degrees",
               "terrain varies gently compared with the look angle, ground sample distance of iterative models is at least 0.6 m"]
