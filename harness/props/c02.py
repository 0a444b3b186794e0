"""C02: ground points lie on the requested elevation surface."""
import hashlib
import math

import cams
from props.c01 import hints
from vlib import MachineryError, q


def digest(g):
    return hashlib.sha1(("%.17g,%.17g,%.17g" % (g.longitude, g.latitude, g.elevation)).encode()).hexdigest()[:16]


def partial(center, rng):
    """Covers the ground on one side of a meridian only: elsewhere the elevation is left as it was."""
    from aws.osml.photogrammetry import ElevationModel, ElevationRegionSummary
    lon0 = center[0]
    side = 1 if rng.random() < 0.5 else -1
    hc = center[2] + float(rng.uniform(30, 200))

    def covers(lo):
        return ((lo - lon0 + math.pi) % (2 * math.pi) - math.pi) * side > 0

    class Partial(ElevationModel):
        def set_elevation(self, c):
            if covers(c.longitude):
                c.elevation = hc

        def describe_region(self, c):
            return ElevationRegionSummary(hc, hc, -32767, 30.0) if covers(c.longitude) else None

    class Nothing(ElevationModel):
        def set_elevation(self, c):
            pass

        def describe_region(self, c):
            return None
    return Partial(), (lambda lo, la: hc if covers(lo) else None), Nothing()


def run(ctx, zoo, salt, npts):
    from aws.osml.photogrammetry import ImageCoordinate
    rng = ctx.rng(salt)
    asked = []
    for ci, cam in enumerate(zoo):
        ctr = cam.center()
        S = dict(cams.surfaces(ctr, rng))
        pm, pf, nothing = partial(ctr, rng)
        if cam.kind not in ("sicd", "sidd"):
            S["partial"] = (pm, pf)
        S["nothing"] = (nothing, None)
        tol = 50 if cam.kind in ("sicd", "sidd") else 1
        for sn, (em, f) in S.items():
            for i in range(npts):
                x, y = cam.point(rng, edge=i % 4 == 0)
                hn, opt = hints(rng, ctr, cam.kind)
                tag = dict(cam=cam.name, kind=cam.kind, surf=sn, hint=hn)
                try:
                    ic = ImageCoordinate([x, y])
                    before = (ic.x, ic.y, repr(opt))
                    g = cam.model.image_to_world(ic, elevation_model=em, options=opt)
                    ctx.add("val", st="ok", before=repr(before), after=repr((ic.x, ic.y, repr(opt))), **tag)
                    want = f(g.longitude, g.latitude) if f else None
                    if want is not None:
                        ctx.add("surf", st="ok", got=q(g.elevation, 1000), want=q(want, 1000), tol=tol, **tag)
                    elif cam.default is not None:
                        ctx.add("dflt", st="ok", got=q(g.elevation, 1000), want=q(cam.default, 1000), tol=1, **tag)
                    # an elevation model without coverage is no elevation model
                    key = "%d/%.9f/%.9f/%s/%s" % (ci, x, y, "none" if sn == "nothing" else sn, repr(opt))
                    ctx.add("again", st="ok", key=key, dig=digest(g), **tag)
                    asked.append((cam, x, y, em, opt, key, tag, g, ic))
                    if sn == "nothing":
                        h = cam.model.image_to_world(ImageCoordinate([x, y]), options=opt)
                        ctx.add("again", st="ok", key=key, dig=digest(h), **tag)
                except Exception as e:
                    ctx.add("surf", st="exc", err=repr(e)[:200], **tag)
    # scribble over every answer and input handed out so far, then ask again in another order
    for _, _, _, _, _, _, _, g, ic in asked:
        try:
            g.longitude, g.latitude, g.elevation = 0.1, 0.2, 99999.0
            ic.x, ic.y = -1.0, -1.0
        except Exception:
            g.coordinate[:] = 0.3
    order = rng.permutation(len(asked))[: ctx.n(150, 1500)]
    for j in order:
        cam, x, y, em, opt, key, tag, _, _ = asked[int(j)]
        try:
            g = cam.model.image_to_world(ImageCoordinate([x, y]), elevation_model=em, options=opt)
            ctx.add("again", st="ok", key=key, dig=digest(g), **tag)
        except Exception as e:
            ctx.add("again", st="exc", err=repr(e)[:200], key=key, **tag)


def drive(kinds, salt, quick, thorough, tq=1, tt=4):
    def go(ctx):
        zoo = cams.zoo(ctx.rng(salt), ctx.n(tq, tt), kinds)
        if not zoo:
            raise MachineryError("no cameras")
        run(ctx, zoo, salt + 1, ctx.n(quick, thorough))
        s = next(e for e in ctx.rec.events if e["op"] == "surf" and e["st"] == "ok")
        d = next((e for e in ctx.rec.events if e["op"] == "dflt"), None)
        a = next(e for e in ctx.rec.events if e["op"] == "again")
        ctx.corrupt = [dict(s, got=s["got"] + 60)] + ([dict(d, got=d["got"] + 5)] if d else []) + [a, dict(a, dig="x")]
        ctx.corrupt_idx = [i for i, e in enumerate(ctx.corrupt) if e is not a]
    return go


EXP = ["OnRequestedSurface", "SameQuestionSameAnswer", "InputsUntouched"]
MODELS = [{"module": "MC_Camera", "cfg": "MC_Camera.cfg", "cfg_thorough": "MC_Camera_T.cfg", "min_states": 1000, "workers": "4"}]
PARTS = [
    {"name": "flat", "drive": drive(("affine", "projective"), 200, 4, 30), "trace": "Tr_Camera", "expect": EXP + ["DefaultElevation"]},
    {"name": "rpc", "drive": drive(("rpc",), 210, 4, 15), "trace": "Tr_Camera", "expect": EXP + ["DefaultElevation"]},
    {"name": "rsm", "drive": drive(("rsm",), 220, 3, 10), "trace": "Tr_Camera", "expect": EXP + ["DefaultElevation"]},
    {"name": "sar", "drive": drive(("sar",), 230, 10, 100), "trace": "Tr_Camera", "expect": EXP},
]
ASSUMPTIONS = ["SAR answers are allowed five centimetres from the surface, all others one millimetre"]
