"""C06: a composite model gives the precise model's answer."""
import copy
import xml.etree.ElementTree as ET

import cams
import tre
from props.c05 import stub
from vlib import q


def drive_stub(ctx):
    from aws.osml.photogrammetry import CompositeSensorModel, ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModelOptions
    rng = ctx.rng(600)
    ap, pr = stub(), stub()
    m = CompositeSensorModel(approximate_sensor_model=ap, precision_sensor_model=pr)
    for i in range(ctx.n(300, 5000)):
        x, y = float(rng.uniform(-100, 5000)), float(rng.uniform(-100, 5000))
        em = ConstantElevationModel(1.0) if rng.random() < .6 else None
        opt = [None, {}, {"mine": i}, {"a": [1, 2], SensorModelOptions.INITIAL_GUESS: [1.0, 1.0]},
               {SensorModelOptions.INITIAL_SEARCH_DISTANCE: 0.5}][int(rng.integers(0, 5))]
        keep = copy.deepcopy(opt)
        try:
            n = len(pr.calls)
            g = m.image_to_world(ImageCoordinate([x, y]), elevation_model=em, options=opt)
            cx, cy, cem, co = pr.calls[-1]
            hints = (SensorModelOptions.INITIAL_GUESS, SensorModelOptions.INITIAL_SEARCH_DISTANCE)
            gs = (co or {}).get(SensorModelOptions.INITIAL_GUESS)
            ctx.add("cpass", st="ok", ans=(g.longitude, g.latitude, g.elevation) == (0.1, 0.2, 3.0 + len(pr.calls)) and len(pr.calls) > n,
                    loc=(cx, cy) == (x, y), em=cem is em,
                    opt={k: v for k, v in (co or {}).items() if k not in hints} == {k: v for k, v in (keep or {}).items() if k not in hints},
                    mine=opt == keep, guess=gs is not None and len(gs) >= 2 and abs(float(gs[0]) - 0.1) < 1e-9 and abs(float(gs[1]) - 0.2) < 1e-9)
            pr.reply, ap.reply = (x + 1, y + 2), (0.0, 0.0)
            b = m.world_to_image(GeodeticWorldCoordinate([.1, .2, 3.]))
            ctx.add("cw2i", st="ok", same=(b.x, b.y) == (x + 1, y + 2))
        except Exception as e:
            ctx.add("cpass", st="exc", err=repr(e)[:200])
    e = ctx.rec.events[0]
    ctx.corrupt = [dict(e, ans=False), dict(e, opt=False)]


def drive_real(ctx):
    """Cameras with and without an approximate companion, exact and inexact."""
    from aws.osml.gdal import SensorModelTypes
    from aws.osml.photogrammetry import CompositeSensorModel, ImageCoordinate, SensorModelOptions
    from props.c01 import hints
    rng = ctx.rng(610)
    for k in range(ctx.n(10, 60)):
        r = tre.root()
        if k % 2 == 0:
            P = cams.rpc_params(rng)
            tre.rpc00b(r, P)
        else:
            cams.rsm_docs(r, rng, "GHR"[(k // 2) % 3])
        only = cams.factory(4000, 3000, xml_tres=ET.fromstring(ET.tostring(r)))
        cs = cams.corners_of(only, 4000, 3000)
        # the approximate companion is off by up to a few hundred metres
        off = float(rng.choice([0.0, 0.001, 0.004]))
        dx, dy = float(rng.uniform(-off, off)), float(rng.uniform(-off, off))
        cs = [(a + dx, b + dy, c) for a, b, c in cs]
        gt = None
        if k % 3 == 0:
            (x0, y0, _), (x1, y1, _), _, (x3, y3, _) = cs
            gt = [x0, (x1 - x0) / 4000, (x3 - x0) / 3000, y0, (y1 - y0) / 4000, (y3 - y0) / 3000]
        else:
            tre.cscrna(r, *cs)
        both = cams.factory(4000, 3000, xml_tres=r, geo_transform=gt)
        name = "%s-%s" % (["rpc", "rsm"][k % 2], "affine" if gt else "cscrna")
        ctx.add("cw2i", st="ok", same=isinstance(both, CompositeSensorModel))
        ctr = (only.image_to_world(ImageCoordinate([2000., 1500.])))
        S = cams.surfaces((ctr.longitude, ctr.latitude, ctr.elevation), rng)
        for sn in ("none", "constant", "wavy", "dem"):
            for _ in range(ctx.n(3, 8)):
                x, y = float(rng.uniform(0, 4000)), float(rng.uniform(0, 3000))
                hn, opt = hints(rng, (ctr.longitude, ctr.latitude), "rpc")
                try:
                    g = both.image_to_world(ImageCoordinate([x, y]), elevation_model=S[sn][0], options=opt)
                    g2 = only.image_to_world(ImageCoordinate([x, y]), elevation_model=S[sn][0])
                    a, b = only.world_to_image(g), only.world_to_image(g2)
                    ctx.add("cnear", st="ok", cam=name, surf=sn, hint=hn, ax=q(a.x, 1000), ay=q(a.y, 1000), bx=q(b.x, 1000), by=q(b.y, 1000), tol=1000)
                    c = both.world_to_image(g2)
                    ctx.add("cw2i", st="ok", same=(c.x, c.y) == (b.x, b.y))
                except Exception as e:
                    ctx.add("cnear", st="exc", err=repr(e)[:200], cam=name, surf=sn)


MODELS = [{"module": "MC_Layers", "cfg": "MC_Layers.cfg", "min_states": 1000},
          {"module": "MC_Camera", "cfg": "MC_Camera.cfg", "min_states": 1000, "workers": "4"}]
PARTS = [
    {"name": "stub", "drive": drive_stub, "trace": "Tr_Layers",
     "expect": ["PreciseAnswerReturned", "OtherOptionsHonoured", "GroundToImageIsThePreciseOne", "CallerOptionsUntouched"]},
    {"name": "real", "drive": drive_real, "trace": "Tr_Layers", "expect": ["AgreesWithThePreciseModel"]},
]
ASSUMPTIONS = ["the caller's own search hints may be replaced by the approximate model's: only the other options must reach the precise model"]
