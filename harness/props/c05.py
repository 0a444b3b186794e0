"""C05: a chipped model answers exactly as the full model through the chip mapping."""
import copy
import math
import xml.etree.ElementTree as ET

import cams
import tre
from vlib import q


def stub():
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel

    class Stub(SensorModel):
        def __init__(self):
            super().__init__()
            self.calls, self.reply = [], None

        def image_to_world(self, image_coordinate, elevation_model=None, options=None):
            self.calls.append((image_coordinate.x, image_coordinate.y, elevation_model, copy.deepcopy(options)))
            self.out = GeodeticWorldCoordinate([0.1, 0.2, 3.0 + len(self.calls)])
            return self.out

        def world_to_image(self, world_coordinate):
            self.asked = world_coordinate
            return ImageCoordinate(list(self.reply))
    return Stub()


def apply(m, x, y):
    w = m[6] * x + m[7] * y + m[8]
    return (m[0] * x + m[1] * y + m[2]) / w, (m[3] * x + m[4] * y + m[5]) / w


def nest(stack, full, rng, W=60, H=40, many=False):
    from aws.osml.photogrammetry import ChippedImageSensorModel, ImageCoordinate
    model = full
    for m in stack:
        pts = [(0.0, 0.0), (float(W), 0.0), (float(W), float(H)), (0.0, float(H))]
        if many:
            pts += [(W / 2, H / 3), (W / 5, H / 2)]
        order = rng.permutation(len(pts))
        src = [pts[i] for i in order]
        dst = [apply(m, *p) for p in src]
        model = ChippedImageSensorModel([ImageCoordinate(list(p)) for p in src], [ImageCoordinate(list(p)) for p in dst], model)
    return model


class Em:
    pass


def exercise(ctx, rng, stack, npts, u, tag, W, H, lim):
    from aws.osml.photogrammetry import ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModelOptions
    try:
        full = stub()
        model = nest(stack, full, rng, W, H, many=rng.random() < 0.2)
    except Exception as e:
        ctx.add("down", st="exc", err=repr(e)[:200], stack=stack, tag=tag)
        return
    for _ in range(npts):
        x, y = int(rng.integers(0, W + 1)), int(rng.integers(0, H + 1))
        # a chip location: the integer nearest the image of (x, y)
        cx, cy = x, y
        for m in stack:
            cx, cy = apply(m, cx, cy)
        cx, cy = max(-lim, min(lim, round(cx))), max(-lim, min(lim, round(cy)))
        em = ConstantElevationModel(float(x)) if rng.random() < 0.7 else None
        opt = [None, {}, {SensorModelOptions.INITIAL_GUESS: [0.1, 0.2], "other": x}][int(rng.integers(0, 3))]
        keep = copy.deepcopy(opt)
        try:
            g = model.image_to_world(ImageCoordinate([float(cx), float(cy)]), elevation_model=em, options=opt)
            c = full.calls[-1]
            ctx.add("down", st="ok", stack=stack, x=cx, y=cy, fx=q(c[0], u), fy=q(c[1], u), u=u, tol=2, tag=tag)
            ctx.add("pass", st="ok", em=c[2] is em, opt=(c[3] or None) == (keep or None), mine=opt == keep,
                    ans=(g.longitude, g.latitude, g.elevation) == (0.1, 0.2, 3.0 + len(full.calls)), tag=tag)
            full.reply = (float(x), float(y))
            wc = GeodeticWorldCoordinate([0.3, 0.4, 5.0])
            r = model.world_to_image(wc)
            ctx.add("up", st="ok", stack=stack, x=x, y=y, cx=q(r.x, u), cy=q(r.y, u), u=u, tol=2, tag=tag)
            a = full.asked
            ctx.add("pass", st="ok", em=True, opt=True, mine=(wc.longitude, wc.latitude, wc.elevation) == (0.3, 0.4, 5.0),
                    ans=(a.longitude, a.latitude, a.elevation) == (0.3, 0.4, 5.0), tag="w2i")
        except Exception as e:
            ctx.add("down", st="exc", err=repr(e)[:200], stack=stack, tag=tag)


def drive_stacks(ctx):
    rng = ctx.rng(500)
    for b in ctx.gen:
        exercise(ctx, rng, b["stack"], ctx.n(3, 12), 1000, "tlc", 60, 40, 200)
    for i in range(ctx.n(150, 2000)):
        while True:
            m = [int(rng.integers(30, 70)) * int(rng.choice([-1, 1])), int(rng.integers(-20, 21)), int(rng.integers(-300, 300)),
                 int(rng.integers(-20, 21)), int(rng.integers(30, 70)), int(rng.integers(-300, 300)),
                 int(rng.integers(-1, 2)), int(rng.integers(-1, 2)), 50]
            ok = min(m[6] * x + m[7] * y + m[8] for x in (0, 20) for y in (0, 16)) > 10
            if ok:
                break
        exercise(ctx, rng, [m], 3, 100, "projective", 20, 16, 60)
    e = {k: next(x for x in ctx.rec.events if x["op"] == k and x["st"] == "ok") for k in ("down", "up", "pass")}
    ctx.corrupt = [dict(e["down"], fx=e["down"]["fx"] + 900), dict(e["up"], cy=e["up"]["cy"] - 900), dict(e["pass"], em=False)]


def drive_real(ctx):
    from aws.osml.photogrammetry import ChippedImageSensorModel, ImageCoordinate
    rng = ctx.rng(510)
    zoo = [c for c in cams.zoo(ctx.rng(511), 1) if c.name in ("rpc-file", "rpc0", "rsmG0", "rsmR2", "capella", "pfa", "sidd", "affine2-2", "projective0",
                                                              "rpc-composite0", "rsmG3-sec")]
    for cam in zoo:
        ctr = cam.center()
        S = cams.surfaces(ctr, rng)
        for k in range(ctx.n(3, 12)):
            sx, sy = float(rng.choice([.25, .5, 1, 2, 3])), float(rng.choice([.5, 1, 2]))
            ox, oy = float(rng.integers(0, cam.w // 2)), float(rng.integers(0, cam.h // 2))
            w, h = 512.0, 384.0
            fx, fy = rng.random() < 0.3, rng.random() < 0.3
            tr = rng.random() < 0.3

            def full_of(x, y):
                if tr:
                    x, y = y * w / h, x * h / w
                return ox + sx * (w - x if fx else x), oy + sy * (h - y if fy else y)

            def chip_of(X, Y):
                x, y = (X - ox) / sx, (Y - oy) / sy
                x, y = (w - x if fx else x), (h - y if fy else y)
                return (y * w / h, x * h / w) if tr else (x, y)
            C = [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)]
            for sn in ("none", "constant", "wavy"):
                em = S[sn][0]
                try:
                    m = ChippedImageSensorModel([ImageCoordinate(list(full_of(*p))) for p in C], [ImageCoordinate(list(p)) for p in C], cam.model)
                    for _ in range(ctx.n(2, 6)):
                        x, y = float(rng.uniform(0, w)), float(rng.uniform(0, h))
                        X, Y = full_of(x, y)
                        g = m.image_to_world(ImageCoordinate([x, y]), elevation_model=em)
                        g2 = cam.model.image_to_world(ImageCoordinate([X, Y]), elevation_model=em)
                        a, b = cam.model.world_to_image(g), cam.model.world_to_image(g2)
                        ctx.add("near", st="ok", what="down", cam=cam.name, surf=sn, ax=q(a.x, 1000), ay=q(a.y, 1000), bx=q(b.x, 1000), by=q(b.y, 1000), tol=500)
                        c = m.world_to_image(g2)
                        b = chip_of(b.x, b.y)
                        ctx.add("near", st="ok", what="up", cam=cam.name, surf=sn, ax=q(c.x, 1000), ay=q(c.y, 1000), bx=q(b[0], 1000), by=q(b[1], 1000), tol=2)
                        ctx.add("near", st="ok", what="elev", cam=cam.name, surf=sn, ax=q(g.elevation, 1000), ay=0, bx=q(g2.elevation, 1000), by=0,
                                tol=300 if sn == "wavy" else 5)
                except Exception as e:
                    ctx.add("near", st="exc", err=repr(e)[:200], cam=cam.name, surf=sn)


def drive_ichipb(ctx):
    """Chipping metadata read from an image, and SIDD chips."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate
    rng = ctx.rng(520)
    for k in range(ctx.n(25, 200)):
        r = tre.root()
        kind = ["rpc", "rsm", "cscrna", "rpc+cscrna"][k % 4]
        W, H = 4000, 3000
        if "rpc" in kind:
            P = cams.rpc_params(rng)
            tre.rpc00b(r, P)
            lon, lat = P["LONG_OFF"], P["LAT_OFF"]
        elif kind == "rsm":
            d = cams.rsm_docs(r, rng, "GHR"[(k // 4) % 3])
            lon, lat = math.degrees(d["center"][0]), math.degrees(d["center"][1])
        else:
            lon, lat = float(rng.uniform(-150, 150)), float(rng.uniform(-60, 60))
        if kind == "cscrna":
            s = .1
            tre.cscrna(r, *[(lon + s * a, lat - s * b, 0.0) for a, b in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5))])
        elif "cscrna" in kind:
            full0 = cams.factory(W, H, xml_tres=ET.fromstring(ET.tostring(r)))
            tre.cscrna(r, *cams.corners_of(full0, W, H))
        full = cams.factory(W, H, xml_tres=ET.fromstring(ET.tostring(r)))
        z = float(rng.choice([0.5, 1, 2, 4]))
        w, h = 256.0, 192.0
        ox, oy = float(rng.integers(0, 2000)), float(rng.integers(0, 1500))
        flip = rng.random() < 0.25
        op = [(0.5, 0.5), (w - .5, 0.5), (0.5, h - .5), (w - .5, h - .5)]
        f = lambda x, y: (ox + z * ((w - x) if flip else x), oy + z * y)   # noqa: E731
        fi = [f(*p) for p in op]
        tre.ichipb(r, op, fi, W, H)
        try:
            chip = cams.factory(256, 192, xml_tres=r)
            for _ in range(4):
                x, y = float(rng.uniform(0, w)), float(rng.uniform(0, h))
                X, Y = f(x, y)
                g = full.image_to_world(ImageCoordinate([X, Y]))
                F = full.world_to_image(g)
                a = chip.world_to_image(g)
                ex, ey = (F.x - ox) / z, (F.y - oy) / z
                ex = w - ex if flip else ex
                ctx.add("near", st="ok", what="ichipb up", cam=kind, ax=q(a.x, 1000), ay=q(a.y, 1000), bx=q(ex, 1000), by=q(ey, 1000), tol=5)
                g2 = chip.image_to_world(ImageCoordinate([x, y]))
                b = full.world_to_image(g2)
                ctx.add("near", st="ok", what="ichipb down", cam=kind, ax=q(b.x, 1000), ay=q(b.y, 1000), bx=q(X, 1000), by=q(Y, 1000), tol=1000)
        except Exception as e:
            ctx.add("near", st="exc", err=repr(e)[:200], cam=kind)
    full, chip = cams.sar_model("sidd"), cams.sar_model("siddchip")
    for _ in range(ctx.n(10, 60)):
        x, y = float(rng.uniform(0, 512)), float(rng.uniform(0, 512))
        try:
            g, g2 = chip.image_to_world(ImageCoordinate([x, y])), full.image_to_world(ImageCoordinate([x + 512, y + 512]))
            b, b2 = full.world_to_image(g), full.world_to_image(g2)
            ctx.add("near", st="ok", what="sidd chip", cam="sidd", ax=q(b.x, 1000), ay=q(b.y, 1000), bx=q(b2.x, 1000), by=q(b2.y, 1000), tol=20)
            c = chip.world_to_image(g2)
            ctx.add("near", st="ok", what="sidd chip up", cam="sidd", ax=q(c.x, 1000), ay=q(c.y, 1000), bx=q(x, 1000), by=q(y, 1000), tol=20)
        except Exception as e:
            ctx.add("near", st="exc", err=repr(e)[:200], cam="sidd")


MODELS = [{"module": "MC_Layers", "cfg": "MC_Layers.cfg", "cfg_thorough": "MC_Layers_T.cfg", "min_states": 1000, "workers": "4"}]
G = {"module": "MC_Layers", "behaviours": True}
PARTS = [
    {"name": "single", "drive": drive_stacks, "trace": "Tr_Layers", "gen": dict(G, cfg="Gen_Layers.cfg"),
     "expect": ["ChipAsksTheFullModelAtTheFullLocation", "FullAnswerMappedIntoTheChip", "OptionsPassedThrough", "ElevationModelPassedThrough"]},
    {"name": "nested", "drive": drive_stacks, "trace": "Tr_Layers", "gen": dict(G, cfg="Gen_Layers2.cfg"),
     "expect": ["ChipAsksTheFullModelAtTheFullLocation", "FullAnswerMappedIntoTheChip"]},
    {"name": "real", "drive": drive_real, "trace": "Tr_Layers", "expect": ["AgreesWithTheFullModel"]},
    {"name": "ichipb", "drive": drive_ichipb, "trace": "Tr_Layers", "expect": ["AgreesWithTheFullModel"]},
]
ASSUMPTIONS = []
