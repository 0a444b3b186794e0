"""C04: a sectioned replacement sensor model answers from the section the location falls in."""
import numpy as np
import tre
from props.c03 import Frame, build, pj, rand_poly, ri, rsmpoly
from vlib import q


def section_P(rng, fr, r, c):
    P = {"RSN": r + 1, "CSN": c + 1, "RNRMO": ri(rng, -50, 50) + 1000 * (r * 7 + c), "CNRMO": ri(rng, -50, 50) - 1000 * (r * 5 + 3 * c),
         "RNRMSF": ri(rng, 1, 5), "CNRMSF": ri(rng, 1, 5), "RN": rand_poly(rng, hi=1), "RD": [0, 0, 0, [1]],
         "CN": rand_poly(rng, hi=1), "CD": [0, 0, 0, [1]]}
    for k, j in (("X", 0), ("Y", 1), ("Z", 2)):
        P[k + "NRMO"], P[k + "NRMSF"] = fr.off[j], fr.scale[j]
    return P


def mj(P):
    return {"rn": pj(P["RN"]), "rd": pj(P["RD"]), "cn": pj(P["CN"]), "cd": pj(P["CD"]), "rscale": P["RNRMSF"],
            "roff": P["RNRMO"], "cscale": P["CNRMSF"], "coff": P["CNRMO"]}


def drive_ground(ctx):
    """World to image: the low order polynomials choose the section."""
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    rng = ctx.rng(41)
    for i in range(ctx.n(120, 1500)):
        form = "RGH"[i % 3]
        fr = Frame(rng, form, unit=True)
        nr, nc = ri(rng, 1, 3), ri(rng, 1, 4)
        if nr * nc < 2:
            nc = 2
        ida = fr.ida(rng, MINR=ri(rng, -20, 40), MINC=ri(rng, -20, 40))
        rs, cs = ri(rng, 2, 12), ri(rng, 2, 12)
        if i // 3 % 3 == 2:         # sections need not be whole pixels; in tenths that never put a border at a half pixel
            rs, cs = rs + int(rng.choice([1, 3, 7, 9])) / 10, cs + int(rng.choice([1, 3, 7, 9])) / 10
        ida["MAXR"], ida["MAXC"] = ida["MINR"] + int(nr * rs), ida["MINC"] + int(nc * cs)
        Ps = [[section_P(rng, fr, r, c) for c in range(nc)] for r in range(nr)]
        # doubled coefficients with odd constants keep the coarse location off the section borders
        lr2 = [2 * ri(rng, ida["MINR"] - 3, ida["MAXR"] + 3) + 1] + [2 * ri(rng, -4, 4) for _ in range(3)] + [2 * ri(rng, -1, 1) for _ in range(6)]
        lc2 = [2 * ri(rng, ida["MINC"] - 3, ida["MAXC"] + 3) + 1] + [2 * ri(rng, -4, 4) for _ in range(3)] + [2 * ri(rng, -1, 1) for _ in range(6)]
        try:
            t = tre.root()
            tre.rsmida(t, ida)
            flat = [P for row in Ps for P in row]
            for j in rng.permutation(len(flat)):
                tre.rsmpca(t, flat[int(j)])
            tre.rsmpia(t, {"R": [v / 2 for v in lr2], "C": [v / 2 for v in lc2], "RNIS": nr, "CNIS": nc, "RSSIZ": rs, "CSSIZ": cs})
            sm = build(t, "RSM")
            for _ in range(12):
                lim = 2 if form == "R" else 1
                x, y, z = ri(rng, 0, 6) if form == "H" else ri(rng, -3, 3), ri(rng, -lim, lim), ri(rng, -2, 2)
                im = sm.world_to_image(GeodeticWorldCoordinate(fr.geodetic((x, y, z))))
                ctx.add("sec2i", st="ok", form=form, x=x, y=y, z=z, dx=x, dy=y, dz=z, k=100, row=q(im.y, 100), col=q(im.x, 100),
                        lr=[10 * v for v in lr2], lc=[10 * v for v in lc2],
                        minr=20 * ida["MINR"], minc=20 * ida["MINC"], rsize=round(20 * rs), csize=round(20 * cs), nr=nr, nc=nc,
                        models=[[mj(P) for P in row] for row in Ps])
        except Exception as e:
            ctx.add("sec2i", st="exc", err=repr(e)[:300])
    g = next(e for e in ctx.rec.events if e["st"] == "ok")
    ctx.corrupt = [dict(g, row=g["row"] + 100000), dict(g, lr=[g["lr"][0] + 40000] + g["lr"][1:])]
    ctx.corrupt_idx = [0]


def drive_image(ctx):
    """Image to world: TLC's walk over (min, size, count, coordinate) chooses the probes, rows and columns crossed."""
    from aws.osml.photogrammetry import ImageCoordinate
    rng = ctx.rng(42)
    by = {}
    for g in ctx.gen:
        by.setdefault((g["min"], g["size"], g["n"]), []).append(g)
    keys = sorted(by)
    lon0, lat0 = 0.5, 0.25
    s = 2.0e-6                      # radians per pixel (about 12 m)
    probes = ctx.n(700, 6000)
    models = {}
    for i in range(probes):
        kr, kc = keys[int(rng.integers(0, len(keys)))], keys[int(rng.integers(0, len(keys)))]
        if kr[2] * kc[2] < 2:
            continue
        gr, gc = by[kr][int(rng.integers(0, len(by[kr])))], by[kc][int(rng.integers(0, len(by[kc])))]
        nr, nc = kr[2], kc[2]
        if (kr, kc) not in models:
            t = tre.root()
            ext = 400 * s
            verts = [[lon0 + a * ext, lat0 + b * ext, 100.0 + c * 100] for c in (-1, 1) for b in (-1, 1) for a in (-1, 1)]
            tre.rsmida(t, {"GRNDD": "G", "vertices": verts, "MINR": kr[0], "MAXR": kr[0] + nr * kr[1] - 1,
                           "MINC": kc[0], "MAXC": kc[0] + nc * kc[1] - 1})
            pert = {}
            for r in range(nr):
                for c in range(nc):
                    pert[r, c] = (8.0 * (r * 3 + c), -8.0 * (r + 3 * c))
                    tre.rsmpca(t, {"RSN": r + 1, "CSN": c + 1, "RNRMO": float(pert[r, c][1]), "CNRMO": float(pert[r, c][0]),
                                   "XNRMO": lon0, "YNRMO": lat0, "ZNRMO": 100.0, "RNRMSF": 100.0, "CNRMSF": 100.0,
                                   "XNRMSF": 100 * s, "YNRMSF": 100 * s, "ZNRMSF": 100.0,
                                   "RN": [1, 1, 0, [0, 0, -1, 0]], "RD": [0, 0, 0, [1]], "CN": [1, 0, 0, [0, 1]], "CD": [0, 0, 0, [1]]})
            tre.rsmpia(t, {"R": [0, 0, -1 / s] + [0] * 7, "C": [0, 1 / s] + [0] * 8, "RNIS": nr, "CNIS": nc,
                           "RSSIZ": kr[1], "CSSIZ": kc[1]})
            models[kr, kc] = (build(t, "RSM"), pert)
        u = 4
        ry, cx = gr["v"] * u + int(rng.integers(0, u)), gc["v"] * u + int(rng.integers(0, u))
        try:
            sm, pert = models[kr, kc]
            w = sm.image_to_world(ImageCoordinate([cx / u, ry / u]))
            res = [[q(np.hypot((w.longitude - lon0) / s + pert[r, c][0] - cx / u,
                               -(w.latitude - lat0) / s + pert[r, c][1] - ry / u), 1000) for c in range(nc)] for r in range(nr)]
            ctx.add("sec2w", st="ok", ry=ry, cx=cx, u=u, minr=kr[0], minc=kc[0], rsize=kr[1], csize=kc[1], nr=nr, nc=nc,
                    res=res, tol=1500)
        except Exception as e:
            ctx.add("sec2w", st="exc", err=repr(e)[:300])
    g = next(e for e in ctx.rec.events if e["st"] == "ok")
    ctx.corrupt = [dict(g, res=[[x + 5000 for x in r] for r in g["res"]])]


MODELS = [{"module": "MC_Poly", "min_states": 1000}]
PARTS = [
    {"name": "ground", "drive": drive_ground, "trace": "Tr_Poly", "expect": ["SectionChosenByCoarseLocation"]},
    {"name": "image", "drive": drive_image, "trace": "Tr_Poly", "gen": {"module": "MC_Poly", "cfg": "Gen_Poly.cfg", "behaviours": True},
     "expect": ["SectionChosenByImageLocation"]},
]
ASSUMPTIONS = ["sections are told apart by polynomials that differ by more than the accuracy of the inverse"]
