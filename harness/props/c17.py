"""C17: web mercator tile sets."""
import math

from vlib import q

SETS = [("WebMercatorQuad", 256), ("WebMercatorQuadx2", 512)]
M = 1000000


def sets():
    from aws.osml.image_processing import MapTileSetFactory
    return [(n, s, MapTileSetFactory.get_for_id(n)) for n, s in SETS]


def pos(lon, lat):
    """Closed form spherical mercator: fractions of the map from its south west corner."""
    return (lon / math.pi + 1) / 2, (math.asinh(math.tan(lat)) / math.pi + 1) / 2


def ground(fx, fy):
    return (2 * fx - 1) * math.pi, math.atan(math.sinh((2 * fy - 1) * math.pi))


def tol_at(z):
    return 3 + int(2e-9 * 2 ** z / 2e7 * 1e6 * 10) + (20 if z > 20 else 0)


def bounds(ctx, name, size, ts, z, row, col):
    from aws.osml.image_processing.map_tileset import MapTileId
    tid = MapTileId(tile_matrix=z, tile_row=row, tile_col=col)
    n = 2 ** z
    try:
        t = ts.get_tile(tid)
        x0, y0 = pos(t.bounds[0], t.bounds[1])
        x1, y1 = pos(t.bounds[2], t.bounds[3])
        ctx.add("bounds", st="ok", set=name, z=z, row=row, col=col, tol=tol_at(z),
                dev=[q(x0 * n - col, M), q(y0 * n - row, M), q(x1 * n - col - 1, M), q(y1 * n - row - 1, M)],
                rid=[t.id.tile_matrix, t.id.tile_row, t.id.tile_col], id=[z, row, col], size=[int(v) for v in t.size], want=size)
        return t.bounds
    except Exception as e:
        ctx.add("bounds", st="exc", err=repr(e)[:200], set=name, z=z, row=row, col=col)


def neighbours(ctx, name, size, ts, z, row, col):
    from aws.osml.image_processing.map_tileset import MapTileId
    n = 2 ** z

    def b(z, r, c):
        return ts.get_tile(MapTileId(tile_matrix=z, tile_row=r, tile_col=c)).bounds
    try:
        me = b(z, row, col)
        w, h = me[2] - me[0], me[3] - me[1]
        dev = []
        if col + 1 < n:
            o = b(z, row, col + 1)
            dev += [(o[0] - me[2]) / w, (o[1] - me[1]) / h, (o[3] - me[3]) / h]
        if row + 1 < n:
            o = b(z, row + 1, col)
            dev += [(o[1] - me[3]) / h, (o[0] - me[0]) / w, (o[2] - me[2]) / w]
        if z < 24:
            a, c = b(z + 1, 2 * row, 2 * col), b(z + 1, 2 * row + 1, 2 * col + 1)
            u, v = b(z + 1, 2 * row + 1, 2 * col), b(z + 1, 2 * row, 2 * col + 1)
            dev += [(a[0] - me[0]) / w, (a[1] - me[1]) / h, (c[2] - me[2]) / w, (c[3] - me[3]) / h,
                    (a[2] - c[0]) / w, (a[3] - c[1]) / h, (u[0] - me[0]) / w, (u[3] - me[3]) / h, (v[2] - me[2]) / w, (v[1] - me[1]) / h]
        ctx.add("join", st="ok", set=name, z=z, row=row, col=col, tol=tol_at(z), dev=[q(d, M) for d in dev])
    except Exception as e:
        ctx.add("join", st="exc", err=repr(e)[:200], set=name, z=z, row=row, col=col)


def locate(ctx, name, size, ts, z, fx, fy, elev=0.0):
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    lon, lat = ground(fx, fy)
    n = 2 ** z
    tx, ty = fx * n, fy * n
    nx, ny = math.floor(tx), math.floor(ty)
    try:
        g = GeodeticWorldCoordinate([lon, lat, elev])
        t = ts.get_tile_for_location(g, tile_matrix=z)
        b = t.bounds
        ctx.add("locate", st="ok", set=name, z=z, nx=nx, ny=ny, fx=int((tx - nx) * M), fy=int((ty - ny) * M), tol=tol_at(z),
                row=t.id.tile_row, col=t.id.tile_col, rz=t.id.tile_matrix,
                rx=q((lon - b[0]) / (b[2] - b[0]), M), ry=q((lat - b[1]) / (b[3] - b[1]), M),
                mine=(g.longitude, g.latitude, g.elevation) == (lon, lat, elev))
        return t
    except Exception as e:
        ctx.add("locate", st="exc", err=repr(e)[:200], set=name, z=z, lon=lon, lat=lat)


def drive_grid(ctx):
    """Every tile of the low zoom levels; positions enumerated by TLC (along both axes)."""
    S = sets()
    for name, size, ts in S:
        for z in range(0, ctx.n(4, 6)):
            for row in range(2 ** z):
                for col in range(2 ** z):
                    bounds(ctx, name, size, ts, z, row, col)
                    neighbours(ctx, name, size, ts, z, row, col)
    k = 0
    for g in ctx.gen:
        n = 2 ** g["d"]
        name, size, ts = S[k % 2]
        k += 1
        u = g["u"] / n
        # along the equator-ward axis and the other, including both map edges
        locate(ctx, name, size, ts, g["z"], u, ((g["u"] * 7 + 3) % (n + 1)) / n)
        locate(ctx, name, size, ts, g["z"], ((g["u"] * 5 + 1) % (n + 1)) / n, u)
    e = ctx.rec.events[0]
    ctx.corrupt = [dict(e, dev=[0, 0, 0, 1000]), dict(e, size=[1, 1])]


def drive_deep(ctx):
    rng = ctx.rng(1700)
    from aws.osml.image_processing import MapTileSetFactory
    from aws.osml.photogrammetry import GeodeticWorldCoordinate
    S = sets()
    for k in range(ctx.n(400, 6000)):
        name, size, ts = S[k % 2]
        z = int(rng.integers(0, 25))
        n = 2 ** z
        row, col = int(rng.integers(0, n)), int(rng.integers(0, n))
        if k % 5 == 0:
            row = [0, n - 1][k % 2]
        if k % 7 == 0:
            col = [0, n - 1][(k // 2) % 2]
        bounds(ctx, name, size, ts, z, row, col)
        neighbours(ctx, name, size, ts, z, row, col)
        # a location in this very tile, near an edge or a corner of it, or anywhere
        fx, fy = rng.random(2)
        if k % 3 == 0:
            fx = float(rng.choice([1e-4, 1 - 1e-4, .5, 1e-3]))
        if k % 4 == 0:
            fy = float(rng.choice([1e-4, 1 - 1e-4, .5, 1e-3]))
        locate(ctx, name, size, ts, z, (col + fx) / n, (row + fy) / n, float(rng.choice([0., 8000., -100.])))
    for name, size, ts in S:
        for z in (0, 1, 2, 7, 18, 24):
            for fx in (0., .5, 1.):
                for fy in (0., .5, 1.):
                    locate(ctx, name, size, ts, z, fx, fy)
    for k in range(ctx.n(60, 600)):
        name, size, ts = S[k % 2]
        z = int(rng.integers(0, 20))
        cx, cy, r = rng.uniform(.1, .9), rng.uniform(.1, .9), 10 ** rng.uniform(-6, -1)
        pts = [ground(cx + r * rng.uniform(-1, 1), cy + r * rng.uniform(-1, 1)) for _ in range(int(rng.integers(1, 8)))]
        ws = [GeodeticWorldCoordinate([a, b, 0.]) for a, b in pts]
        try:
            lim = ts.get_tile_matrix_limits_for_area(ws, z)
            own = [ts.get_tile_for_location(w, z).id for w in ws]
            ctx.add("area", st="ok", set=name, z=z, lim=[int(v) for v in lim], cols=[o.tile_col for o in own], rows=[o.tile_row for o in own])
        except Exception as e:
            ctx.add("area", st="exc", err=repr(e)[:200])
    for nm in [s[0] for s in SETS] + ["WebMercatorQuadX2", "", "CDB1GlobalGrid", "webmercatorquad", "WorldCRS84Quad"]:
        try:
            got = MapTileSetFactory.get_for_id(nm)
            ctx.add("set", st="ok", name=nm, known=nm in dict(SETS), got=got is not None, rname=got.tile_matrix_set_id if got else "")
        except Exception as e:
            ctx.add("set", st="exc", err=repr(e)[:200])


MODELS = [{"module": "MC_Tiles", "cfg": "MC_Tiles.cfg", "cfg_thorough": "MC_Tiles_T.cfg", "min_states": 1000}]
PARTS = [
    {"name": "grid", "drive": drive_grid, "trace": "Tr_Tiles", "gen": {"module": "MC_Tiles", "cfg": "Gen_Tiles.cfg", "cfg_thorough": "Gen_Tiles_T.cfg", "behaviours": True},
     "expect": ["EdgesWhereTheGridPutsThem", "NoGapsOrOverlaps", "LocationGoesToTheTileContainingIt"]},
    {"name": "deep", "drive": drive_deep, "trace": "Tr_Tiles",
     "expect": ["EdgesWhereTheGridPutsThem", "NoGapsOrOverlaps", "LocationGoesToTheTileContainingIt", "LimitsCoverExactlyTheTilesOfTheBoundary", "NamedSetsOnly"]},
]
ASSUMPTIONS = ["a location on an edge shared by tiles (to 3 millionths of a tile) may be given to any of them", "zoom levels 0 to 24",
               "locations outside the map (poleward of 85.05 degrees) are unspecified"]
