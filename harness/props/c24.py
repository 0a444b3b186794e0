"""C24: temporary GDAL configuration."""

KEYS = {"A": "OSMLV_OPTION_A", "B": "OSMLV_OPTION_B", "C": "AWS_SESSION_TOKEN", "D": "AWS_SECRET_ACCESS_KEY", "E": "AWS_ACCESS_KEY_ID"}
CREDS = {"SecretAccessKey": "8", "AccessKeyId": "8", "SessionToken": "7"}


class Boom(Exception):
    pass


class Unprintable:
    def __str__(self):
        raise Boom("no text")


def obs():
    from osgeo import gdal
    return [[k, gdal.GetConfigOption(n) or ""] for k, n in KEYS.items()]


def clear():
    from osgeo import gdal
    for n in KEYS.values():
        gdal.SetConfigOption(n, None)


class Driver:
    def __init__(self, ctx, a0, kinds):
        from osgeo import gdal
        from aws.osml.gdal.gdal_config import GDALConfigEnv
        self.ctx, self.gdal = ctx, gdal
        clear()
        gdal.SetConfigOption(KEYS["A"], a0 or None)
        b, b2 = KEYS["B"], KEYS["B"].lower()
        conv = (lambda v: int(v)) if kinds else str
        self.given = [{KEYS["A"]: conv("1"), b: conv("2")}, {KEYS["A"]: conv("3")}, {b: conv("5"), b2: conv("6")}]
        self.reqs = {"e1": [["A", "1"], ["B", "2"]], "e2": [["A", "3"]], "e3": [["B", "5"], ["B", "6"]]}
        self.env = {"e%d" % (i + 1): GDALConfigEnv(g) for i, g in enumerate(self.given)}
        # another environment of the same options; what the caller does with its options later does not matter
        self.twin = GDALConfigEnv(self.given[0])
        if kinds:
            self.given[1].clear()
            self.given[2][KEYS["C"]] = "66"
        self.GDALConfigEnv = GDALConfigEnv
        ctx.add("start", st="ok", obs=obs())

    def run(self, steps):
        """Executes steps with real nested with statements; returns the steps left when the scope ends."""
        while steps:
            s = steps[0]
            if s[0] in ("leave", "raise"):
                return steps
            steps = steps[1:]
            if s[0] == "enter":
                how, caught = "leave", False
                st, rest, entered = "ok", steps, False
                try:
                    with self.env[s[1]]:
                        entered = True
                        self.ctx.add("enter", st="ok", reqs=[list(r) for r in self.reqs[s[1]]], obs=obs())
                        rest = self.run(steps)
                        how = rest[0][0] if rest else "leave"
                        if how == "raise":
                            raise Boom("body")
                except Boom:
                    caught = True
                except Exception as e:
                    st = repr(e)[:200]
                if not entered:
                    self.ctx.add("enter", st=st, reqs=[list(r) for r in self.reqs[s[1]]], obs=obs())
                self.ctx.add("leave", st=st, how=how, propagated=caught == (how == "raise"), obs=obs())
                steps = rest[1:]
            elif s[0] == "set":
                self.gdal.SetConfigOption(KEYS[s[1]], s[2] or None)
                self.ctx.add("set", st="ok", name=s[1], val=s[2], obs=obs())
            elif s[0] == "extend":
                self.env[s[1]].with_aws_credentials(CREDS)
                self.reqs[s[1]] = self.reqs[s[1]] + [["D", "8"], ["E", "8"], ["C", "7"]]
                self.ctx.add("extend", st="ok", obs=obs())
                with self.twin:
                    self.ctx.add("enter", st="ok", reqs=[["A", "1"], ["B", "2"]], obs=obs())
                self.ctx.add("leave", st="ok", how="leave", propagated=True, obs=obs())
            elif s[0] == "failenter":
                for bad in ({KEYS["A"]: "77", KEYS["B"]: Unprintable()}, {KEYS["C"]: "77", 17: "x"}):
                    try:
                        with self.GDALConfigEnv(bad):
                            pass
                    except Exception:
                        pass
                    self.ctx.add("failenter", st="ok", obs=obs())
        return []


def drive(ctx):
    for k, g in enumerate(ctx.gen):
        h = [list(x) for x in g["hist"]]
        d = Driver(ctx, h[0][1], k % 2)
        d.run(h[1:])
    # longer random histories
    rng = ctx.rng(2400)
    for k in range(ctx.n(60, 1500)):
        d = Driver(ctx, ["", "9"][k % 2], k % 2)
        h, depth, ext = [], 0, False
        for _ in range(int(rng.integers(5, 40))):
            c = int(rng.integers(0, 8))
            if c <= 2 and depth < 8:
                h.append(["enter", "e%d" % (c + 1)])
                depth += 1
            elif c in (3, 4) and depth:
                h.append([["leave"], ["raise"]][c - 3] + [""])
                depth -= 1
            elif c == 5:
                h.append(["set", ["A", "B"][int(rng.integers(0, 2))], ["", "4", "x y"][int(rng.integers(0, 3))]])
            elif c == 6 and not ext:
                h.append(["extend", "e1"])
                ext = True
            elif c == 7:
                h.append(["failenter", ""])
        d.run(h)
    clear()
    ev = ctx.rec.events
    i = next(i for i, e in enumerate(ev) if e["op"] == "leave")
    j = max(j for j in range(i) if ev[j]["op"] == "start")
    ctx.corrupt = [dict(e) for e in ev[j:i + 1]]
    ctx.corrupt[-1] = dict(ctx.corrupt[-1], obs=[[k, v + "?"] for k, v in ctx.corrupt[-1]["obs"]])
    ctx.corrupt_idx = [len(ctx.corrupt) - 1]


MODELS = [{"module": "MC_Config", "cfg": "MC_Config.cfg", "cfg_thorough": "MC_Config_T.cfg", "min_states": 500}]
PARTS = [{"name": "scopes", "drive": drive, "trace": "Tr_Config",
          "gen": {"module": "MC_Config", "cfg": "Gen_Config.cfg", "cfg_thorough": "Gen_Config_T.cfg", "behaviours": True},
          "expect": ["RequestedOptionsInForce", "EverythingRestored", "ExceptionsPropagate", "NothingLeftByAFailedEntry", "OnlyScopesChangeOptions"]}]
ASSUMPTIONS = ["single thread: GDAL options are process wide", "option names are compared without case, as GDAL does"]
