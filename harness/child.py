"""Runs one driver of one property against the real code, in its own process."""
import importlib
import json
import logging
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


class Ctx:
    def __init__(self, tier, seed, gen):
        self.tier, self.seed, self.gen = tier, seed, gen
        self.thorough = tier == "thorough"
        self.rec = vlib.Recorder()
        self.corrupt, self.corrupt_idx = [], None
        self.work = os.environ.get("VERIF_WORK", "/tmp")
        self.data = os.path.join(vlib.VERIF, "data")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, salt=0):
        import numpy as np
        return np.random.default_rng([self.seed, salt])

    def add(self, op, **kw):
        return self.rec.add(op, **kw)


def main():
    prop, part, tier, seed, inp, outp = sys.argv[1:7]
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    try:
        import aws.osml.photogrammetry as ph
        root = os.path.realpath(os.path.join(vlib.REPO, "src"))
        if not os.path.realpath(ph.__file__).startswith(root):
            print("imported from the wrong place: %s" % ph.__file__)
            return 3
    except Exception:
        traceback.print_exc()
        return 1
    mod = importlib.import_module("props." + prop.lower())
    p = next(x for x in mod.PARTS if x["name"] == part)
    ctx = Ctx(tier, int(seed), json.load(open(inp)))
    try:
        p["drive"](ctx)
        data = {"events": [vlib._clean(e) for e in ctx.rec.events],
                "corrupt": [vlib._clean(e) for e in ctx.corrupt], "corrupt_idx": ctx.corrupt_idx}
    except Exception:
        # the same inputs drive a tree where the property holds to the end
        traceback.print_exc()
        return 1
    json.dump(data, open(outp, "w"))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    sys.exit(main())
