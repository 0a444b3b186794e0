"""Shared machinery: TLC runs, event recording, quantisation.  Standard library only."""
import json
import math
import os
import re
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("OSML_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

NAN = 2000000001          # sentinel for NaN / non-finite: no tolerance reaches it
BIG = 2000000000          # saturation value


class MachineryError(Exception):
    """The checker itself failed: no verdict."""


def q(x, scale=1.0):
    """Quantise a float to a 32-bit-safe integer (round to nearest, saturating)."""
    try:
        v = float(x) * scale
    except Exception:
        return NAN
    if math.isnan(v) or math.isinf(v):
        return NAN
    v = round(v)
    return int(max(-BIG, min(BIG, v)))


def qceil(x, scale=1.0):
    """Quantise a non-negative error measure, never rounding a positive error down to a smaller integer."""
    try:
        v = abs(float(x)) * scale
    except Exception:
        return NAN
    if math.isnan(v) or math.isinf(v):
        return NAN
    return int(min(BIG, math.ceil(v - 1e-12)))


class Recorder:
    def __init__(self):
        self.events = []

    def add(self, op, **kw):
        e = {"op": op}
        e.update(kw)
        self.events.append(e)
        return e


def _clean(o):
    """Only ints, strings, booleans, lists and string-keyed dicts may reach TLC."""
    if isinstance(o, bool):
        return o
    if isinstance(o, int):
        # numbers that came out of the code may be arbitrarily wild: saturate, as q() does
        return o if abs(o) <= NAN else (BIG if o > 0 else -BIG)
    if isinstance(o, str):
        return o
    if isinstance(o, (list, tuple)):
        return [_clean(x) for x in o]
    if isinstance(o, dict):
        return {str(k): _clean(v) for k, v in o.items()}
    try:
        import numpy as np
        if isinstance(o, np.bool_):
            return bool(o)
        if isinstance(o, np.integer):
            return _clean(int(o))
        if isinstance(o, np.str_):
            return str(o)
    except ImportError:
        pass
    return "unrepresentable: %r" % (o,)


def write_trace(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(_clean(e)) + "\n")


def run_tlc(module, cfg=None, env=None, workers="1", extra=(), timeout=800, heap="4g", allow_violation=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns dict(states, distinct, out, rc)."""
    cfg = cfg or module + ".cfg"
    with tempfile.TemporaryDirectory(prefix="tlc_") as meta:
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-fp", "0",
               *extra, "-config", cfg, module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise MachineryError("TLC timed out on %s" % module) from ex
    out = p.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    states, distinct = (0, 0)
    if m:
        states, distinct = (int(x.replace(",", "")) for x in m[-1])
    if p.returncode != 0 and not allow_violation:
        raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, out[-6000:]))
    return {"states": states, "distinct": distinct, "out": out, "rc": p.returncode, "module": module}


def tlc_json(module, cfg=None, env=None, **kw):
    """Run a generator specification that writes JSON to IOEnv.OUT; returns (object, stats)."""
    with tempfile.TemporaryDirectory(prefix="gen_") as d:
        out = os.path.join(d, "out.json")
        e = {"OUT": out}
        e.update(env or {})
        st = run_tlc(module, cfg, env=e, **kw)
        if not os.path.exists(out):
            raise MachineryError("generator %s wrote nothing:\n%s" % (module, st["out"][-3000:]))
        txt = open(out).read()
        try:
            obj = json.loads(txt)
        except ValueError:
            obj = [json.loads(x) for x in txt.splitlines() if x.strip()]
        return obj, st


def validate(module, events, cfg=None, env=None, **kw):
    """Validate recorded events against a trace specification.  Total: returns every failing clause of every event."""
    with tempfile.TemporaryDirectory(prefix="val_") as d:
        tr, out = os.path.join(d, "trace.ndjson"), os.path.join(d, "verdict.json")
        write_trace(tr, events)
        e = {"TRACE": tr, "OUT": out}
        e.update(env or {})
        st = run_tlc(module, cfg, env=e, allow_violation=True, **kw)
        if st["rc"] != 0:
            # An observation the specification cannot even be evaluated on (a number beyond 32 bits where a bounded
            # one is due, a missing value) is not a behaviour of the specification.
            if "when TLC was evaluating" in st["out"] and 0 < st["distinct"] <= len(events):
                i = st["distinct"] - 1
                return [{"index": i, "clauses": ["InTheDomainOfTheSpecification"], "event": events[i]}], {}, st
            raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, st["rc"], st["out"][-6000:]))
        if not os.path.exists(out):
            raise MachineryError("trace spec %s reached no verdict:\n%s" % (module, st["out"][-4000:]))
        v = json.load(open(out))
    if v["n"] != len(events):
        raise MachineryError("trace spec %s consumed %s of %s events" % (module, v["n"], len(events)))
    bad = [{"index": b["i"] - 1, "clauses": sorted(b["c"]), "event": events[b["i"] - 1]} for b in v["bad"]]
    cov = v.get("cov", {})
    if isinstance(cov, list):
        cov = {}
    return bad, cov, st


def tlc_behaviours(module, cfg=None, env=None, **kw):
    """Run a specification that prints complete behaviours as 'BEHAVIOUR <json>' and collect them."""
    st = run_tlc(module, cfg, env=env, **kw)
    out = []
    for line in st["out"].splitlines():
        line = line.strip()
        if line.startswith('"BEHAVIOUR '):
            out.append(json.loads(json.loads(line)[len("BEHAVIOUR "):]))
    st = dict(st, out="")
    if not out:
        raise MachineryError("no behaviours from %s" % module)
    return out, st
