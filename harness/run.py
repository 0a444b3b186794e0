#!/usr/bin/env python3
"""run.py <property> [quick|thorough] : decide one property.  Exit 0 held, 1 VIOLATION, 2 machinery error."""
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib  # noqa: E402

PY = os.environ.get("OSML_PYTHON", "/opt/venv/bin/python")


def child_env(work):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME", "JAVA_TOOL_OPTIONS")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), PYTHONHASHSEED="0",
             PROJ_NETWORK="OFF", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             PYTHONPATH=os.path.join(vlib.REPO, "src") + ":" + HERE, VERIF_WORK=work, TMPDIR=work,
             GDAL_PAM_ENABLED=os.environ.get("GDAL_PAM_ENABLED", "YES"), LANG="C.UTF-8")
    return e


def load_known():
    p = os.path.join(vlib.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("status") == "known"]


def matches(finding, prop, part, bad, clause):
    if finding["property"] != prop or finding["part"] != part or finding["clause"] != clause:
        return False
    ev = bad["event"]
    return all(ev.get(k) in v if isinstance(v, list) else ev.get(k) == v for k, v in finding.get("match", {}).items())


def run_part(prop, part, mod, tier, seed, work):
    """Generate (TLC) -> drive the real code (subprocess) -> validate (TLC)."""
    t0 = time.time()
    w = os.path.join(work, part["name"])
    os.makedirs(w, exist_ok=True)
    res = {"part": part["name"], "bad": [], "cov": {}, "events": 0, "states": 0, "transitions": 0, "crash": None,
           "known_bad": []}
    gen = None
    if part.get("gen"):
        g = part["gen"]
        genv = dict(g.get("env", {}))
        genv.update(g.get("env_" + tier, {}))
        fn = vlib.tlc_behaviours if g.get("behaviours") else vlib.tlc_json
        gen, st = fn(g["module"], g.get("cfg_" + tier, g.get("cfg")), env=genv,
                     workers=g.get("workers", "1"), extra=tuple(g.get("extra", ())),
                     timeout=g.get("timeout", 800), heap=g.get("heap", "4g"))
        res["states"] += st["distinct"]
        res["transitions"] += st["states"]
        res["generated"] = len(gen) if isinstance(gen, list) else 1
    inp = os.path.join(w, "in.json")
    json.dump(gen, open(inp, "w"))
    outp = os.path.join(w, "events.json")
    log = open(os.path.join(w, "log.txt"), "w")
    try:
        p = subprocess.run([PY, os.path.join(HERE, "child.py"), prop, part["name"], tier, str(seed), inp, outp],
                           env=child_env(w), cwd=w, stdout=log, stderr=subprocess.STDOUT,
                           timeout=part.get("timeout_" + tier, part.get("timeout", 700)))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    log.close()
    tail = open(os.path.join(w, "log.txt"), errors="replace").read()[-4000:]
    if rc == 3:
        raise vlib.MachineryError("driver %s/%s: %s" % (prop, part["name"], tail))
    if rc != 0 or not os.path.exists(outp):
        res["crash"] = {"rc": rc, "log": tail}
        return res
    data = json.load(open(outp))
    events = data["events"]
    res["events"] = len(events)
    res["samples"] = events[: 2]
    bad, cov, st = vlib.validate(part["trace"], events, cfg=part.get("trace_cfg", "Tr.cfg"),
                                 timeout=part.get("val_timeout", 800), heap=part.get("heap", "4g"))
    res["bad"], res["cov"] = bad, cov
    res["states"] += st["distinct"]
    res["transitions"] += st["states"]
    # vacuity: every clause the part promises must have been evaluated at least once
    miss = [c for c in part.get("expect", []) if not cov.get(c)]
    if miss and not bad:
        # the same inputs exercise them all on a tree where the property holds
        res["bad"] = bad = [{"index": -1, "clauses": ["Exercised:" + c for c in miss], "event": {"op": "coverage"}}]
    # binding: corrupted copies of recorded events must be rejected
    corrupt = data.get("corrupt") or []
    if corrupt and (tier == "thorough" or part.get("always_corrupt")):
        evs = list(corrupt)
        cb, _, st = vlib.validate(part["trace"], evs, cfg=part.get("trace_cfg", "Tr.cfg"))
        flagged = {b["index"] for b in cb}
        must = set(data.get("corrupt_idx") or range(len(evs)))
        if not must <= flagged and not bad:
            raise vlib.MachineryError("corrupted events accepted in %s/%s: %s" %
                                      (prop, part["name"], [evs[i] for i in sorted(must - flagged)][:3]))
        res["corrupted_rejected"] = len(must)
    res["wall"] = time.time() - t0
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = set(sys.argv[3].split(",")) if len(sys.argv) > 3 else None
    t0 = time.time()
    mod = importlib.import_module("props." + prop.lower())
    work = tempfile.mkdtemp(prefix="osmlv_%s_" % prop)
    evd = os.path.join(vlib.VERIF, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    rc = 0
    try:
        models, results = [], []
        with cf.ThreadPoolExecutor(max_workers=6) as ex:
            futs = []
            for m in mod.MODELS:
                m = dict(m)
                if only and m.get("name", m["module"]) not in only:
                    continue
                if m.get("tier") and m["tier"] != tier:
                    continue
                futs.append(("model", m, ex.submit(
                    vlib.run_tlc, m["module"], m.get("cfg_" + tier, m.get("cfg")), env=m.get("env"),
                    workers=m.get("workers", "2"), extra=tuple(m.get("extra", ())), timeout=m.get("timeout", 800),
                    heap=m.get("heap", "4g"))))
            for part in mod.PARTS:
                if only and part["name"] not in only:
                    continue
                if part.get("tier") and part["tier"] != tier:
                    continue
                futs.append(("part", part, ex.submit(run_part, prop, part, mod, tier, seed, work)))
            for kind, what, f in futs:
                r = f.result()
                if kind == "model":
                    models.append({"module": what["module"], "states": r["distinct"], "transitions": r["states"]})
                    if r["distinct"] < what.get("min_states", 1):
                        raise vlib.MachineryError("model %s explored only %d states" % (what["module"], r["distinct"]))
                else:
                    results.append(r)
        known = load_known()
        violations, known_hits = [], {}
        for r in results:
            if r["crash"]:
                violations.append({"part": r["part"], "clauses": ["DriverCompleted"], "event": {"crash": r["crash"]}})
            for b in r["bad"]:
                left = []
                for c in b["clauses"]:
                    f = next((f for f in known if matches(f, prop, r["part"], b, c)), None)
                    if f:
                        known_hits.setdefault(f["id"], f)
                    else:
                        left.append(c)
                if left:
                    violations.append({"part": r["part"], "index": b["index"], "clauses": left, "event": b["event"]})
        for f in known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        if violations:
            rp = os.path.join(evd, "replay", "%s-%s-%d.json" % (prop, tier, seed))
            json.dump({"property": prop, "tier": tier, "seed": seed,
                       "rerun": "VERIF_SEED=%d ./check.sh %s %s" % (seed, prop, tier),
                       "violations": violations[:200], "total": len(violations)}, open(rp, "w"), indent=1)
            for v in violations[:8]:
                print("  failing clause(s) %s in %s: %s" % (",".join(v["clauses"]), v["part"],
                                                             json.dumps(v["event"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
        cov = {
            "states": sum(m["states"] for m in models) + sum(r["states"] for r in results),
            "transitions": sum(m["transitions"] for m in models) + sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["events"] for r in results),
            "samples": [s for r in results for s in r.get("samples", [])][:8],
            "models": models,
            "parts": [{"part": r["part"], "events": r["events"], "generated_by_tlc": r.get("generated", 0),
                       "clauses_evaluated": r["cov"], "corrupted_events_rejected": r.get("corrupted_rejected", 0),
                       "wall_s": round(r.get("wall", 0), 2)} for r in results],
        }
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
                   "violations": len(violations)},
                  open(os.path.join(evd, prop + ".json"), "w"), indent=1)
        if rc == 0:
            print("OK property=%s tier=%s states=%d events=%d wall=%.1fs" %
                  (prop, tier, cov["states"], cov["traces_validated_against_impl"], time.time() - t0))
    except vlib.MachineryError as e:
        print("MACHINERY-ERROR %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
