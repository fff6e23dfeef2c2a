"""Command line: run.py <ID> [--tier quick|thorough] [--replay FILE] [--workers N]"""
import os, sys, json, time, argparse, importlib, warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
warnings.simplefilter("ignore")

from mc import core


def load(prop):
    import numpy as np
    np.seterr(all="ignore")
    import planegeometry.geometry as g
    if not os.path.abspath(g.__file__).startswith(os.path.abspath(core.REPO) + os.sep):
        raise SystemExit("imported %s, not from %s" % (g.__file__, core.REPO))
    return importlib.import_module("mc.props." + prop.lower())


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def is_known(kf, v):
    for k in kf:
        if k["space"] == v["space"] and v["key"] in k["keys"]:
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--space")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    try:
        mod = load(prop)
    except SystemExit:
        raise
    except BaseException as e:
        # a tree whose package cannot even be imported offers none of its guarantees
        import traceback
        tb = traceback.format_exc()
        if "planegeometry" in tb and "mc/props" not in tb:
            rp = write_replay(prop, {"space": "import", "key": 0, "message": "import failed: %r" % e, "case": tb[-1500:]}, a.tier)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        raise
    if a.replay:
        return replay(mod, prop, a.replay)
    if a.space:
        orig = mod.spaces
        mod.spaces = lambda tier: [s for s in orig(tier) if s.name == a.space]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    n = a.workers or max(1, min(8, os.cpu_count() or 1))
    t0 = time.time()
    results, errors = core.run_parallel(mod, prop, a.tier, n)
    wall = time.time() - t0
    viol = [v for r in results for v in r["viol"]]
    harness = [e for e in errors if not isinstance(e, tuple)]
    for e in errors:
        if isinstance(e, tuple):
            viol.append({"space": "worker", "key": [e[1], e[2]], "message": "worker %d died or hung (%s) at case %d" % (e[1], e[3], e[2]), "case": {}})
    if harness:
        sys.stderr.write(harness[0])
        return 2
    order = {}
    viol.sort(key=lambda v: (v["space"], len(json.dumps(v["key"])), json.dumps(v["key"])))
    kf = known(prop)
    fresh, seen_known = [], []
    for v in viol:
        k = is_known(kf, v)
        if k is None:
            fresh.append(v)
        elif k not in seen_known:
            seen_known.append(k)
    write_evidence(mod, prop, a.tier, seed, n, results, fresh, wall)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    tot = lambda f: sum(r[f] for r in results)
    print("%s tier=%s executions=%d transitions=%d checks=%d skipped=%d wall=%.1fs" % (
        prop, a.tier, tot("cases"), tot("transitions"), tot("checks"), tot("skipped"), wall))
    if a.v:
        for s in sorted({s for r in results for s in r["per"]}):
            print("   space %-28s cases=%-8d cpu=%.1fs" % (s, sum(r["per"].get(s, (0, 0))[0] for r in results), sum(r["per"].get(s, (0, 0))[1] for r in results)))
        oc = {}
        for r in results:
            for o, c in r["outcomes"].items():
                oc[o] = oc.get(o, 0) + c
        print("   outcomes", oc)
    if fresh:
        seen = set()
        for i, v in enumerate(fresh):
            if v["space"] in seen and i > 0:
                continue
            seen.add(v["space"])
            rp = write_replay(prop, v, a.tier)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  [%s] %s" % (v["space"], v["message"][:600]))
            print("  case: %s" % json.dumps(v["case"])[:800])
        return 1
    return 0


def write_replay(prop, v, tier):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    import zlib
    name = "%s-%s-%08x.json" % (prop, "".join(c if c.isalnum() else "_" for c in v["space"]), zlib.crc32(json.dumps(v["key"]).encode()))
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump({"property": prop, "tier": tier, "space": v["space"], "key": v["key"], "message": v["message"], "case": v["case"],
                   "rerun": "bin/check %s --tier %s --replay %s" % (prop, tier, p)}, f, indent=1)
    return p


def replay(mod, prop, path):
    with open(path) as f:
        r = json.load(f)
    sp = [s for s in mod.spaces(r["tier"]) if s.name == r["space"]][0]
    ctx = core.Ctx(prop, r["tier"])
    print("replaying", json.dumps(sp.describe(r["key"])))
    for attempt in (1, 2):
        try:
            sp.execute(ctx, r["key"])
        except core.Skip:
            print("run %d: precondition not met" % attempt)
            return 0
        except BaseException as e:
            print("run %d: %s: %s" % (attempt, type(e).__name__, e))
            bad = True
        else:
            print("run %d: property held" % attempt)
            bad = False
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if bad else 0


def write_evidence(mod, prop, tier, seed, n, results, fresh, wall):
    states = set()
    for r in results:
        states |= r["states"]
    tot = lambda f: sum(r[f] for r in results)
    outcomes, samples, per = {}, {}, {}
    for r in results:
        for o, c in r["outcomes"].items():
            outcomes[o] = outcomes.get(o, 0) + c
        for s, l in r["samples"].items():
            samples.setdefault(s, l[0])
        for s, t in r["per"].items():
            q = per.setdefault(s, {"executions": 0, "cpu_s": 0.0, "choice_points": 0})
            q["executions"] += t[0]
            q["cpu_s"] = round(q["cpu_s"] + t[1], 2)
            q["choice_points"] = max(q["choice_points"], t[2])
    bounds = {}
    for s in mod.spaces(tier):
        b = s.bound()
        if s.note:
            b["note"] = s.note
        b.update(per.get(s.name, {}))
        bounds[s.name] = b
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("cases") - tot("skipped"),
            "precondition_excluded": tot("skipped"),
            "oracle_checks": tot("checks"),
            "distinct_observed_outcomes": outcomes,
            "spaces": bounds,
            "samples": [{"space": s, "case": c} for s, c in sorted(samples.items())][:12],
            "workers": n,
            "exhaustive": not fresh,
            "explanation": "states = distinct canonical reference-model states (or input/environment configurations) visited; transitions = "
                           "operations executed on the real code of /repo; every enumerated trace is executed on the real code and compared "
                           "with the reference model, so the model is bound to the implementation on all traces, not on a sample.",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
