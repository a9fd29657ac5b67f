#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's working tree
   check.py --replay FILE               runs the case recorded in a replay file again
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from vlib.core import *
from vlib import props

def replay(path):
    d = json.load(open(path))
    ctx = Ctx(d["property"], d["tier"], d["seed"])
    print(d.get("key"), "\n", d.get("report", "")[:3000])
    if "exe" not in d:
        print("no single case to run again; run check.py", d["property"], d["tier"], "with VERIF_SEED=%s" % d["seed"]); return 0
    j = props.replay_job(ctx, d)
    first, count, step = (d["idx"], d["idx"] + 1, 1) if d["idx"] is not None else (d["first"], d["count"], d["step"])
    w = os.path.join(ctx.scratch, "w"); os.mkdir(w)
    cmd = core.job_cmd(ctx, j, first, count, step, w, ["replay"])
    print("+", " ".join(cmd)); sys.stdout.flush()
    rc = subprocess.run(cmd, env=clean_env(j.env), cwd=w).returncode
    ctx.cleanup()
    return rc

def setup():
    """Builds everything the quick checks use; they build what is missing or has changed themselves."""
    try: props.setup()
    except HarnessError as e: print(e); return 2
    return 0

def main():
    if sys.argv[1] == "--setup": return setup()
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    m = props.META[prop]
    ctx, res = Ctx(prop, tier, seed), Result()
    err = None
    try:
        m["plan"](ctx, res)
    except HarnessError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    if res.errors: err = (err or "") + "\n".join(res.errors)
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    hit, new = {}, []
    for v in res.viol:
        k = next((k for k in known if re.fullmatch(k["key"], v[0])), None)
        if k: hit.setdefault(k["key"], [k, 0]); hit[k["key"]][1] += 1
        else: new.append(v)
    missing = [c for c in m["floor"] if not res.counters.get(c)]
    if missing and not new: err = (err or "") + f"\nobserved nothing: {missing}"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": m["level"],
        "coverage": {
            "evaluations": res.counters.get("evaluations", 0),
            "distinct_nontrivial": len(res.distinct),
            "rule": m["rule"],
            "samples": res.samples[:8],
            "observed": {k: v for k, v in sorted(res.counters.items()) if k != "evaluations"},
        },
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(new),
        "known_findings_seen": {k: v[1] for k, v in hit.items()},
        "assumptions": [m["note"]],
    }
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    for k, n in hit.values(): print(f"KNOWN-FINDING: property={prop} {k['what']} ({n} times in this run)")
    seen = set()
    for key, msg, rp in new:
        if key in seen: continue
        seen.add(key)
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {key}: {msg[:1500]}")
    print(f"{prop} {tier} seed={seed}: {ev['coverage']['evaluations']} cases, {len(res.distinct)} distinct, {len(new)} violations, {ev['wall_s']} s; " + ", ".join(f"{k}={v}" for k, v in ev["coverage"]["observed"].items()))
    ctx.cleanup(); prune()
    if new: return 1
    if err:
        print("ERROR:", err[-4000:]); return 2
    return 0

if __name__ == "__main__":
    rc = main(); sys.stdout.flush()
    os._exit(rc)
