#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check."""
import json, os, shutil, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = props.PLANS[prop]
    ctx = props.Ctx(prop, tier, seed)
    try:
        results, errors = plan(ctx)
    except core.CheckError as e:
        results, errors = [], [e]
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    known = load_known(prop)
    counts, samples, notes = {}, [], {}
    viol = []
    for r in results:
        for k, v in r.counts.items():
            counts[k] = counts.get(k, 0) + v
        samples += r.samples
        notes.update(r.notes)
        viol += r.violations
        for k in r.known:
            if k in known:
                print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
            else:
                viol.append((f"known-finding probe {k} fails but is not listed", core.keep_replay(prop, "probe-" + k, {}, {"probe": k})))
    for e in errors:
        sys.stderr.write(f"error of the check: {e}\n")
    level, coverage = props.evidence(prop, tier, counts, notes)
    coverage["samples"] = samples[:6] or ["(no sample)"]
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": props.assumptions(prop), "wall_s": round(time.time() - t0, 2),
                   "violations": len(viol)}, f, indent=1)
        f.write("\n")
    if viol:
        for what, path in viol[:5]:
            print(f"# {what}"[:2500])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        return 2
    print(f"property {prop}: held on everything explored ({tier}, {round(time.time() - t0, 1)} s): {json.dumps(counts)}")
    return 0


def load_known(prop):
    known = {}
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=" + prop + " "):
                rest = l.split(" ", 2)[2].strip()
                key, _, text = rest.partition(": ")
                known[key] = text
    return known


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
