#!/usr/bin/env python3
"""Decide one property on /repo's current source: run.py <id>."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")

import warnings
warnings.simplefilter("ignore")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    import check
    import props
    t0 = time.time()

    def go():
        import interp
        w = interp.World(check.REPO)
        w.load_all()
        ctx = check.Ctx(w, tier, prop)
        props.CHECKS[prop](ctx)
        return ctx
    from core import AnchorLost, Undecided, PyRaise
    try:
        ctx = check.big(go)
    except (AnchorLost, Undecided) as e:
        print(f"ANALYSIS-BROKEN property={prop} {type(e).__name__}: {e}")
        return 2
    except PyRaise as e:
        print(f"ANALYSIS-BROKEN property={prop} importing the package fails: {e}")
        return 2
    return report(ctx, prop, tier, t0, props)


def report(ctx, prop, tier, t0, props):
    part = ctx.part
    known = load_known(prop)
    new, seen, old = [], set(), []
    for v in part.violations:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        (old if v["key"] in known else new).append(v)
    new.sort(key=lambda v: (len(v.get("decisions") or ()), v["key"]))
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v['key']}: {v['message']}")
    n, d = part.count.get("obligations", 0), part.count.get("decided", 0)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": props.LEVEL.get(prop, "other"),
        "coverage": {
            "explanation": props.EXPLAIN[prop],
            "obligations": n, "discharged": d,
            **{k: v for k, v in sorted(part.count.items()) if k not in ("obligations", "decided")},
            "functions_analysed": len(part.functions),
            "functions": sorted(part.functions)[:200],
            "modules_loaded": len(ctx.w.modules),
            "undecided": len(part.undecided),
            "undecided_examples": part.undecided[:8],
            "samples": part.samples[:8],
        },
        "assumptions": props.ASSUME.get(prop, props.ASSUME["*"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}.txt")
        with open(path, "w") as f:
            for v in new[:50]:
                f.write(f"rule:    {v['rule']}\nkey:     {v['key']}\nfinding: {v['message']}\nwhere:   {v.get('where')}\n")
                if v.get("detail"):
                    f.write(f"detail:  {v['detail']}\n")
                if v.get("decisions"):
                    f.write("path:\n" + "".join(f"  - {x}\n" for x in v["decisions"]))
                f.write("\n")
        for v in new[:5]:
            print(f"  {v['message']}  [{v.get('where')}]")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    old_replay = os.path.join(HERE, "replays", f"{prop}.txt")
    if os.path.exists(old_replay):
        os.remove(old_replay)
    if n == 0 or d < 0.5 * n:
        print(f"ANALYSIS-BROKEN property={prop} only {d} of {n} obligations decided; e.g. {part.undecided[:2]}")
        return 2
    print(f"OK property={prop} obligations={n} discharged={d} paths={part.count.get('paths', 0)} undecided={len(part.undecided)} ({time.time() - t0:.1f}s)")
    return 0


def load_known(prop):
    out = set()
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith(f"finding: property={prop} key="):
                    out.add(line.split("key=", 1)[1].split(" :: ")[0].strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
