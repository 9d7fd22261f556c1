"""Entry point: python -m sa.main <PROPERTY>   (VERIF_TIER, VERIF_SEED from the environment)"""
import importlib
import json
import os
import sys
import time
import traceback

from .lib import Ctx, VERIF, load_known
from .model import AnalysisError, Model


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2 and argv[2] in ("quick", "thorough"):
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        model = Model()
        ctx = Ctx(pid, model, tier, seed)
        mod = importlib.import_module("sa.rules." + pid.lower())
        mod.check(ctx)
        counts = ctx.finish()
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 4
    known = load_known(pid)
    new, old = [], []
    seen = set()
    for v in ctx.violations:
        k = next((k for k in known if k.get("rule") == v["rule"] and k.get("construct") == v["construct"].replace(" ", "_")), None)
        if k is not None:
            if id(k) not in seen:
                seen.add(id(k))
                old.append((k, v))
        else:
            new.append(v)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "rules": ctx.rules,
            "obligations_checked": len(ctx.obligations),
            "obligations_per_rule": counts,
            "obligations_held": sum(1 for o in ctx.obligations if o["ok"]),
            "functions_analysed": sorted(ctx.funcs),
            "functions_analysed_count": len(ctx.funcs),
            "abstract_steps": ctx.states,
            "path_classes": ctx.paths,
            "files_parsed": len(model.files),
            "source_digests": {k: v[:16] for k, v in sorted(model.files.items())},
            "samples": [o for o in ctx.obligations][:12],
            "known_findings": [k["what"] for k, _ in old],
            "notes": ctx.notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        rp = os.path.join(evdir, "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new:
            print("  %s [%s] %s: %s" % (v["where"], v["rule"], v["construct"], v["detail"]))
            for p in v["path"][-int(os.environ.get("VERIF_PATHLEN", "12")):]:
                print("        " + p)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s rules=%d obligations=%d functions=%d steps=%d wall=%.2fs" % (
        pid, len(ctx.rules), len(ctx.obligations), len(ctx.funcs), ctx.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
