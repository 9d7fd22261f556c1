"""Writes /verif/MANIFEST.json: one check per property that has a rule module (authoring aid; not used by any check)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C38": "The rate and the cache expiry are wall-clock behaviour produced by third-party code (aiolimiter, async_lru/functools) that is not in this repository: no static argument over this source can bound elapsed time. What is static about them (the configured limit reaches the limiter, the ttl reaches the cache) is decided under C20 and C21.",
    "C39": "Eventual service is a liveness property over infinite runs of the event loop and of user code; it depends on the fairness of asyncio and on user coroutines finishing, which this source does not determine. Its safety core (no lost wake-up, no dead worker, no stranded job) is decided under C02, C03, C08 and C32.",
}
TECH = "path-sensitive typestate dataflow over the typed syntax tree (Python ast + Cython parser), exception and cancellation edges, helpers inlined"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = V + "/sa/rules/%s.py" % i.lower()
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check has been built for this property yet"})
        continue
    t = ast.parse(open(f).read())
    doc = (ast.get_docstring(t) or "").strip().replace("\n", " ")
    ass, tech = [], TECH
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == "TECHNIQUE":
            tech = ast.literal_eval(n.value)
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "other",
                   "level_note": "Static: every path class of the functions involved in the current source. " + doc + " Trusts: the analyser (sa/absint.py), CPython/asyncio semantics as modelled" + ("; " + "; ".join(ass) if ass else "") + "."})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B -c \"from sa.model import Model; print(len(Model().files), 'files parsed')\"",
     "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: no check builds, imports or runs the code under /repo; each run parses /repo's current working tree. No hooks. /repo carries only 'fix:' commits, listed in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
