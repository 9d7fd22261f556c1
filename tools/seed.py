"""seed.py SPEC.py [ID..]: write /verif/seeded/<id>/ from a spec and validate each planted change in a private mount
namespace (a copy of /repo bound over /repo): applies, demo passes before and fails after, tests pass, checks' verdict.
SPEC defines SEEDS = [dict(id=, prop=, edits=[(path, old, new)], needs=, breaks=, demo="python source")]."""
import json, os, shutil, subprocess, sys, runpy, difflib
from concurrent.futures import ThreadPoolExecutor

DEMO = '#!/bin/bash\n# exit 0 when the property holds, 1 when it is broken\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout -k 5 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'

def make(s):
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    out = ""
    for path in dict.fromkeys(e[0] for e in s["edits"]):
        old = new = open("/repo/" + path).read()
        for p, a, b in s["edits"]:
            if p == path:
                assert new.count(a) == 1, (s["id"], path, new.count(a), a)
                new = new.replace(a, b)
        out += "diff --git a/%s b/%s\n" % (path, path) + "".join(
            difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + path, "b/" + path))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)

SCRIPT = r'''
set -u
mount --bind $W/repo /repo || exit 9
cd /repo
git apply $S/patch.diff || { echo "NOAPPLY"; exit; }
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "NOBUILD"; tail -5 $W/build.log; exit; }
bash $S/demo.sh >$W/demo.log 2>&1; echo "demo patched: $?"; tail -2 $W/demo.log
cd /verif; cp -r /verif/evidence $W/ev; VERIF_EVIDENCE=$W/ev ./check.sh $P quick >$W/check.log 2>&1; echo "check: $?"; grep VIOLATION $W/check.log | head -3
cd /repo
if [ "${NOTEST:-}" = "" ]; then bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1; python3 - <<E2
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
base=set(b['stable']); miss=sorted(base-set(o['passed']))
print('tests: %d missing'%len(miss), miss[:3])
E2
fi
'''

def run(s):
    d = "/verif/seeded/" + s["id"]
    W = "/tmp/seedw/" + s["id"]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT], env={**os.environ, "W": W, "S": d, "P": s["prop"]}, capture_output=True, text=True)
    res = "=== %s (%s)\ndemo clean: %d %s\n%s%s" % (s["id"], s["prop"], r0.returncode, (r0.stdout + r0.stderr)[-200:] if r0.returncode else "", r.stdout, r.stderr[-300:])
    shutil.rmtree(W, ignore_errors=True)
    print(res, flush=True)

if __name__ == "__main__":
    seeds = [s for s in runpy.run_path(sys.argv[1])["SEEDS"] if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    for s in seeds:
        make(s)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        list(ex.map(run, seeds))
