"""Apply textual mutants from a python file (list M of (ids, path, old, new[, count])) to a scratch copy and run checks.
usage: mut.py FILE [ID...]   ids: comma separated expected properties; prefix '-' = must stay quiet; '?' = just show"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])

def one(m):
    ids, path, old, new = m[:4]
    d = tempfile.mkdtemp(prefix="mut")
    out = []
    try:
        shutil.copytree(os.environ.get("MUTBASE", "/repo") + "/a_sync", d + "/a_sync", ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__", "build"))
        edits = [(path, old, new)] if isinstance(path, str) else path
        for p, o, n in edits:
            f = d + "/" + p
            s = open(f).read()
            if o not in s:
                return [(m, "NOMATCH", "%s: %r" % (p, o))]
            s = s.replace(o, n, m[4] if len(m) > 4 else 1)
            open(f, "w").write(s)
        if ids == "-ALL":
            ids = ",".join(sorted("-" + x[:-3].upper() for x in os.listdir(V + "/sa/rules") if x[0] == "c" and x[1:3].isdigit() and x[:3].upper() not in os.environ.get("SKIP", "")))
        for i in ids.split(","):
            quiet = i.startswith("-")
            pid = i.lstrip("-?")
            if only and pid not in only:
                continue
            r = subprocess.run([sys.executable, "-B", "-m", "sa.main", pid], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), capture_output=True, text=True, timeout=900)
            ok = (r.returncode == 0) if quiet else r.returncode == 1
            first = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("  ") and "[" in l][:1] or (r.stdout + r.stderr).splitlines()[-1:]
            out.append((m, "ok" if ok else "MISS(rc=%d)" % r.returncode, pid + " " + (first[0].strip()[:150] if first else "")))
    finally:
        shutil.rmtree(d)
    return out
with ThreadPoolExecutor(8) as ex:
    for res in ex.map(one, ns["M"]):
        for m, ok, t in res:
            lab = ((m[1][0][1] if not isinstance(m[1], str) else m[2]).strip().splitlines() or [""])[0][:45] + " => " + ((m[3] or "").strip().splitlines() or [""])[0][:45]
            print("%-12s %s | %s" % (ok, lab, t))
