"""Writes /verif/DESIGN.md from tools/design_head.md, tools/design_tail.md, the rule modules, the properties and the planted bugs
(authoring aid; not used by any check)."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(d))
    seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(d)), j))
notes = {}
for k, v in ast.literal_eval(open(V + "/tools/design_notes.py").read()).items():
    notes[k] = v
known, fixed = {}, {}
for l in open(V + "/known_findings.txt"):
    l = l.strip()
    if l.startswith("known:"):
        i = l.split("property=")[1].split()[0]
        known.setdefault(i, []).append(l.split("::")[-1].strip())
    elif l.startswith("fixed:"):
        w = l.split("property=")[1].split(None, 2)
        fixed.setdefault(w[0], []).append((w[1], w[2] if len(w) > 2 else ""))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties, one by one", ""]
for p in props:
    i = p["id"]
    out += ["### %s  %s" % (i, p["title"]), ""]
    if i in na:
        out += ["Not applicable: " + na[i], ""]
        continue
    t = ast.parse(open("%s/sa/rules/%s.py" % (V, i.lower())).read())
    out += [(ast.get_docstring(t) or "").strip(), "", "Rules (a run with fewer instances than the minimum is an error, not a pass):", ""]
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) > 1 and isinstance(n.args[0], ast.Constant):
            txt = n.args[1].value if isinstance(n.args[1], ast.Constant) else ast.unparse(n.args[1])
            out.append("* `%s`: %s%s" % (n.args[0].value, txt, " (at least %s)" % ast.unparse(n.args[2]) if len(n.args) > 2 else ""))
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == "TEXT":
            for k, txt in ast.literal_eval(n.value).items():
                out.append("* `%s`: %s" % (k, txt))
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) == "ASSUMPTIONS":
            out += ["", "Trusts: " + "; ".join(ast.literal_eval(n.value)) + "."]
    if i in notes:
        out += ["", "Bounds and limits: " + notes[i]]
    if i in known:
        out += ["", "Known findings: " + " / ".join(known[i])]
    if i in fixed:
        out += ["", "Defects it found that were repaired: " + "; ".join("%s (%s)" % (w, c) for c, w in fixed[i]) + "."]
    if i in seeds:
        out += ["", "Planted bugs: " + "; ".join("`%s` (needs %s)" % (k, j["needs"]) for k, j in seeds[i]) + "."]
    out.append("")
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out).splitlines()), "lines")
