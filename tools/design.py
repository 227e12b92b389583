#!/usr/bin/env python3
"""Write DESIGN.md from its parts."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props


def rd(*a):
    return open(os.path.join(V, *a)).read()


def rules(src):
    r = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) >= 2:
            a = [x.value if isinstance(x, ast.Constant) else None for x in n.args[:3]]
            if isinstance(a[0], str) and isinstance(a[1], str):
                r.append((n.lineno, a[0], a[1], a[2] if len(a) > 2 else None))
    return sorted(r)


o = [rd("tools", "design_head.md"), "## Properties\n"]
for p in props.P:
    if p["na"]:
        continue
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    src = open(f).read()
    o.append("### %s – %s\n" % (p["id"], p["title"]))
    o.append("%s Quantifies over %s.\n" % (p["statement"], p["text"]))
    o.append("*Decided by* %s (`checks/%s.py`). %s\n" % (p["technique"], p["id"].lower(), p["note"]))
    d = ast.get_docstring(ast.parse(src)) or ""
    d = d.split(":", 1)[-1].strip() if re.match(r"C\d+:", d) else d
    if len(d) > 110:
        o.append("*How*: %s\n" % re.sub(r"\s+", " ", d))
    for _, a, b, n in rules(src):
        o.append("* `%s` – %s%s" % (a, b, " (at least %s instances)" % n if isinstance(n, int) and n > 1 else ""))
    try:
        e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))
        c = e["coverage"]
        o.append("\nOn the tree as committed: %d obligations, %d functions analysed, %d abstract paths, %.0f s." % (
            c["obligations"], c["functions_analysed"], c["abstract_paths"], e["wall_s"]))
    except OSError:
        pass
    o.append("*Why tests cannot*: %s\n" % p["why"])
o.append("## Not applicable\n")
for p in props.P:
    if p["na"]:
        o.append("* **%s – %s**: %s" % (p["id"], p["title"], p["na"]))
o.append("\n" + rd("tools", "design_tail.md"))
o.append("## Planted bugs\n\nAll of them are caught by the check of their property.\n\n| bug | property | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
o.append("\n## Defects found in image-rs/image\n\nEvery one was demonstrated against the real code and repaired by the commit named.\n")
for l in rd("known-findings.txt").splitlines():
    m = re.match(r"(fixed|finding): property=(\S+) (\S+) (.*)", l)
    if m:
        o.append("* %s `%s` (%s): %s" % (m[2], m[3], m[1], m[4]))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
