#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


exec(open(os.path.join(V, "tools", "proplist.py")).read())

TRUST = " Trusts: rustc's type checking and MIR construction, the abstract interpreter and its models of std in /verif/vlib. " \
        "Shapes the analysis does not recognise are listed as undecided in the evidence, not reported."

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            d["anchors"]["hook_needed"] = None
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "python3 -m vlib.check %s" % p["id"],
                           "thorough_cmd": "python3 -m vlib.check %s --thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"] + TRUST})
        else:
            na.append({"property": p["id"], "reason": "The static check for this property is not built yet."})
    m = {"version": 1, "setup_cmd": "python3 -m vlib.build", "checks": checks, "not_applicable": na,
         "hooks": {"guard": "none", "enable": "No hooks: the checks read the compiler's MIR of the unmodified sources.", "source_commits": []},
         "notes": "Static analysis only: a rustc driver dumps the type-checked MIR of /repo's current tree with its real features; "
                  "the checks interpret it abstractly. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")


main()
