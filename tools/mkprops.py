#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "vanillaplusjs/"
B = V + "build/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, note=level_note, na=na))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["qtext"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

checks, na = [], []
for p in P:
    mod = os.path.join(HERE, "harness", p["id"] + ".py")
    if os.path.exists(mod) and not p["na"]:
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "bounded symbolic execution of the real Python source with z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": " ".join((p["note"] or (
                "Exhaustive within the bounds printed in the evidence file; counterexamples are replayed on the "
                "uninstrumented code before they are reported. Trusts the executor's model of Python built-ins "
                "(cross-checked on sampled paths every run) and z3.")).split()),
        })
    else:
        na.append({"property": p["id"], "reason": " ".join((p["na"] or "Check not built yet.").split())})
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. No hooks in /repo: the code is instrumented in memory when it is imported.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
