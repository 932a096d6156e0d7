#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_head.md, then one section per property (statement, harness, bounds), defects, planted bugs."""
import ast
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from design_notes import NOTES  # noqa: E402

props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
man = json.load(open(ROOT + "/MANIFEST.json"))
na = {x["property"] if "property" in x else x["id"]: x["reason"] for x in man.get("not_applicable", [])}
known = json.load(open(ROOT + "/known_findings.json"))
caught = json.load(open(ROOT + "/tools/caught.json")) if os.path.exists(ROOT + "/tools/caught.json") else {}


def consts(pid):
    out = {}
    p = ROOT + "/harness/%s.py" % pid
    if not os.path.exists(p):
        return out
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "STUBS", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


o = [open(ROOT + "/tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in props:
    pid = p["id"]
    o.append("### %s — %s" % (pid, p["title"]))
    o.append("")
    if pid in na:
        o += ["Not claimed: " + na[pid], ""]
        continue
    c = consts(pid)
    o.append(NOTES.get(pid, "").strip())
    o.append("")
    if "BOUNDS" in c:
        o.append("- Bounds: " + c["BOUNDS"])
    if "OUTSIDE" in c:
        o.append("- Outside: " + c["OUTSIDE"])
    if c.get("STUBS"):
        o.append("- Stand-ins: " + "; ".join(c["STUBS"]))
    if c.get("ASSUMPTIONS"):
        o.append("- Assumed: " + "; ".join(c["ASSUMPTIONS"]))
    o.append("")
o += ["## Genuine defects found and repaired", "",
      "Each was shown by a check on the code as it was (a counterexample replayed on the plain code), repaired in one `fix:` commit in /repo, and is recorded in",
      "`known_findings.json`, which lists no open finding. The check of the property reports the violation again when the repair is taken back.", "",
      "| property | commit | what failed |", "|---|---|---|"]
for f in known["fixed"]:
    a = f.split(" ", 3)
    o.append("| %s | %s | %s |" % (a[1].split("=")[1], a[2], a[3].replace("|", "\\|")))
o += ["", "## Planted bugs", "",
      "`seeded/<id>/` has the change, its demonstration and what it needs. Each was confirmed by `tools/plant.py` (tests pass with it, the demonstration fails only with it)",
      "and tried by `tools/trysee.sh`. The last column says what the quick check of its property said.", "",
      "| id | property | needs | quick check |", "|---|---|---|---|"]
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    sid = d.split("/")[-2]
    o.append("| %s | %s | %s | %s |" % (sid, m["property"], m["needs"].replace("|", "\\|"), caught.get(sid, "not tried")))
open(ROOT + "/DESIGN.md", "w").write("\n".join(o) + "\n")
