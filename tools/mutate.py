#!/usr/bin/env python3
"""Small changes to the code and which checks see them.

mutate.py [NAME|PROP|file.py ...]: modules in tools/mutants/ call m(name, props, path, old, new[, path, old, new...]). For each: a scratch copy of /repo
with the edits, the repository's tests (a change they catch is only noted) and the quick checks of the given properties
until one of them sees it. ALL=1: every property, also for changes the tests see."""
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plant

ALL = []


def load(names):
    for p in sorted(glob.glob(os.path.join(HERE, os.environ.get("FOLDER", "mutants"), "*.py"))):
        spec = importlib.util.spec_from_file_location("mutants_" + os.path.basename(p)[:-3], p)
        mod = importlib.util.module_from_spec(spec)
        mod.m = lambda name, props, *edits, _p=os.path.basename(p): ALL.append((_p, name, props.split(), [edits[i:i + 3] for i in range(0, len(edits), 3)]))
        spec.loader.exec_module(mod)
    return [x for x in ALL if not names or x[0] in names or x[1] in names or any(p in names for p in x[2])]


def one(name, props, edits):
    tmp = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for path, old, new in edits:
            p = os.path.join(copy, "vanillaplusjs", path)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return "%d matches in %s for: %s" % (t.count(old), path, old[:60])
            open(p, "w", newline="").write(t.replace(old, new))
        ok, out = plant.tests(copy)
        res = "" if ok else "(tests see it) "
        if not ok and not os.environ.get("ALL"):
            return res
        v = os.path.join(tmp, "v")
        os.makedirs(v + "/evidence")
        os.makedirs(v + "/replays")
        for f in ("check.py", "check.sh", "replay.py", "symx", "harness", "known_findings.json", "MANIFEST.json", "properties.jsonl"):
            subprocess.run(["cp", "-a", os.path.join(ROOT, f), v], check=True)
        for prop in props:
            r = subprocess.run(["bash", "check.sh", prop, os.environ.get("TIER", "quick")], cwd=v, capture_output=True, text=True, timeout=1500, env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1"))
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  scenario")]
            inc = " INCOMPLETE" if "INCOMPLETE" in r.stdout else ""
            res += "%s:%s%s " % (prop, "CAUGHT" if r.returncode == 1 and lines else "missed rc=%d" % r.returncode, inc)
            if r.returncode == 1 and lines and not os.environ.get("ALL"):
                break
            if os.environ.get("VERBOSE"):
                res += "".join("\n    " + l.strip()[:160] for l in lines if l.startswith("  "))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    for src, name, props, edits in load(sys.argv[1:]):
        print(name, one(name, props, edits), flush=True)
