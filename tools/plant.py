#!/usr/bin/env python3
"""Build and confirm planted bugs.

plant.py [ID...]: each module in tools/seeds/ defines SEEDS, a list of dicts
(id, property, edits [(file, old, new)], demo (python source), needs, breaks).
For each: copies /repo to a scratch directory, applies the edits, confirms that
the build and the stable tests pass, that the demo passes without and fails with
the change, and writes seeded/<id>/.
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
STABLE = set()


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d


def run(cmd, cwd, timeout=300, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)


def tests(copy):
    out = os.path.join(copy, ".junit.xml")
    r = run([PY, "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=60",
             "--continue-on-collection-errors", "--ignore=tests/test_build_feat_external_files.py",
             "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"], copy, 600,
            {"PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1"})
    if os.path.exists(out):
        os.remove(out)
    tail = r.stdout.strip().splitlines()[-1:] or [""]
    return ("78 passed" in tail[0] and "failed" not in tail[0] and "error" not in tail[0]), r.stdout[-1500:]


def demo(copy, d):
    return run(["bash", os.path.join(d, "demo.sh")], copy)


def plant(seed, skip_tests=False):
    sid = seed["id"]
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(seed["demo"])
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                    'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python "$here/demo.py"\n')
        r = demo(copy, d)
        if r.returncode != 0:
            return sid, "demo fails on the unchanged tree:\n" + r.stdout[-1500:] + r.stderr[-1500:]
        for path, old, new in seed["edits"]:
            p = os.path.join(copy, path)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return sid, "%d matches in %s for: %s" % (t.count(old), path, old[:80])
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True).stdout
        r = demo(copy, d)
        if r.returncode == 0:
            return sid, "demo passes with the change"
        demo_out = (r.stdout + r.stderr)[-300:]
        if not skip_tests:
            ok, out = tests(copy)
            if not ok:
                return sid, "tests fail with the change:\n" + out
        dst = os.path.join(ROOT, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        with open(os.path.join(dst, "patch.diff"), "wb") as f:
            f.write(diff)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, f, indent=1)
            f.write("\n")
        return sid, "ok (" + demo_out.strip().splitlines()[-1][:110] + ")"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("seeds_" + os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out.extend(m.SEEDS)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    seeds = [s for s in load() if not args or s["id"] in args or s["property"] in args]
    with ThreadPoolExecutor(6) as ex:
        for sid, res in ex.map(plant, seeds):
            print(sid, res, flush=True)


if __name__ == "__main__":
    main()
