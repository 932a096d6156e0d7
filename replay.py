#!/usr/bin/env python
"""Re-run counterexamples on the plain (uninstrumented) repository code.

  replay.py FILE          replay one recorded violation
  replay.py --batch       items on stdin (used by the checks)
"""
import json
import os
import signal
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


class Timeout(BaseException):
    pass


def run_one(mod, tier, item, limit):
    from symx.session import ConcSession, Violation, AssumeFalse, jsonable

    si, inputs = item[0], item[1]
    kf = item[2] if len(item) > 2 else None
    scens = mod.scenarios(tier)
    if si < 0 or si >= len(scens):
        return {"result": "no-such-scenario"}
    scen = scens[si]
    s = ConcSession(inputs, scen.get("params", {}), kf)

    def onalarm(*a):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        try:
            scen["fn"](s)
        finally:
            s.close()
            signal.alarm(0)
    except Violation as e:
        return {"result": "violation", "detail": str(e)}
    except AssumeFalse:
        return {"result": "assumption-false"}
    except Timeout:
        return {"result": "timeout", "detail": "did not terminate within %ds" % limit}
    except Exception as e:
        import traceback

        kind = "exception"
        where = ""
        for fr in traceback.extract_tb(e.__traceback__):
            if "/vanillaplusjs/" in fr.filename and "site-packages" not in fr.filename:
                where = "repo"
            elif "/harness/" in fr.filename:
                where = "harness"
        if where == "harness" and isinstance(e, (AttributeError, ImportError, NameError, TypeError)):
            kind = "harness-error"
        return {"result": kind, "detail": "%s: %s" % (type(e).__name__, e),
                "traceback": traceback.format_exc()[-1500:]}
    return {"result": "ok", "obs": jsonable([[l, v] for l, v in s.obs]), "labels": s.labels}


def main():
    from symx import runner

    runner.setup_imports(False)
    sys.setrecursionlimit(20000)
    if sys.argv[1] == "--batch":
        d = json.load(sys.stdin)
        mod = runner.load(d["module"])
        for item in d["items"]:
            print("R " + json.dumps(run_one(mod, d["tier"], item, 20)), flush=True)
        return 0
    with open(sys.argv[1]) as f:
        d = json.load(f)
    mod = runner.load(d["module"])
    r = run_one(mod, d["tier"], d["item"], 20)
    print("property %s, scenario %s: %s" % (d["property"], d["scenario"], d["message"]))
    print("inputs:", json.dumps(d["item"][1]))
    print("real code:", json.dumps(r, indent=1))
    return 1 if r["result"] in ("violation", "exception", "timeout") else 0


if __name__ == "__main__":
    sys.exit(main())
