"""Parallel exploration of the scenarios of one property, counterexample
replay on the plain code, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def roots(prop_module):
    """Libraries that a harness wants executed symbolically too ('# instrument: NAME ...')."""
    import importlib.util

    out = {"harness": VERIF}
    p = os.path.join(VERIF, "harness", "%s.py" % prop_module)
    for line in open(p) if prop_module and os.path.exists(p) else ():
        if line.startswith("# instrument:"):
            for name in line.split(":")[1].split():
                out[name] = os.path.dirname(os.path.dirname(importlib.util.find_spec(name).origin))
    return out


def setup_imports(symbolic, prop_module=None):
    sys.dont_write_bytecode = True
    import loguru

    loguru.logger.remove()
    if symbolic:
        from . import loader

        loader.install(roots(prop_module))
        from . import posix

        posix.install()
        from . import stdlib

        stdlib.install()
    else:
        sys.path.insert(0, REPO)
        if VERIF not in sys.path:
            sys.path.insert(1, VERIF)


def load(prop_module):
    return importlib.import_module("harness." + prop_module)


# during development, anything undecided fails the check
STRICT = bool(os.environ.get("VERIF_STRICT"))


# --------------------------------------------------------------------------
def run_path(eng, scen, prefix, known=None):
    """Execute one path. Returns (kind, payload)."""
    from . import engine as E
    from . import rt, values as V
    from .session import SymSession

    eng.start(prefix)
    rt.reset()
    V.FLOAT_MODE[0] = scen.get("float_mode", "real")
    s = SymSession(eng, scen.get("params", {}), known or ())
    try:
        try:
            scen["fn"](s)
            kind = "ok"
            payload = None
        finally:
            s.close()
    except E.PathAbort:
        kind, payload = ("fail", None) if eng.failures else ("abort", None)
    except E.StepLimit:
        m = eng.path_model()
        if m is None:
            kind, payload = "abort", None
        else:
            eng.failures.append(("does not terminate", eng.extract(m)))
            kind, payload = "fail", None
    except E.Unsupported as e:
        kind, payload = "unsupported", "%s\n%s" % (e, traceback.format_exc())
    except E.Inconclusive as e:
        kind, payload = "inconclusive", str(e)
    except E.SpecAbort:
        kind, payload = "unsupported", "SpecAbort escaped\n" + traceback.format_exc()
    except Exception as e:
        tb = traceback.format_exc()
        try:
            m = eng.path_model()
        except E.Inconclusive as e2:
            return "inconclusive", str(e2)
        if m is None:
            eng.stats.infeasible += 1
            kind, payload = "abort", None
        else:
            ex = eng.extract(m)
            eng.failures.append(("uncaught %s: %s" % (type(e).__name__, _safe(e)), ex))
            kind, payload = "fail", tb
    eng.stats.paths += 1
    if kind == "ok":
        for l in eng.labels:
            l = "%s/%s" % (scen["name"], l)
            eng.stats.labels[l] = eng.stats.labels.get(l, 0) + 1
    if kind in ("unsupported", "inconclusive"):
        # an infeasible path does not matter
        try:
            m = eng.path_model()
            if m is None:
                return "abort", None
            payload = (payload, eng.extract(m))
        except E.Inconclusive:
            payload = (payload, None)
    return kind, payload


def _safe(e):
    try:
        return str(e)[:200]
    except BaseException:
        return "?"


def worker(wid, prop_module, q, resq, outstanding, nproc, stop, seed, tier, deadline):
    try:
        sys.setrecursionlimit(20000)
        from . import engine as E
        from . import rt
        from .session import evaluate, jsonable

        mod = load(prop_module)
        scens = mod.scenarios(tier)
        rnd = random.Random(seed * 1000 + wid)
        eng = E.Engine()
        samples = []
        known = {x["id"] for x in known_findings(None)}
        while not stop.is_set():
            try:
                si, prefix = q.get(timeout=0.05)
            except queue.Empty:
                with outstanding.get_lock():
                    if outstanding.value == 0:
                        break
                continue
            stack = [prefix]
            scen = scens[si]
            eng.step_limit = scen.get("step_limit", 400_000)
            n = 0
            while stack and not stop.is_set():
                if time.time() > deadline:
                    resq.put(("timeout", si, None))
                    stop.set()
                    break
                pre = stack.pop()
                kind, payload = run_path(eng, scen, pre, known)
                n += 1
                stack.extend(eng.alts)
                key = "%s:paths" % scen["name"]
                eng.stats.labels[key] = eng.stats.labels.get(key, 0) + 1
                if kind == "fail":
                    for msg, ce in eng.failures:
                        resq.put(("ce", si, (msg, ce, payload)))
                    key = "%s:failing" % scen["name"]
                    eng.stats.labels[key] = eng.stats.labels.get(key, 0) + 1
                elif kind in ("unsupported", "inconclusive"):
                    resq.put((kind, si, payload))
                    key = "%s:undecided" % scen["name"]
                    eng.stats.labels[key] = eng.stats.labels.get(key, 0) + 1
                elif kind == "ok":
                    lim = 3 if n < 50 else 0
                    if rnd.random() < 0.02 or (len(samples) < 2):
                        m = None
                        try:
                            m = eng.path_model()
                        except E.Inconclusive:
                            pass
                        if m is not None:
                            inp = eng.extract(m)
                            # observed values under exactly these inputs
                            import z3

                            sub = z3.Solver()
                            sub.add(*eng.solver.assertions())
                            for nm, v in eng.vars.items():
                                sub.add(v.z == inp[nm])
                            obs = None
                            if sub.check() == z3.sat:
                                mm = sub.model()
                                try:
                                    obs = jsonable([[l, evaluate(v, mm, eng)] for l, v in eng.obs])
                                except Exception as e:
                                    obs = None
                                item = (si, inp, obs)
                                if len(samples) < 12:
                                    samples.append(item)
                                else:
                                    samples[rnd.randrange(12)] = item
                # donate work
                if len(stack) > 1 and q.qsize() < nproc:
                    k = min(len(stack) // 2, 32)
                    give, stack = stack[:k], stack[k:]
                    with outstanding.get_lock():
                        outstanding.value += len(give)
                    for g in give:
                        q.put((si, g))
            with outstanding.get_lock():
                outstanding.value -= 1
        resq.put(("done", wid, (eng.stats.as_dict(), samples, sorted(set(rt.ENCODED.values())))))
    except BaseException as e:
        resq.put(("crash", wid, traceback.format_exc()))


# --------------------------------------------------------------------------
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def replay_batch(prop, prop_module, items, timeout=240):
    """items: [(scenario index, inputs)] run on the plain repository code in one
    subprocess. Returns list of result dicts."""
    if not items:
        return []
    payload = json.dumps({"module": prop_module, "tier": os.environ.get("VERIF_TIER", "quick"), "items": items})
    out = []
    todo = items
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    while todo:
        payload = json.dumps({"module": prop_module, "tier": env.get("VERIF_TIER", "quick"), "items": todo})
        p = subprocess.Popen(
            [PYTHON, "-W", "ignore", os.path.join(VERIF, "replay.py"), "--batch"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
        )
        try:
            so, se = p.communicate(payload, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
        got = [json.loads(l[2:]) for l in so.splitlines() if l.startswith("R ")]
        out.extend(got)
        if len(got) >= len(todo):
            break
        # the item after the last result hung or killed the process
        out.append({"result": "died", "detail": (se or "")[-2000:]})
        todo = todo[len(got) + 1:]
    return out


def explore(prop, prop_module, tier, seed, nproc=None, budget=800.0, max_ce=4000000):
    t0 = time.time()
    nproc = nproc or min(8, os.cpu_count() or 1)
    mod = load(prop_module)
    scens = mod.scenarios(tier)
    only = os.environ.get("VERIF_ONLY")
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    resq = ctx.Queue()
    idx = [i for i, sc in enumerate(scens) if not only or only in sc["name"]]
    outstanding = ctx.Value("i", len(idx))
    stop = ctx.Event()
    for i in idx:
        q.put((i, []))
    deadline = time.time() + budget
    procs = [
        ctx.Process(
            target=worker, args=(w, prop_module, q, resq, outstanding, nproc, stop, seed, tier, deadline)
        )
        for w in range(nproc)
    ]
    for p in procs:
        p.start()
    from .engine import Stats

    stats = Stats()
    ces, problems, samples, funcs = [], [], [], set()
    undecided = []
    done = 0
    grace, tried = None, 0
    while done < nproc:
        if grace is not None and time.time() > grace and not stop.is_set():
            # one confirmed violation is enough: the rest of the paths need not be explored
            some = ces[tried:tried + 3]
            tried = max(len(ces) - 3, tried + len(some))
            res = replay_batch(prop, prop_module, [[c[0], c[2]] for c in some], timeout=60)
            if any(r["result"] in ("violation", "exception", "timeout") for r in res):
                stop.set()
            grace = time.time() + 30
        try:
            kind, who, payload = resq.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs) and resq.empty():
                problems.append(("crash", "a worker process died"))
                break
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead:
                problems.append(("crash", "worker exit code %s" % dead[0].exitcode))
                stop.set()
                break
            continue
        if kind == "done":
            st, sm, fs = payload
            stats.merge(st)
            samples.extend(sm)
            funcs.update(fs)
            done += 1
        elif kind == "ce":
            ces.append((who,) + payload)
            if grace is None:
                grace = time.time() + 15
            if len(ces) >= max_ce:
                stop.set()
        elif kind == "crash":
            problems.append(("crash", payload))
            done += 1
            stop.set()
        else:
            undecided.append((kind, who, payload))
    stop.set()
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    return scens, stats, ces, problems, samples, funcs, undecided


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("findings", []) if prop is None or x["property"] == prop]


def main(prop, prop_module=None):
    prop_module = prop_module or prop.replace("-", "_")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", "640" if tier == "quick" else "6000"))
    t0 = time.time()
    setup_imports(True, prop_module)
    try:
        mod = load(prop_module)
    except BaseException:
        print("ERROR: cannot load the repository code symbolically")
        traceback.print_exc()
        return 3
    scens, stats, ces, problems, samples, funcs, undecided = explore(prop, prop_module, tier, seed, budget=budget)
    rc = 0
    lines = []
    # ---- counterexamples: replay on the plain code ----
    uniq = {}
    for si, msg, inp, tb in ces:
        uniq.setdefault((si, msg), []).append((inp, tb))
    todo = []
    for (si, msg), lst in uniq.items():
        for inp, tb in lst[:3]:
            todo.append((si, msg, inp, tb))
    todo = todo[:40]
    # paths that left what the executor models: one concrete run each
    for kind, si, payload in undecided[:60]:
        if payload and payload[1] is not None:
            todo.append((si, "path outside the model: concrete run", payload[1], None))
    results = replay_batch(prop, prop_module, [[si, inp] for si, _, inp, _ in todo]) if todo else []
    confirmed, unconfirmed = [], []
    for (si, msg, inp, tb), r in zip(todo, results):
        if r["result"] in ("violation", "exception", "timeout"):
            confirmed.append((si, msg, inp, r))
        elif not msg.startswith("path outside the model"):
            unconfirmed.append((si, msg, inp, r, tb))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    nviol = 0
    if confirmed:
        shown = set()
        for si, msg, inp, r in confirmed:
            key = (scens[si]["name"], msg)
            if key in shown:
                continue
            shown.add(key)
            body = {
                "property": prop, "module": prop_module, "tier": tier, "scenario": scens[si]["name"],
                "item": [si, inp], "message": msg, "replay_result": r,
            }
            h = hashlib.sha256(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:12]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(body, f, indent=1, default=str)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            lines.append("  scenario %s: %s; on the real code: %s" % (
                scens[si]["name"], msg, (r.get("detail") or "")[:300]))
            nviol += 1
            if nviol >= 6:
                break
        rc = 1
    elif unconfirmed:
        # the model of the code went wrong somewhere: the path counts as not decided
        rc = 4 if STRICT else 0
        for si, msg, inp, r, tb in unconfirmed[:5]:
            lines.append("INCOMPLETE: counterexample does not reproduce: %s: %s inputs=%r replay=%r" % (
                scens[si]["name"], msg, inp, r))
            if tb:
                lines.append(str(tb))
    if problems and rc == 0:
        rc = 5
    for k, p in problems[:6]:
        lines.append("%s: %s" % (k.upper() if rc == 5 else "note " + k, str(p)[:3000]))
    if undecided:
        lines.append("INCOMPLETE: %d path(s) not decided, e.g. %s: %s" % (
            len(undecided), scens[undecided[0][1]]["name"], str(undecided[0][2] and undecided[0][2][0])[-1500:]))
    # ---- reachability witnesses (vacuity guard) ----
    missing = []
    if not os.environ.get("VERIF_ONLY"):
        for sc in scens:
            for lab in sc.get("reach", []):
                if not stats.labels.get("%s/%s" % (sc["name"], lab)):
                    missing.append("%s/%s" % (sc["name"], lab))
            if not stats.labels.get("%s:paths" % sc["name"]):
                missing.append(sc["name"] + ": no path")
    if missing and rc == 0:
        if STRICT or not (undecided or unconfirmed):
            rc = 6
        lines.append("%s: not reached: %s" % ("ERROR" if rc else "INCOMPLETE", ", ".join(sorted(set(missing))[:20])))
    # ---- translation check: random path models on the plain code ----
    validated = disagree = 0
    if rc == 0:
        rnd = random.Random(seed)
        rnd.shuffle(samples)
        pick = samples[: 24 if tier == "quick" else 96]
        res = replay_batch(prop, prop_module, [[si, inp] for si, inp, _ in pick])
        for (si, inp, obs), r in zip(pick, res):
            good = r["result"] == "ok"
            if good and obs is not None and r.get("obs") != obs and scens[si].get("compare_obs", True):
                good = False
            if not good:
                rc = 7 if STRICT else 0
                disagree += 1
                lines.append(
                    "INCOMPLETE: engine disagrees with the real code: %s inputs=%r symbolic obs=%s concrete=%s"
                    % (scens[si]["name"], inp, json.dumps(obs)[:1500], json.dumps(r)[:1500])
                )
                if len(lines) > 10:
                    break
            else:
                validated += 1
    # ---- known findings ----
    kf = known_findings(prop)
    if kf:
        items = []
        names = {sc["name"]: i for i, sc in enumerate(scens)}
        for x in kf:
            items.append([names.get(x["scenario"], -1), x["inputs"], x["id"]])
        res = replay_batch(prop, prop_module, items)
        for x, r in zip(kf, res):
            if r["result"] in ("violation", "exception", "timeout"):
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
            else:
                lines.append("note: known finding no longer reproduces: %s (%s)" % (x["what"], r["result"]))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.paths,
            "transitions": stats.forks,
            "traces_validated_against_impl": validated + len(confirmed),
            "samples": [
                {"scenario": scens[si]["name"], "inputs": _show(inp), "observed": obs}
                for si, inp, obs in samples[:6]
            ] or [{"scenario": scens[0]["name"]}],
            "exhaustive": rc == 0 and not undecided and not unconfirmed and not disagree,
            "undecided_paths": len(undecided) + len(unconfirmed) + disagree,
            "paths_by_scenario": {k[:-6]: v for k, v in sorted(stats.labels.items()) if k.endswith(":paths")},
            "reached": {k: v for k, v in sorted(stats.labels.items()) if ":" not in k},
            "obligations": stats.obligations,
            "branch_conditions_decided": stats.branches,
            "solver": "z3 " + _z3v(),
            "solver_queries": stats.solver_queries,
            "solver_time_s": round(stats.solver_time, 3),
            "functions_encoded": sorted(funcs),
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_the_claim": getattr(mod, "OUTSIDE", ""),
            "stubs": getattr(mod, "STUBS", []),
            "rule": "every feasible path of each scenario within the bounds; a path is a conjunction of "
                    "branch conditions over the symbolic inputs, and each check on it is discharged by z3 "
                    "for all values satisfying it",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + list(getattr(mod, "STUBS", [])),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    print(
        "%s %s: %d paths, %d obligations, %d z3 queries (%.1fs), %d functions encoded, %d validated, %.1fs -> exit %d"
        % (prop, tier, stats.paths, stats.obligations, stats.solver_queries, stats.solver_time, len(funcs),
           validated, wall, rc)
    )
    return rc


def _show(inp):
    out = {}
    for k, v in list(inp.items())[:40]:
        out[k] = v
    return out


def _z3v():
    import z3

    return z3.get_version_string()
