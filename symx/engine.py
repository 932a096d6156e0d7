"""Path-exploring symbolic executor.

A *scenario* is a Python function that receives a session object `s`; it asks
`s` for symbolic inputs, runs the real (AST-instrumented) code on them, and
states checks.  The engine re-executes the scenario once per path; every branch
whose condition is symbolic is decided by the exact domains of single variables
or by z3, both outcomes are explored when both are feasible, and each check is
discharged by z3 over all the values the path admits.
"""
import time
import z3
from . import iset
from .iset import ISet


class PathAbort(BaseException):
    """The path ends here (assumption false or counterexample recorded)."""


class Unsupported(BaseException):
    """Symbolic value reached an operation the executor does not model."""


class Inconclusive(BaseException):
    """z3 answered unknown."""


class SpecAbort(BaseException):
    """Speculative (merged) evaluation would have had to branch."""


class StepLimit(BaseException):
    """Instrumented steps exceeded: possible non-termination."""


class Var:
    __slots__ = ("name", "kind", "z", "dom0", "idx")

    def __init__(self, name, kind, dom0):
        self.name = name
        self.kind = kind
        self.dom0 = dom0
        self.z = z3.Int(name)

    def __repr__(self):
        return "<%s>" % self.name


# ---- boolean trees -------------------------------------------------------
# ("dom", var, ISet) | ("and", [t]) | ("or", [t]) | ("z3", expr) | True | False


def t_not(t):
    if t is True:
        return False
    if t is False:
        return True
    k = t[0]
    if k == "dom":
        return ("dom", t[1], iset.complement(t[2]))
    if k == "and":
        return t_or([t_not(x) for x in t[1]])
    if k == "or":
        return t_and([t_not(x) for x in t[1]])
    return ("z3", z3.Not(t[1]))


def t_and(ts):
    out = []
    doms = {}
    for t in ts:
        if t is True:
            continue
        if t is False:
            return False
        if t[0] == "dom":
            p = doms.get(t[1])
            if p is None:
                doms[t[1]] = len(out)
                out.append(t)
            else:
                m = out[p][2] & t[2]
                if not m:
                    return False
                out[p] = ("dom", t[1], m)
        elif t[0] == "and":
            for x in t[1]:
                out.append(x)
        else:
            out.append(t)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", out)


def t_or(ts):
    out = []
    doms = {}
    for t in ts:
        if t is False:
            continue
        if t is True:
            return True
        if t[0] == "dom":
            p = doms.get(t[1])
            if p is None:
                doms[t[1]] = len(out)
                out.append(t)
            else:
                out[p] = ("dom", t[1], out[p][2] | t[2])
        elif t[0] == "or":
            for x in t[1]:
                out.append(x)
        else:
            out.append(t)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", out)


def dom_z3(v, s):
    if not s.r:
        return z3.BoolVal(False)
    parts = []
    for lo, hi in s.r:
        c = []
        if lo == hi:
            c.append(v == lo)
        else:
            if lo > -iset.INF:
                c.append(v >= lo)
            if hi < iset.INF:
                c.append(v <= hi)
        if not c:
            return z3.BoolVal(True)
        parts.append(c[0] if len(c) == 1 else z3.And(*c))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def t_z3(t):
    if t is True or t is False:
        return z3.BoolVal(t)
    k = t[0]
    if k == "dom":
        return dom_z3(t[1].z, t[2])
    if k == "and":
        return z3.And(*[t_z3(x) for x in t[1]])
    if k == "or":
        return z3.Or(*[t_z3(x) for x in t[1]])
    return t[1]


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.obligations = 0
        self.solver_queries = 0
        self.solver_time = 0.0
        self.infeasible = 0
        self.labels = {}
        self.samples = []

    def merge(self, d):
        for k in ("paths", "branches", "forks", "obligations", "solver_queries", "infeasible"):
            setattr(self, k, getattr(self, k) + d[k])
        self.solver_time += d["solver_time"]
        for k, v in d["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v

    def as_dict(self):
        return dict(
            paths=self.paths, branches=self.branches, forks=self.forks,
            obligations=self.obligations, solver_queries=self.solver_queries,
            solver_time=self.solver_time, infeasible=self.infeasible, labels=self.labels,
        )


CUR = None  # the engine of the path being executed


class Engine:
    def __init__(self, timeout_ms=10000, step_limit=3_000_000):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.step_limit = step_limit
        self.spec = 0

    # -- path lifecycle --
    def start(self, prefix):
        global CUR
        CUR = self
        self.prefix = prefix
        self.pos = 0
        self.log = []
        self.alts = []
        self.vars = {}
        self.dom = {}
        self.rel = []          # z3 constraints
        self.relvars = set()   # vars that occur in z3 constraints
        self.z3vars = {}       # extra z3 symbols (reals, functions..): name -> expr
        self.solver = None
        self.model = None
        self.model_fresh = False
        self.steps = 0
        self.spec = 0
        self.intercept = {}
        self.ic_active = set()
        self.failures = []
        self.labels = []
        self.obs = []
        self.inputs = {}       # name -> (kind, ...)
        self.counter = 0

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise StepLimit("more than %d instrumented steps" % self.step_limit)

    # -- variables --
    def new_var(self, name, kind, dom):
        if name in self.vars:
            raise RuntimeError("duplicate input " + name)
        v = Var(name, kind, dom)
        self.vars[name] = v
        self.dom[v] = dom
        return v

    def fresh_int(self, name):
        return z3.Int(name)

    # -- constraints --
    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.timeout_ms)
            self._sdom = {}
            self._srel = 0
        for v, d in self.dom.items():
            if v in self.relvars or not self.relvars:
                pass
            if self._sdom.get(v) is not d:
                self.solver.add(dom_z3(v.z, d))
                self._sdom[v] = d
                self.model_fresh = False
        while self._srel < len(self.rel):
            self.solver.add(self.rel[self._srel])
            self._srel += 1
        return self.solver

    def _check(self, *extra):
        s = self._solver()
        t0 = time.perf_counter()
        r = s.check(*extra)
        m = None
        self.stats.solver_queries += 1
        if r == z3.unknown:
            r, m = self._portfolio(s, extra)
        elif r == z3.sat:
            m = s.model()
        self.stats.solver_time += time.perf_counter() - t0
        if r == z3.unknown:
            raise Inconclusive("z3: unknown (%s)" % s.reason_unknown())
        if r == z3.sat:
            self.model = m
        return r == z3.sat

    def _portfolio(self, s, extra):
        """The incremental core gave up: other configurations, from scratch."""
        asserts = list(s.assertions()) + list(extra)
        for conf in (dict(seed=7), dict(seed=11, arith=2), dict(tactic="qfnra-nlsat"), dict(seed=23, t=40000),
                     dict(seed=5, arith=2, t=60000), dict(tactic="smt", t=60000)):
            try:
                q = z3.Tactic(conf["tactic"]).solver() if "tactic" in conf else z3.SolverFor("ALL") if conf.get("all") else z3.SimpleSolver()
                q.set("timeout", conf.get("t", 15000))
                if "seed" in conf:
                    q.set("random_seed", conf["seed"])
                if "arith" in conf:
                    q.set("smt.arith.solver", conf["arith"])
                q.add(*asserts)
                r = q.check()
                self.stats.solver_queries += 1
                if r != z3.unknown:
                    return r, (q.model() if r == z3.sat else None)
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    def _note_rel(self, expr):
        for v in z3util_vars(expr):
            n = v.decl().name()
            if n in self.vars:
                self.relvars.add(self.vars[n])

    def add_rel(self, expr):
        self.rel.append(expr)
        self._note_rel(expr)

    # -- evaluation of trees --
    def definite(self, t):
        """True/False if the tree is decided by current domains, else None."""
        if t is True or t is False:
            return t
        k = t[0]
        if k == "dom":
            d = self.dom[t[1]]
            m = d & t[2]
            if not m:
                return False
            if m is d or m == d:
                return True
            return None
        if k == "and":
            allt = True
            for x in t[1]:
                r = self.definite(x)
                if r is False:
                    return False
                if r is None:
                    allt = None
            return allt
        if k == "or":
            anyf = False
            for x in t[1]:
                r = self.definite(x)
                if r is True:
                    return True
                if r is None:
                    anyf = None
            return anyf
        e = t[1]
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return None

    def branch(self, t):
        self.stats.branches += 1
        r = self.definite(t)
        if r is not None:
            return r
        if self.spec:
            raise SpecAbort()
        k = t[0]
        if k == "dom":
            return self._branch_dom(t[1], t[2])
        if k == "and":
            for x in t[1]:
                if not self.branch(x):
                    return False
            return True
        if k == "or":
            for x in t[1]:
                if self.branch(x):
                    return True
            return False
        return self._branch_z3(t[1])

    def _decide(self):
        """Decision forced by the prefix, or None."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.log.append(d)
            return d
        return None

    def pick(self, fn):
        """A value chosen by the engine; recorded so that replaying a prefix
        chooses the same one."""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
        else:
            v = fn()
        self.pos += 1
        self.log.append(("v", v))
        return v

    def _fork(self):
        self.stats.forks += 1
        self.alts.append(self.log + [0])
        self.log.append(1)
        self.pos += 1

    def _branch_dom(self, v, s):
        d = self.dom[v]
        tset = d & s
        fset = d - s
        dec = self._decide()
        if dec is None:
            if v in self.relvars:
                zt = dom_z3(v.z, tset)
                can_t = self._check(zt)
                can_f = self._check(z3.Not(zt)) if can_t else True
            else:
                can_t = can_f = True
            if can_t and can_f:
                self._fork()
                dec = 1
            else:
                dec = 1 if can_t else 0
                # forced decisions are logged so that replaying a prefix needs
                # no solver
                self.log.append(dec)
                self.pos += 1
        self.dom[v] = tset if dec else fset
        if v in self.relvars:
            self.model_fresh = False
        return bool(dec)

    def _branch_z3(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        dec = self._decide()
        if dec is None:
            known = None
            mt = mf = None
            if self.model is not None and self.model_fresh:
                mv = self.model.eval(e, model_completion=True)
                if z3.is_true(mv):
                    known, mt = True, self.model
                elif z3.is_false(mv):
                    known, mf = False, self.model
            can_t = can_f = True
            if known is not True:
                can_t = self._check(e)
                if can_t:
                    mt = self.model
            if known is not False:
                can_f = self._check(z3.Not(e))
                if can_f:
                    mf = self.model
            if not can_t and not can_f:
                self.stats.infeasible += 1
                raise PathAbort()
            if can_t and can_f:
                self._fork()
                dec = 1
            else:
                dec = 1 if can_t else 0
                self.log.append(dec)
                self.pos += 1
            self.model = mt if dec else mf
            self.model_fresh = True
        else:
            self.model_fresh = False
        self.add_rel(e if dec else z3.Not(e))
        return bool(dec)

    def assume(self, t):
        """Constrain the path; ends it if impossible. No fork is explored on
        the other side (that is what assuming means)."""
        r = self.definite(t)
        if r is True:
            return
        if r is False:
            raise PathAbort()
        k = t[0]
        if k == "dom":
            self.dom[t[1]] = self.dom[t[1]] & t[2]
            if t[1] in self.relvars and not self._check():
                raise PathAbort()
            return
        if k == "and":
            for x in t[1]:
                self.assume(x)
            return
        if k == "or":
            self.add_rel(t_z3(t))
        else:
            self.add_rel(t[1])
        if self.pos >= len(self.prefix) and not self._check():
            raise PathAbort()

    # -- checks --
    def valid(self, t):
        """Does t hold for every value on this path? Returns None if so, else a
        model (dict of inputs) violating it."""
        r = self.definite(t)
        if r is True:
            return None
        if r is False:
            if self._check():
                return self.extract(self.model)
            return None
        if self._check(z3.Not(t_z3(t))):
            return self.extract(self.model)
        return None

    def path_model(self):
        if self._check():
            return self.model
        return None

    def extract(self, m):
        out = {}
        for n, v in self.vars.items():
            mv = m.eval(v.z, model_completion=False)
            if z3.is_int_value(mv):
                val = mv.as_long()
            else:
                val = self.dom[v].first()
            if val not in self.dom[v]:
                val = self.dom[v].first()
            out[n] = val
        for n, e in self.z3vars.items():
            mv = m.eval(e, model_completion=True)
            out[n] = z3val(mv)
        return out


def z3val(mv):
    if z3.is_int_value(mv):
        return mv.as_long()
    if z3.is_true(mv):
        return True
    if z3.is_false(mv):
        return False
    if z3.is_rational_value(mv):
        return "%s/%s" % (mv.numerator_as_long(), mv.denominator_as_long())
    if z3.is_bv_value(mv):
        return mv.as_long()
    return str(mv)


def z3util_vars(e):
    seen = set()
    out = []
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
        else:
            stack.extend(x.children())
    return out
