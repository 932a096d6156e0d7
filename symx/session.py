"""The object a scenario talks to: symbolic (exploration) or concrete (replay)."""
import sys
from . import engine as E
from . import iset
from . import values as V
from .iset import ISet


class Violation(Exception):
    pass


class AssumeFalse(BaseException):
    pass


def as_iset(dom):
    if isinstance(dom, ISet):
        return dom
    if isinstance(dom, str):
        return iset.chars(dom)
    return iset.from_iter(dom)


class SymSession:
    symbolic = True

    def __init__(self, eng, params, known=()):
        self.eng = eng
        self.known = known
        self.params = params
        self.cleanup = []

    # -- inputs --
    def char(self, name, dom=iset.ALLCH):
        v = self.eng.new_var(name, "char", as_iset(dom))
        return V.mkstr([V.Ch(v)])

    def text(self, name, n, dom=iset.ALLCH):
        out = ""
        for i in range(n):
            out = out + self.char("%s.%d" % (name, i), dom)
        return out

    def int(self, name, lo, hi):
        v = self.eng.new_var(name, "int", iset.rng(lo, hi))
        if lo == hi:
            return lo
        return V.SymInt(None, V.Ch(v))

    def intin(self, name, dom):
        v = self.eng.new_var(name, "int", as_iset(dom))
        return V.SymInt(None, V.Ch(v))

    def bool(self, name):
        v = self.eng.new_var(name, "bool", iset.rng(0, 1))
        return V.SymBool(("dom", v, iset.rng(1, 1)))

    def flag(self, name):
        """A boolean decided now (forks)."""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        v = self.eng.new_var(name, "int", iset.rng(0, len(options) - 1))
        return options[V.SymInt(None, V.Ch(v)).__index__()]

    def real(self, name):
        import z3

        e = z3.Real(name)
        self.eng.z3vars[name] = e
        return V.SymReal(e)

    def integer(self, name):
        """Unbounded mathematical integer."""
        import z3

        e = z3.Int(name)
        self.eng.z3vars[name] = e
        return V.SymInt(e)

    # -- constraints and checks --
    def assume(self, cond):
        self.eng.assume(V.tree(cond))

    def exclude(self, finding, cond):
        """Inputs of a recorded known finding are outside the exploration (they
        are replayed separately on every run); nothing is excluded when the
        finding is not listed."""
        if finding in self.known:
            self.eng.assume(V.tree(V.sx_not(cond)))

    def check(self, cond, msg, **info):
        eng = self.eng
        eng.stats.obligations += 1
        if isinstance(cond, V.Sym) and not isinstance(cond, V.SymBool):
            cond = bool(cond)
        ce = eng.valid(V.tree(cond))
        if ce is not None:
            eng.failures.append((msg, ce))
            raise E.PathAbort()

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.eng.labels.append(label)

    def observe(self, label, value):
        self.eng.obs.append((label, value))

    def intercept(self, fn, repl, repo_only=False):
        self.eng.intercept[fn] = repl

    def conc(self, x):
        """Enumerate concrete values of x (each a path)."""
        from . import rt

        if isinstance(x, V.SymStr):
            return rt.concrete_str(x)
        if isinstance(x, V.SymInt):
            return x.__index__()
        if isinstance(x, V.SymBool):
            return bool(x)
        return x

    def close(self):
        for c in reversed(self.cleanup):
            c()


class ConcSession:
    symbolic = False

    def __init__(self, inputs, params, kf=None):
        self.inputs = inputs
        self.kf = kf
        self.params = params
        self.obs = []
        self.labels = []
        self.cleanup = []

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def char(self, name, dom=iset.ALLCH):
        return chr(self._get(name, as_iset(dom).first()))

    def text(self, name, n, dom=iset.ALLCH):
        return "".join(self.char("%s.%d" % (name, i), dom) for i in range(n))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def intin(self, name, dom):
        return int(self._get(name, as_iset(dom).first()))

    def bool(self, name):
        return bool(self._get(name, 0))

    def flag(self, name):
        return self.bool(name)

    def choice(self, name, options):
        return list(options)[self._get(name, 0)]

    def real(self, name):
        import fractions

        return float(fractions.Fraction(self._get(name, "0/1")))

    def integer(self, name):
        return int(self._get(name, 0))

    def assume(self, cond):
        if not cond:
            raise AssumeFalse()

    def exclude(self, finding, cond):
        pass

    def check(self, cond, msg, **info):
        if not cond:
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def reach(self, label):
        self.labels.append(label)

    def observe(self, label, value):
        self.obs.append((label, value))

    def intercept(self, fn, repl, repo_only=False):
        """Replace a function everywhere the repository refers to it."""
        for m in list(sys.modules.values()):
            n = getattr(m, "__name__", "")
            d = getattr(m, "__dict__", None)
            if d is None:
                continue
            top = n.split(".")[0]
            own = not repo_only and top == (getattr(fn, "__module__", None) or "").split(".")[0] not in ("os", "posix", "io")
            if top in ("vanillaplusjs", "harness") or own or not repo_only and d.get(getattr(fn, "__name__", "")) is fn:
                for k, v in list(d.items()):
                    if v is fn and not (n.startswith("harness") and n != ""):
                        d[k] = repl
                        self.cleanup.append(lambda d=d, k=k: d.__setitem__(k, fn))

    def conc(self, x):
        return x

    def close(self):
        for c in reversed(self.cleanup):
            c()


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((jsonable(x) for x in v), key=repr)
    if hasattr(v, "value") and hasattr(type(v), "__members__"):
        return v.value
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def evaluate(v, m, eng):
    """Value of a possibly symbolic structure under a model."""
    import z3

    if isinstance(v, V.SymBool):
        return z3.is_true(m.eval(E.t_z3(v.t), model_completion=True))
    if isinstance(v, V.SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, V.SymStr):
        for c in v.c:
            if type(c) is V.ChAtom:
                raise ValueError("opaque text has no concrete form")
        return "".join(
            chr(c) if type(c) is int else chr(m.eval(c.expr(), model_completion=True).as_long()) for c in v.c
        )
    if isinstance(v, V.SymReal):
        return str(m.eval(v.e, model_completion=True))
    if isinstance(v, dict):
        return {evaluate(k, m, eng): evaluate(x, m, eng) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [evaluate(x, m, eng) for x in v]
    if isinstance(v, (set, frozenset)):
        return {evaluate(x, m, eng) for x in v}
    return v
