"""Run-time helpers that the instrumented code calls (see rewrite.py)."""
import builtins
import decimal
import math
import re
import types
from . import engine as E
from . import values as V
from . import iset
from .engine import Unsupported, SpecAbort, t_and, t_or, t_not
from .values import Sym, SymStr, SymInt, SymBool, SymReal, mkstr, mkbool, b_or, b_and, tree

PURE_CODES = set()      # code objects of repository functions inferred pure
ENCODED = {}            # code object -> qualified name, functions executed symbolically
REPO_PREFIX = "vanillaplusjs"

BuiltinFn = type(len)
BuiltinMethod = type(re.compile('a').sub)
SYMKEYS = [False]       # some container on this path holds a symbolic key


def reset():
    SYMKEYS[0] = False


# ------------------------------------------------------------- boolean glue
def not_(x):
    if type(x) is SymBool:
        return mkbool(t_not(x.t))
    return not x


def _spec(th):
    eng = E.CUR
    eng.spec += 1
    try:
        v = th()
    except (SpecAbort, Exception):
        return None, False
    finally:
        eng.spec -= 1
    if type(v) is SymBool or v is True or v is False:
        return v, True
    return None, False


def or_(a, *ths):
    for i, th in enumerate(ths):
        if type(a) is SymBool:
            d = E.CUR.definite(a.t)
            if d is None:
                b, ok = _spec(th)
                if ok:
                    a = b_or(a, b)
                    continue
                if a:
                    return True
                a = th()
                continue
            if d:
                return True
            a = th()
            continue
        if a:
            return a
        a = th()
    return a


def and_(a, *ths):
    for i, th in enumerate(ths):
        if type(a) is SymBool:
            d = E.CUR.definite(a.t)
            if d is None:
                b, ok = _spec(th)
                if ok:
                    a = b_and(a, b)
                    continue
                if not a:
                    return False
                a = th()
                continue
            if not d:
                return False
            a = th()
            continue
        if not a:
            return a
        a = th()
    return a


# ------------------------------------------------------------------ contains
def _any_sym_keys(c):
    return SYMKEYS[0] and any(_sk(k) for k in c)


def _sk(k):
    """Is k a key whose hash says nothing: symbolic, or a tuple or frozen dataclass with something symbolic in it"""
    if isinstance(k, Sym):
        return True
    tk = type(k)
    if tk in _PLAIN:
        return False
    if tk is tuple:
        return any(_sk(x) for x in k)
    p = getattr(tk, "__dataclass_params__", None)
    if p is not None and p.eq and p.frozen:
        return any(_sk(getattr(k, f)) for f in tk.__dataclass_fields__)
    return False


_PLAIN = {str, int, float, bool, bytes, type(None)}


def setop(op, a, b):
    if SYMKEYS[0] and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (_any_sym_keys(a) or _any_sym_keys(b)):
        return set_method(a, op, (b,))
    if op == "difference":
        return a - b
    if op == "union":
        return a | b
    return a & b


def eq(a, b):
    r = a == b
    return r


def contains(x, c):
    """x in c"""
    tc = type(c)
    if tc is str or tc is SymStr:
        if type(x) is SymStr or tc is SymStr:
            if not V.is_str(x):
                raise TypeError("'in <string>' requires string as left operand")
            return V.s_contains(c, x)
        return x in c
    if isinstance(c, (set, frozenset, dict)) or tc in (_dk,):
        if _sk(x) or _any_sym_keys(c):
            if type(x) is SymStr and all(type(k) is str and len(k) == 1 for k in c):
                if len(x) != 1:
                    return False
                return mkbool(V.ch_in(x.c[0], iset.from_iter(ord(k) for k in c)))
            return b_or(*[_eqb(k, x) for k in c])
        return x in c
    if tc in (list, tuple):
        if isinstance(x, Sym) or any(isinstance(k, Sym) for k in c):
            return b_or(*[_eqb(k, x) for k in c])
        return x in c
    if isinstance(c, str):
        if isinstance(x, SymStr):
            return V.s_contains(str(c), x)
    if isinstance(c, range) and isinstance(x, SymInt):
        if c.step == 1:
            return b_and(x >= c.start, x < c.stop)
        return any(x == k for k in c)
    return x in c


_dk = type({}.keys())


def _eqb(a, b):
    r = a == b
    if r is NotImplemented:
        return False
    return r


def not_contains(x, c):
    return not_(contains(x, c))


# ----------------------------------------------------------- dict and set
def _find_key(d, k):
    for kk in list(d):
        if _eqb(kk, k):
            return kk
    return _MISSING


_MISSING = object()
_FUNCTION = type(lambda: 0)


def getitem(o, k):
    if isinstance(o, dict) and type(type(o).__getitem__) is not _FUNCTION and (_sk(k) or (SYMKEYS[0] and _any_sym_keys(o))):
        kk = _find_key(o, k)
        if kk is _MISSING:
            if hasattr(type(o), "__missing__"):
                setitem(o, k, o.default_factory())
                return getitem(o, k)
            raise KeyError(k)
        return dict.__getitem__(o, kk)
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and (_sk(k) or (SYMKEYS[0] and _any_sym_keys(o))):
        kk = _find_key(o, k)
        if kk is _MISSING:
            if _sk(k):
                SYMKEYS[0] = True
            kk = k
        dict.__setitem__(o, kk, v)
        return
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and (_sk(k) or (SYMKEYS[0] and _any_sym_keys(o))):
        kk = _find_key(o, k)
        if kk is _MISSING:
            raise KeyError(k)
        dict.__delitem__(o, kk)
        return
    del o[k]


def mkset(items):
    out = set()
    for x in items:
        set_add(out, x)
    return out


def set_add(s, x):
    if _sk(x) or _any_sym_keys(s):
        if _find_key(s, x) is _MISSING:
            if _sk(x):
                SYMKEYS[0] = True
            set.add(s, x)
        return
    set.add(s, x)


def mkdict(items):
    out = {}
    for k, v in items:
        setitem(out, k, v)
    return out


def set_method(s, name, a):
    if name == "add":
        return set_add(s, a[0])
    if name in ("discard", "remove"):
        kk = _find_key(s, a[0])
        if kk is _MISSING:
            if name == "remove":
                raise KeyError(a[0])
            return
        return set.discard(s, kk)
    if name == "update":
        for it in a:
            for x in list(it):
                set_add(s, x)
        return
    if name == "copy":
        return set(s)
    if name == "union":
        return mkset([x for it in (s,) + tuple(a) for x in it])
    if name == "difference":
        return {x for x in s if not any(_find_key(it, x) is not _MISSING for it in a)}
    if name == "intersection":
        return {x for x in s if all(_find_key(it, x) is not _MISSING for it in a)}
    if name == "pop":
        return set.pop(s)
    if name == "clear":
        return set.clear(s)
    if name == "issubset":
        return all(_find_key(a[0], x) is not _MISSING for x in s)
    raise Unsupported("set.%s with symbolic elements" % name)


def dict_method(d, name, a, k):
    if name == "get":
        kk = _find_key(d, a[0])
        if kk is _MISSING:
            return a[1] if len(a) > 1 else None
        return dict.__getitem__(d, kk)
    if name == "pop":
        kk = _find_key(d, a[0])
        if kk is _MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return dict.pop(d, kk)
    if name == "setdefault":
        kk = _find_key(d, a[0])
        if kk is _MISSING:
            setitem(d, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        return dict.__getitem__(d, kk)
    if name == "update":
        for src in list(a) + [k]:
            it = src.items() if isinstance(src, dict) else src
            for kk, vv in list(it):
                setitem(d, kk, vv)
        return
    if name == "__contains__":
        return contains(a[0], d)
    return getattr(d, name)(*a, **k)


# ---------------------------------------------------------------- f-strings
def fmt(value, conv, spec):
    if isinstance(value, Sym):
        if conv == 114:
            if isinstance(value, SymStr):
                return "'" + value + "'"
        if spec == "" or spec == "s" and isinstance(value, SymStr) or spec == "d" and isinstance(value, SymInt):
            return V.sx_str(value)
        if isinstance(value, SymInt):
            m = re.fullmatch(r"(0?)(\d*)([xXd])", spec)
            if m:
                r = V.sx_intstr(value, 10 if m.group(3) == "d" else 16, "", m.group(3) == "X")
                w = int(m.group(2) or 0)
                return ("0" if m.group(1) else " ") * max(0, w - len(r)) + r
        raise Unsupported("format spec %r" % (spec,))
    if V.has_sym(value):
        if conv in (114, -1, 115):
            return "<%s>" % type(value).__name__
    if conv == 114:
        value = repr(value)
    elif conv == 115:
        value = str(value)
    elif conv == 97:
        value = ascii(value)
    return format(value, spec)


def fstr(*parts):
    if all(type(p) is str for p in parts):
        return "".join(parts)
    return V.s_join("", parts)


# --------------------------------------------------------------------- calls
def _isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        real = pytype(x)
        for q in ts:
            if isinstance(q, tuple):
                if _isinstance(x, q):
                    return True
            elif isinstance(q, types.UnionType):
                if _isinstance(x, q.__args__):
                    return True
            elif issubclass(real, q):
                return True
            elif isinstance(x, q):
                return True
        return False
    return isinstance(x, t)


def pytype(x):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymReal):
        return float
    return type(x)


def _len(x):
    return len(x)


def _int(x=0, *a, **k):
    if isinstance(x, SymStr):
        base = a[0] if a else k.get("base", 10)
        return V.sx_int(x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return V.mkint(V.intexpr(x))
    if isinstance(x, SymReal):
        return x.trunc()
    return int(x, *a, **k)


def _float(x=0.0):
    if isinstance(x, SymStr):
        return float(concrete_str(x))
    if isinstance(x, (SymInt,)):
        return V.as_real(x)
    if isinstance(x, SymReal):
        return x
    return float(x)


def concrete_str(s):
    """Enumerate every feasible concrete value of a (small-domain) string."""
    out = []
    for c in V.codes_of(s):
        if type(c) is int:
            out.append(chr(c))
        elif type(c) is V.Ch:
            if c.dom().size() > 64:
                raise Unsupported("concretisation of a wide character")
            out.append(chr(SymInt(None, c).__index__()))
        else:
            out.append(chr(SymInt(c.e).__index__()))
    return "".join(out)


def _any(it):
    acc = False
    try:
        for x in it:
            if type(x) is SymBool:
                acc = b_or(acc, x)
            elif x:
                return True
            if type(acc) is SymBool and E.CUR.definite(acc.t):
                return True
    except Exception:
        if type(acc) is SymBool and acc:
            return True
        raise
    return acc


def _all(it):
    acc = True
    try:
        for x in it:
            if type(x) is SymBool:
                acc = b_and(acc, x)
            elif not x:
                return False
            if type(acc) is SymBool and E.CUR.definite(acc.t) is False:
                return False
    except Exception:
        if type(acc) is SymBool and not acc:
            return False
        raise
    return acc


def _hex(x):
    if isinstance(x, SymInt):
        return V.sx_intstr(x, 16, "0x")
    return hex(x)


def _set(it=()):
    it = list(it)
    if any(_sk(x) for x in it):
        return mkset(it)
    return set(it)


def _frozenset(it=()):
    return frozenset(_set(it))


def _sum(it, start=0):
    for x in it:
        start = start + x
    return start


def _round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def _repr(x):
    if isinstance(x, SymStr):
        return "'" + x + "'"
    if isinstance(x, Sym):
        return V.sx_str(x)
    if V.has_sym(x):
        return "<%s>" % type(x).__name__
    return repr(x)


def _format(x, spec=""):
    return fmt(x, -1, spec)


def _minmax(name):
    nat = getattr(builtins, name)

    def f(*a, **k):
        if k or not a:
            return nat(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and any(isinstance(x, Sym) for x in xs) and all(
            isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in xs
        ):
            import z3

            e = V.intexpr(xs[0])
            for x in xs[1:]:
                xe = V.intexpr(x)
                e = z3.If(xe < e if name == "min" else xe > e, xe, e)
            return V.mkint(e)
        return nat(xs)

    return f


def _str(*a, **k):
    if a and isinstance(a[0], Sym):
        return V.sx_str(a[0])
    if len(a) == 1 and isinstance(a[0], BaseException):
        args = a[0].args
        if len(args) == 1 and isinstance(args[0], Sym):
            return args[0]
    return str(*a, **k)


def _type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)


def _bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return not_(x == 0)
    return bool(x)


def _decimal(x="0", *a):
    if isinstance(x, (SymReal, SymInt)):
        return V.as_real(x)
    if isinstance(x, SymStr):
        return decimal.Decimal(concrete_str(x))
    return decimal.Decimal(x, *a)


def _floor(x):
    return x.floor() if isinstance(x, SymReal) else (x if isinstance(x, SymInt) else math.floor(x))


def _ceil(x):
    return x.ceil() if isinstance(x, SymReal) else (x if isinstance(x, SymInt) else math.ceil(x))


def _isnan(x):
    return False if isinstance(x, Sym) else math.isnan(x)


def _print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is not None and (any(isinstance(x, Sym) for x in a) or not hasattr(file, "fileno")):
        file.write(V.s_join(sep, [_str(x) for x in a]) + end)
        return
    if file is None:
        return
    print(*a, sep=sep, end=end, file=file)


def _sorted(it, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


TABLE = {
    isinstance: _isinstance,
    len: _len,
    ord: lambda x: V.sx_ord(x) if isinstance(x, SymStr) else ord(x),
    chr: lambda x: V.sx_chr(x) if isinstance(x, SymInt) else chr(x),
    int: _int,
    float: _float,
    str: _str,
    bool: _bool,
    type: _type,
    repr: _repr,
    format: _format,
    hex: _hex,
    any: _any,
    all: _all,
    set: _set,
    frozenset: _frozenset,
    sum: _sum,
    round: _round,
    min: _minmax("min"),
    max: _minmax("max"),
    math.floor: _floor,
    math.ceil: _ceil,
    math.isnan: _isnan,
    math.isinf: lambda x: False if isinstance(x, Sym) else math.isinf(x),
    print: _print,
    abs: abs,
    decimal.Decimal: _decimal,
}
# natives that only move references around, or call back into Python operators
TRANSPARENT = {
    list, tuple, enumerate, zip, reversed, iter, next, range, id, getattr, setattr, hasattr,
    sorted, dict, map, filter, callable, divmod, abs, pow, super, object, property, slice, issubclass,
    pytype, Exception, ValueError, KeyError, TypeError, RuntimeError, FileNotFoundError, AssertionError,
}
PURE_NATIVE = {
    isinstance, len, ord, chr, int, str, bool, type, repr, hex, any, all, sum, min, max, abs,
    tuple, enumerate, zip, range, getattr, hasattr, math.floor, math.ceil, float, list,
}
PURE_STR = {
    "startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric",
    "isidentifier", "lower", "upper", "strip", "lstrip", "rstrip", "get", "keys", "values", "items",
    "count", "find", "index", "replace", "join", "isascii", "isprintable", "split",
}

REPLACE = {}   # standard library function -> model that also takes symbolic data
NORMPATH = PY_NORMPATH = None
PYPATHS = {}   # function -> instrumented pure-Python version (posixpath)


def call(f, *a, **k):
    eng = E.CUR
    if eng is None:
        return f(*a, **k)
    eng.steps += 1
    if eng.steps > eng.step_limit:
        raise E.StepLimit()
    tf = type(f)
    ic = eng.intercept
    if ic:
        try:
            r = ic.get(f)
        except TypeError:
            r = None
        if r is not None:
            if eng.spec:
                raise SpecAbort()
            if f not in eng.ic_active:
                # inside its replacement, a function is the real one
                eng.ic_active.add(f)
                try:
                    return r(*a, **k)
                finally:
                    eng.ic_active.discard(f)
    if tf is types.FunctionType:
        code = f.__code__
        if f in REPLACE:
            if eng.spec:
                raise SpecAbort()
            return REPLACE[f](*a, **k)
        if code not in ENCODED:
            if f.__module__ and f.__module__.startswith(REPO_PREFIX):
                ENCODED[code] = f.__module__ + "." + f.__qualname__
        if eng.spec and code not in PURE_CODES:
            raise SpecAbort()
        if f in PYPATHS:
            for x in a:
                if isinstance(x, Sym):
                    return PYPATHS[f](*a, **k)
        return f(*a, **k)
    if tf is types.MethodType:
        fn = f.__func__
        code = getattr(fn, "__code__", None)
        if code is not None and code not in ENCODED:
            if fn.__module__ and fn.__module__.startswith(REPO_PREFIX):
                ENCODED[code] = fn.__module__ + "." + fn.__qualname__
        if eng.spec and code not in PURE_CODES:
            if not isinstance(f.__self__, Sym):
                raise SpecAbort()
        return f(*a, **k)
    if tf is type:
        h = TABLE.get(f) or REPLACE.get(f)
        if h is not None:
            if eng.spec and f not in PURE_NATIVE:
                raise SpecAbort()
            return h(*a, **k)
        if eng.spec and f not in PURE_NATIVE:
            raise SpecAbort()
        return f(*a, **k)
    if tf is BuiltinFn:
        if f is NORMPATH and a and isinstance(a[0], Sym):
            return PY_NORMPATH(*a)
        h = TABLE.get(f) if f.__self__ is builtins or f.__self__ is math else REPLACE.get(f)
        if h is not None:
            if eng.spec and f not in PURE_NATIVE:
                raise SpecAbort()
            return h(*a, **k)
        return _native(eng, f, a, k)
    if tf is BuiltinMethod:
        return _native(eng, f, a, k)
    if eng.spec:
        raise SpecAbort()
    return f(*a, **k)


def _native(eng, f, a, k):
    s = f.__self__
    name = f.__name__
    if eng.spec and not (isinstance(s, (str, dict)) and name in PURE_STR):
        raise SpecAbort()
    if isinstance(s, str):
        if name == "join":
            items = list(a[0])
            if any(isinstance(x, Sym) for x in items):
                return V.s_join(s, items)
            return f(items)
        if name == "format":
            if any(isinstance(x, Sym) for x in a) or any(isinstance(x, Sym) for x in k.values()):
                return str_format(s, a, k)
            if any(V.has_sym(x) for x in a):
                return "<formatted>"
            return f(*a, **k)
        if any(isinstance(x, Sym) for x in a) or (
            name in ("startswith", "endswith") and a and isinstance(a[0], tuple) and V.has_sym(a[0])
        ):
            return getattr(SymStr, name)(SymStr([ord(c) for c in s]), *a, **k)
        return f(*a, **k)
    if isinstance(s, (set, frozenset)):
        if any(_sk(x) for x in a) or _any_sym_keys(s) or any(
            isinstance(x, (set, frozenset, list, tuple)) and V.has_sym(x, 1) for x in a
        ):
            return set_method(s, name, a)
        return f(*a, **k)
    if isinstance(s, dict):
        if name == "items" or name == "values" or name == "keys" or name == "copy" or name == "clear":
            return f()
        if (a and _sk(a[0])) or _any_sym_keys(s) or (
            name == "update" and a and SYMKEYS[0]
        ):
            return dict_method(s, name, a, k)
        return f(*a, **k)
    if isinstance(s, (list, types.GeneratorType)):
        return f(*a, **k)
    if isinstance(s, re.Pattern):
        if any(isinstance(x, Sym) for x in a):
            from . import regex

            return getattr(regex, "p_" + name)(s, *a, **k)
        return f(*a, **k)
    if f in TRANSPARENT:
        return f(*a, **k)
    for x in a:
        if isinstance(x, Sym):
            raise Unsupported("symbolic argument to native %s" % (getattr(f, "__qualname__", f),))
    return f(*a, **k)


def str_format(s, a, k):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v = k[field]
        out.append(fmt(v, ord(conv) if conv else -1, spec or ""))
    return V.s_join("", out)


def mod(a, b):
    """a % b where a may be a format string"""
    if isinstance(a, str) and V.has_sym(b, 1):
        parts = a.split("%s")
        args = b if type(b) is tuple else (b,)
        if len(parts) != len(args) + 1 or any("%" in x for x in parts):
            raise Unsupported("% formatting with symbolic values")
        out = [parts[0]]
        for x, p in zip(args, parts[1:]):
            out.append(_str(x))
            out.append(p)
        return V.s_join("", out)
    return a % b
