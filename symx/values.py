"""Symbolic booleans, integers, characters and strings."""
import decimal
import math
import fractions
import z3
from . import engine as E
from . import iset
from .iset import ISet
from .engine import t_and, t_or, t_not, Unsupported, Var


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ booleans
class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.CUR.branch(self.t)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(t_or([t_and([self.t, o.t]), t_and([t_not(self.t), t_not(o.t)])]))
        if o is True or o is False:
            return mkbool(self.t if o else t_not(self.t))
        if isinstance(o, int):
            if o == 1:
                return self
            if o == 0:
                return mkbool(t_not(self.t))
            return False
        return False

    def __ne__(self, o):
        return sx_not(self == o)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~bool")

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        raise Unsupported("str(SymBool)")


def mkbool(t):
    if t is True or t is False:
        return t
    return SymBool(t)


def tree(b):
    if isinstance(b, SymBool):
        return b.t
    return bool(b)


def b_and(*bs):
    return mkbool(t_and([tree(b) for b in bs]))


def b_or(*bs):
    return mkbool(t_or([tree(b) for b in bs]))


def sx_not(b):
    if isinstance(b, SymBool):
        return mkbool(t_not(b.t))
    return not b


def z3bool(expr):
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    return SymBool(("z3", expr))


# ------------------------------------------------------------------ integers
class SymInt(Sym):
    """An integer: `e` is a z3 Int expression; `ch`, when set, says that the
    value is a piecewise shift of one finite-domain variable."""

    __slots__ = ("_e", "ch")

    def __init__(self, e, ch=None):
        self._e = e
        self.ch = ch

    @property
    def e(self):
        if self._e is None:
            self._e = self.ch.expr()
        return self._e

    def _bin(self, o, f, rev=False):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            oe = z3.IntVal(o)
        elif isinstance(o, SymInt):
            oe = o.e
        elif isinstance(o, SymBool):
            oe = z3.If(E.t_z3(o.t), z3.IntVal(1), z3.IntVal(0))
        elif isinstance(o, SymReal):
            return None
        else:
            return None
        return f(oe, self.e) if rev else f(self.e, oe)

    def _arith(self, o, f, rev=False):
        r = self._bin(o, f, rev)
        if r is None:
            return NotImplemented
        return mkint(r)

    def __add__(self, o):
        if type(o) is int and self.ch is not None:
            return SymInt(None, self.ch.shift(o))
        if isinstance(o, (float, decimal.Decimal)):
            return as_real(self) + o
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int and self.ch is not None:
            return SymInt(None, self.ch.shift(-o))
        if isinstance(o, (float, decimal.Decimal)):
            return as_real(self) - o
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (float, decimal.Decimal)):
            return o - as_real(self)
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, list, tuple)):
            return o * self.__index__()
        if isinstance(o, (float, decimal.Decimal)):
            return as_real(self) * o
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if self._isconst(o):
            return mkint(pyfloordiv(self.e, o))
        if isinstance(o, SymInt):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return mkint(pyfloordiv_sym(self.e, o.e))
        if isinstance(o, (SymReal, float, decimal.Decimal)):
            return as_real(self) // o
        return NotImplemented

    def __rfloordiv__(self, o):
        if self == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return mkint(pyfloordiv_sym(z3.IntVal(o), self.e))

    def __mod__(self, o):
        if self._isconst(o):
            if o > 1 << 31:
                # wrap-around arithmetic: inner reductions are redundant
                return mkint(strip_mod(self.e, o) % z3.IntVal(o))
            return mkint(self.e - pyfloordiv(self.e, o) * o)
        if isinstance(o, SymInt):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return mkint(self.e - pyfloordiv_sym(self.e, o.e) * o.e)
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("% formatting")
        return mkint(z3.IntVal(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return as_real(self) / o

    def __rtruediv__(self, o):
        return as_real(o) / as_real(self)

    @staticmethod
    def _isconst(o):
        return isinstance(o, int) and not isinstance(o, bool)

    def __pow__(self, k):
        if isinstance(k, int) and 0 <= k <= 4:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        raise Unsupported("pow")

    # -- bit operations with constants (for 64-bit hash mixing see SymBV) --
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported("int &")

    __rand__ = __and__

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("int >>")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("int <<")

    # -- comparisons --
    def _cmpset(self, s):
        return mkbool(("dom", self.ch.var, self.ch.preimage(s)))

    def __eq__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if self.ch is not None:
                return self._cmpset(iset.rng(o, o))
            return z3b(eq_mod(self.e, z3.IntVal(o)))
        if isinstance(o, SymInt):
            if o is self:
                return True
            return z3b(eq_mod(self.e, o.e))
        if isinstance(o, (float, decimal.Decimal, SymReal)):
            return as_real(self) == o
        if isinstance(o, SymBool):
            return z3b(self._bin(o, lambda a, b: a == b))
        return False

    def __ne__(self, o):
        return sx_not(self == o)

    def _ord(self, o, f, lo, hi, name):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if self.ch is not None:
                return self._cmpset(ISet(((lo(o), hi(o)),)))
            return z3b(f(self.e, z3.IntVal(o)))
        if isinstance(o, SymInt):
            return z3b(f(self.e, o.e))
        if isinstance(o, (float, decimal.Decimal, SymReal)):
            return getattr(as_real(self), name)(o)
        return NotImplemented

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b, lambda c: -iset.INF, lambda c: c - 1, "__lt__")

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b, lambda c: -iset.INF, lambda c: c, "__le__")

    def __gt__(self, o):
        return self._ord(o, lambda a, b: a > b, lambda c: c + 1, lambda c: iset.INF, "__gt__")

    def __ge__(self, o):
        return self._ord(o, lambda a, b: a >= b, lambda c: c, lambda c: iset.INF, "__ge__")

    def __bool__(self):
        return bool(sx_not(self == 0))

    def __index__(self):
        """Concretise by enumerating every feasible value (each one a path)."""
        if self.ch is not None:
            var = self.ch.var
            eng = E.CUR
            while True:
                d = eng.dom[var]
                v = self.ch.image(d.first())
                if eng.branch(("dom", var, self.ch.preimage(iset.rng(v, v)))):
                    return v
        eng = E.CUR
        for _ in range(5000):
            v = eng.pick(self._a_value)
            if eng.branch(("z3", self.e == v)):
                return v
        raise Unsupported("concretisation of an unbounded integer")

    def _a_value(self):
        m = E.CUR.path_model()
        if m is None:
            raise E.PathAbort()
        return m.eval(self.e, model_completion=True).as_long()

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float(SymInt)")

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return "<SymInt>"

    def __str__(self):
        raise Unsupported("native str(SymInt)")

    def __format__(self, spec):
        raise Unsupported("native format(SymInt)")

    def bit_length(self):
        return self.__index__().bit_length()


def z3b(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(("z3", e))


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def modulus(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        return e.arg(1).as_long()
    return None


def linear(e, c, out):
    """Adds c * e to out (term id -> [term, coefficient]); key None is the constant."""
    if z3.is_int_value(e):
        out.setdefault(None, [None, 0])[1] += c * e.as_long()
        return
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        for x in e.children():
            linear(x, c, out)
    elif k == z3.Z3_OP_MUL and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        linear(e.arg(1), c * e.arg(0).as_long(), out)
    elif k == z3.Z3_OP_SUB:
        linear(e.arg(0), c, out)
        for x in e.children()[1:]:
            linear(x, -c, out)
    else:
        out.setdefault(e.get_id(), [e, 0])[1] += c


def eq_mod(a, b):
    """a == b; between values reduced by the same modulus the equation is solved
    for a term with an invertible coefficient."""
    m = modulus(a) or modulus(b)
    if m is None:
        return a == b
    for x in (a, b):
        if modulus(x) != m:
            if not z3.is_int_value(x):
                return a == b
            if not 0 <= x.as_long() < m:
                return z3.BoolVal(False)
    out = {}
    linear(z3.simplify(strip_mod(a, m)), 1, out)
    linear(z3.simplify(strip_mod(b, m)), -1, out)
    const = out.pop(None, [None, 0])[1] % m
    terms = [(t, c % m) for t, c in out.values() if c % m]
    if not terms:
        return z3.BoolVal(const == 0)
    def small(v, f):
        v = v * f % m
        return v - m if v > m // 2 else v

    # the scaling that leaves the smallest coefficients
    inv = min([1] + [pow(c, -1, m) for _, c in terms if math.gcd(c, m) == 1],
              key=lambda f: max(abs(small(c, f)) for _, c in terms))

    lhs = z3.Sum([t * z3.IntVal(small(c, inv)) for t, c in terms] + [z3.IntVal(small(const, inv))])
    return z3.simplify(lhs) % z3.IntVal(m) == 0


def strip_mod(e, m):
    """An expression congruent to e modulo m without inner reductions modulo m."""
    k = e.decl().kind()
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() == m:
        return e.arg(0)
    if k == z3.Z3_OP_ADD:
        return z3.Sum([strip_mod(x, m) for x in e.children()])
    if k == z3.Z3_OP_MUL:
        return z3.Product([strip_mod(x, m) for x in e.children()])
    if k == z3.Z3_OP_SUB:
        r = strip_mod(e.arg(0), m)
        for x in e.children()[1:]:
            r = r - strip_mod(x, m)
        return r
    return e


def pyfloordiv(a, b):
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b > 0:
        return a / z3.IntVal(b)  # z3 div: floor for positive divisors
    return (-a) / z3.IntVal(-b)


def pyfloordiv_sym(a, b):
    return z3.If(b > 0, a / b, (-a) / (-b))


def intexpr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(E.t_z3(x.t), z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


# --------------------------------------------------------------------- reals
FLOAT_MODE = ["real"]


def realexpr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    f = as_fraction(x)
    if f is not None:
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    raise Unsupported("real of %r" % type(x))


def as_fraction(x):
    if isinstance(x, (int, float, decimal.Decimal, fractions.Fraction)):
        return fractions.Fraction(x)
    return None


def as_real(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymReal(n=intexpr(x), d=z3.IntVal(1))
    f = as_fraction(x)
    if f is None:
        return None
    return SymReal(n=z3.IntVal(f.numerator), d=z3.IntVal(f.denominator))


class SymReal(Sym):
    """A float or Decimal, modelled as the exact real number (a quotient of two
    integer expressions with positive denominator where possible).  Rounding
    errors of the concrete arithmetic are outside the model; harnesses state
    tolerances that absorb them."""

    __slots__ = ("_e", "n", "d")

    def __init__(self, e=None, n=None, d=None):
        self._e = e
        self.n = n
        self.d = d

    @property
    def e(self):
        if self._e is None:
            self._e = z3.ToReal(self.n) / z3.ToReal(self.d)
        return self._e

    def _op(self, o, rev, fr, re_):
        o = as_real(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if a.n is not None and b.n is not None:
            return fr(a, b)
        return SymReal(z3.simplify(re_(a.e, b.e)))

    def __add__(self, o):
        return self._op(o, False, lambda a, b: mkfrac(a.n * b.d + b.n * a.d, a.d * b.d), lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, False, lambda a, b: mkfrac(a.n * b.d - b.n * a.d, a.d * b.d), lambda x, y: x - y)

    def __rsub__(self, o):
        return self._op(o, True, lambda a, b: mkfrac(a.n * b.d - b.n * a.d, a.d * b.d), lambda x, y: x - y)

    def __mul__(self, o):
        return self._op(o, False, lambda a, b: mkfrac(a.n * b.n, a.d * b.d), lambda x, y: x * y)

    __rmul__ = __mul__

    def _div(self, o, rev):
        o = as_real(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if a.n is not None and b.n is not None:
            if b > 0:
                return mkfrac(a.n * b.d, a.d * b.n)
            return mkfrac(-a.n * b.d, a.d * -b.n)
        return SymReal(z3.simplify(a.e / b.e))

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def __floordiv__(self, o):
        return as_real((self / o).floor())

    def __neg__(self):
        if self.n is not None:
            return mkfrac(-self.n, self.d)
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, f):
        o = as_real(o)
        if o is None:
            return NotImplemented
        if self.n is not None and o.n is not None:
            return z3b(f(self.n * o.d, o.n * self.d))
        return z3b(f(self.e, o.e))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sx_not(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(sx_not(self == 0))

    def __hash__(self):
        raise Unsupported("hash(SymReal)")

    def _fresh(self, cons):
        eng = E.CUR
        eng.counter += 1
        r = z3.Int("rnd!%d" % eng.counter)
        eng.rel.append(cons(r))
        eng.model_fresh = False
        return SymInt(r)

    def floor(self):
        if self.n is not None:
            if z3.is_int_value(self.d):
                return mkint(self.n / self.d)
            return self._fresh(lambda r: z3.And(r * self.d <= self.n, self.n < r * self.d + self.d))
        return mkint(z3.ToInt(self.e))

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        if self >= 0:
            return self.floor()
        return self.ceil()

    __trunc__ = trunc
    __floor__ = floor
    __ceil__ = ceil

    def __round__(self, n=None):
        """Nearest integer; both neighbours are admitted at a tie (rounding
        errors of the concrete arithmetic can decide it either way)."""
        if n is not None:
            if type(n) is not int:
                raise Unsupported("round(x, n) with symbolic n")
            return as_real((self * 10 ** n).__round__()) / 10 ** n if n >= 0 else as_real((self / 10 ** -n).__round__()) * 10 ** -n
        if self.n is not None:
            return self._fresh(
                lambda r: z3.And(2 * r * self.d <= 2 * self.n + self.d, 2 * self.n - self.d <= 2 * r * self.d)
            )
        return self._fresh(lambda r: z3.And(2 * r <= 2 * self.e + 1, 2 * self.e - 1 <= 2 * r))

    def __repr__(self):
        return "<SymReal>"

    def __float__(self):
        raise Unsupported("float(SymReal)")

    # Decimal interface
    def to_integral_value(self, *a, **k):
        return as_real(round(self))


def mkfrac(n, d):
    return SymReal(n=z3.simplify(n), d=z3.simplify(d))


# ---------------------------------------------------------------- characters
class Ch:
    """Piecewise shift of one variable: value = var + delta on each piece."""

    __slots__ = ("var", "pieces", "_e")

    def __init__(self, var, pieces=None):
        self.var = var
        self.pieces = pieces  # None = identity
        self._e = None

    def expr(self):
        if self._e is None:
            if self.pieces is None:
                self._e = self.var.z
            else:
                d = E.CUR.dom[self.var]
                ps = [(s & d, k) for s, k in self.pieces if s & d]
                e = self.var.z + ps[-1][1]
                for s, k in ps[:-1]:
                    e = z3.If(E.dom_z3(self.var.z, s), self.var.z + k, e)
                return e  # domain dependent: do not cache
        return self._e

    def preimage(self, s):
        if self.pieces is None:
            return s
        out = iset.EMPTY
        for p, d in self.pieces:
            out = out | (p & s.shift(-d))
        return out

    def image(self, v):
        if self.pieces is None:
            return v
        for p, d in self.pieces:
            if v in p:
                return v + d
        raise AssertionError

    def shift(self, k):
        if k == 0:
            return self
        if self.pieces is None:
            return Ch(self.var, ((ISet(((-iset.INF, iset.INF),)), k),))
        return Ch(self.var, tuple((p, d + k) for p, d in self.pieces))

    def compose(self, pieces):
        out = []
        for p, d in self.pieces or ((ISet(((-iset.INF, iset.INF),)), 0),):
            for q, k in pieces:
                m = p & q.shift(-d)
                if m:
                    out.append((m, d + k))
        return Ch(self.var, tuple(out))

    def dom(self):
        """Current set of possible values."""
        d = E.CUR.dom[self.var]
        if self.pieces is None:
            return d
        out = iset.EMPTY
        for p, k in self.pieces:
            m = p & d
            if m:
                out = out | m.shift(k)
        return out


class ChX:
    """A character whose code point is an arbitrary z3 integer expression."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def expr(self):
        return self.e


class ChD:
    """One digit of a symbolic integer: number `n` written with `k` digits,
    `pos` counting from the least significant one."""

    __slots__ = ("n", "k", "pos", "base", "upper", "_e")

    def __init__(self, n, k, pos, base, upper):
        self.n = n
        self.k = k
        self.pos = pos
        self.base = base
        self.upper = upper
        self._e = None

    def codes(self):
        return [ord(c) for c in "0123456789abcdefghijklmnopqrstuvwxyz"[: self.base].upper()] if self.upper else \
            [ord(c) for c in "0123456789abcdefghijklmnopqrstuvwxyz"[: self.base]]

    def expr(self):
        if self._e is None:
            w = z3.IntVal(self.base ** self.pos)
            d = self.n.e
            if self.pos:
                d = d / w
            if self.pos < self.k - 1:
                d = d % z3.IntVal(self.base)
            if self.base <= 10:
                self._e = d + 48
            else:
                self._e = z3.If(d < 10, d + 48, d + (55 if self.upper else 87))
        return self._e

    e = property(expr)

    def value_of(self, n):
        return self.codes()[n // self.base ** self.pos % self.base]

    def among(self, s):
        """Boolean tree: is the digit's character in the set?"""
        cs = self.codes()
        hit = [c for c in cs if c in s]
        if not hit:
            return False
        if len(hit) == len(cs):
            return True
        ch = self.n.ch
        if ch is not None:
            d = ch.dom()
            if d.size() <= 4096:
                good = iset.from_iter(v for v in d if self.value_of(v) in hit)
                return ch_in(ch, good)
        return tz3(E.dom_z3(self.expr(), iset.from_iter(hit)))


class ChAtom:
    """One opaque unit of text standing for the (injective) textual form of a
    value: a number literal, an escape sequence, a digest.  Two atoms are equal
    exactly when their tags and values are."""

    __slots__ = ("tag", "value")
    CODE = 0x10FFFE  # class tests see a character nothing else uses

    def __init__(self, tag, value):
        self.tag = tag
        self.value = value

    def expr(self):
        raise Unsupported("code point of an opaque text unit")

    e = property(expr)


def ch_expr(c):
    return z3.IntVal(c) if type(c) is int else c.expr()


def ch_eq(a, b):
    """Boolean tree for equality of two code points."""
    if type(a) is ChAtom or type(b) is ChAtom:
        if type(a) is not ChAtom or type(b) is not ChAtom or a.tag != b.tag:
            return False
        return tree(a.value == b.value)
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        if type(a) is Ch:
            return ("dom", a.var, a.preimage(iset.rng(b, b)))
        if type(a) is ChD:
            return a.among(iset.rng(b, b))
        return tz3(a.e == b)
    if type(a) is Ch and type(b) is Ch:
        if a.var is b.var and a.pieces == b.pieces:
            return True
        if not (a.dom() & b.dom()):
            return False
    if type(a) is ChD and type(b) is ChD and a.base == b.base and a.pos == b.pos and a.k == b.k and a.upper == b.upper:
        if a.n is b.n or (a.n.ch is not None and b.n.ch is not None and a.n.ch.var is b.n.ch.var and a.n.ch.pieces == b.n.ch.pieces):
            return True
    return tz3(ch_expr(a) == ch_expr(b))


def tz3(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return ("z3", e)


def ch_in(a, s):
    if type(a) is int:
        return a in s
    if type(a) is ChAtom:
        return ChAtom.CODE in s
    if type(a) is Ch:
        return ("dom", a.var, a.preimage(s))
    if type(a) is ChD:
        return a.among(s)
    return tz3(E.dom_z3(a.e, s))


def codes_of(s):
    if type(s) is str or isinstance(s, str):
        return [ord(c) for c in s]
    return s.c


def mkstr(codes):
    """Normalising constructor: plain str when nothing is symbolic."""
    out = []
    sym = False
    for c in codes:
        if type(c) is int:
            out.append(c)
            continue
        if type(c) is Ch:
            d = E.CUR.dom[c.var]
            if d.single():
                out.append(c.image(d.first()))
                continue
        elif type(c) is ChAtom:
            pass
        elif type(c) is ChD:
            if c.n.ch is not None:
                d = E.CUR.dom[c.n.ch.var]
                if d.single():
                    out.append(c.value_of(c.n.ch.image(d.first())))
                    continue
        elif z3.is_int_value(c.e):
            out.append(c.e.as_long())
            continue
        sym = True
        out.append(c)
    if not sym:
        return "".join(map(chr, out))
    return SymStr(out)


def is_str(x):
    return isinstance(x, (str, SymStr))


def str_eq(a, b):
    ca, cb = codes_of(a), codes_of(b)
    if len(ca) != len(cb):
        return False
    return mkbool(t_and([ch_eq(x, y) for x, y in zip(ca, cb)]))


WS = iset.charclass("isspace")


class SymStr(Sym):
    """A string of concrete length whose code points may be symbolic."""

    __slots__ = ("c",)

    def __init__(self, codes):
        self.c = list(codes)

    # -- basics --
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for c in self.c:
            yield mkstr([c])

    def __reversed__(self):
        for c in reversed(self.c):
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[i])
        return mkstr([self.c[i]])

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr(self.c + codes_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr(codes_of(o) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * n.__index__())

    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_str(o):
            return NotImplemented if isinstance(o, Sym) else False
        if o is self:
            return True
        return str_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is NotImplemented else sx_not(r)

    def _lex(self, o, strict):
        a, b = self.c, codes_of(o)
        # a < b  (or <= )
        res = len(a) < len(b) if strict else len(a) <= len(b)
        t = res
        for x, y in reversed(list(zip(a, b))):
            lt = tz3(ch_expr(x) < ch_expr(y)) if type(x) is not int or type(y) is not int else x < y
            t = t_or([lt, t_and([ch_eq(x, y), t])])
        return mkbool(t)

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return sx_not(self._lex(o, False))

    def __ge__(self, o):
        return sx_not(self._lex(o, True))

    def __hash__(self):
        return id(self)  # containers are handled by symx.rt, not by hashing

    def __contains__(self, o):
        return bool(s_contains(self, o))

    def __repr__(self):
        return "<SymStr %s>" % "".join(chr(c) if type(c) is int else "?" for c in self.c)

    def __str__(self):
        raise Unsupported("native str(SymStr)")

    def __format__(self, spec):
        raise Unsupported("native format(SymStr)")

    def __mod__(self, o):
        raise Unsupported("SymStr %")

    def __fspath__(self):
        raise Unsupported("symbolic path reached the operating system")

    # -- methods --
    def startswith(self, p, start=0, end=None):
        return s_startswith(self, p, start, end)

    def endswith(self, p, start=0, end=None):
        return s_endswith(self, p, start, end)

    def find(self, sub, start=0, end=None):
        return s_find(self, sub, start, end)

    def rfind(self, sub, start=0, end=None):
        return s_rfind(self, sub, start, end)

    def index(self, sub, start=0, end=None):
        r = s_find(self, sub, start, end)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=0, end=None):
        r = s_rfind(self, sub, start, end)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=0, end=None):
        if start != 0 or end is not None:
            return self[start:end].count(sub)
        n = 0
        i = 0
        while True:
            i = s_find(self, sub, i)
            if i == -1:
                return n
            n += 1
            i += max(1, len(sub))

    def split(self, sep=None, maxsplit=-1):
        return s_split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        return s_rsplit(self, sep, maxsplit)

    def splitlines(self, keepends=False):
        return s_splitlines(self, keepends)

    def partition(self, sep):
        i = s_find(self, sep)
        if i == -1:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = s_rfind(self, sep)
        if i == -1:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def strip(self, chars=None):
        return s_strip(self, chars, 3)

    def lstrip(self, chars=None):
        return s_strip(self, chars, 1)

    def rstrip(self, chars=None):
        return s_strip(self, chars, 2)

    def replace(self, a, b, count=-1):
        return s_replace(self, a, b, count)

    def join(self, it):
        return s_join(self, it)

    def lower(self):
        return s_case(self, "lower")

    def upper(self):
        return s_case(self, "upper")

    def casefold(self):
        return s_case(self, "casefold")

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if p and self.endswith(p) else self

    def _all(self, name):
        st = iset.charclass(name)
        return mkbool(t_and([ch_in(c, st) for c in self.c]))

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isascii(self):
        return self._all("isascii")

    def isprintable(self):
        return self._all("isprintable")

    def isidentifier(self):
        first = iset.charclass("isidentifier")
        rest = _idcont()
        return mkbool(t_and([ch_in(self.c[0], first)] + [ch_in(c, rest) for c in self.c[1:]]))

    def isupper(self):
        raise Unsupported("isupper")

    def zfill(self, n):
        if len(self.c) >= n:
            return self
        return mkstr([48] * (n - len(self.c)) + self.c)

    def ljust(self, n, ch=" "):
        return self + ch * (n - len(self.c)) if len(self.c) < n else self

    def rjust(self, n, ch=" "):
        return ch * (n - len(self.c)) + self if len(self.c) < n else self

    def format(self, *a, **k):
        raise Unsupported("SymStr.format")

    def title(self):
        raise Unsupported("title")

    def capitalize(self):
        raise Unsupported("capitalize")

    def swapcase(self):
        raise Unsupported("swapcase")

    def translate(self, table):
        out = ""
        for ch in self:
            if type(ch) is str:
                out = out + ch.translate(table)
                continue
            for k, v in table.items():
                if ch == chr(k):
                    ch = "" if v is None else (chr(v) if isinstance(v, int) else v)
                    break
            out = out + ch
        return out


_IDC = []


def _idcont():
    if not _IDC:
        out = []
        for i in range(0x110000):
            if ("a" + chr(i)).isidentifier():
                out.append(i)
        _IDC.append(iset.from_iter(out))
    return _IDC[0]


def s_match_at(cs, sub, i):
    if i < 0 or i + len(sub) > len(cs):
        return False
    return t_and([ch_eq(cs[i + k], sub[k]) for k in range(len(sub))])


def s_contains(s, sub):
    cs, sb = codes_of(s), codes_of(sub)
    if not sb:
        return True
    if len(sb) == 1 and type(sb[0]) is not int and all(type(c) is int for c in cs):
        return mkbool(ch_in(sb[0], iset.from_iter(cs)))
    return mkbool(t_or([s_match_at(cs, sb, i) for i in range(len(cs) - len(sb) + 1)]))


def _norm_range(n, start, end):
    r = slice(start, end).indices(n)
    return r[0], r[1]


def s_startswith(s, p, start=0, end=None):
    if isinstance(p, tuple):
        return b_or(*[s_startswith(s, x, start, end) for x in p])
    cs = codes_of(s)
    a, b = _norm_range(len(cs), start, end)
    cs = cs[a:b] if a <= b else []
    return mkbool(s_match_at(cs, codes_of(p), 0))


def s_endswith(s, p, start=0, end=None):
    if isinstance(p, tuple):
        return b_or(*[s_endswith(s, x, start, end) for x in p])
    cs = codes_of(s)
    a, b = _norm_range(len(cs), start, end)
    cs = cs[a:b] if a <= b else []
    pb = codes_of(p)
    return mkbool(s_match_at(cs, pb, len(cs) - len(pb)))


def s_find(s, sub, start=0, end=None):
    cs, sb = codes_of(s), codes_of(sub)
    a, b = _norm_range(len(cs), start, end)
    for i in range(a, b - len(sb) + 1):
        if E.CUR.branch(s_match_at(cs, sb, i)):
            return i
    return -1


def s_rfind(s, sub, start=0, end=None):
    cs, sb = codes_of(s), codes_of(sub)
    a, b = _norm_range(len(cs), start, end)
    for i in range(b - len(sb), a - 1, -1):
        if E.CUR.branch(s_match_at(cs, sb, i)):
            return i
    return -1


def s_split(s, sep=None, maxsplit=-1):
    cs = codes_of(s)
    out = []
    if sep is None:
        i = 0
        n = len(cs)
        br = E.CUR.branch
        while i < n:
            while i < n and br(ch_in(cs[i], WS)):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(s_strip(mkstr(cs[i:]), None, 2))
                return out
            j = i
            while j < n and not br(ch_in(cs[j], WS)):
                j += 1
            out.append(mkstr(cs[i:j]))
            i = j
        return out
    if len(sep) == 0:
        raise ValueError("empty separator")
    i = 0
    while maxsplit < 0 or len(out) < maxsplit:
        j = s_find(s, sep, i)
        if j == -1:
            break
        out.append(mkstr(cs[i:j]))
        i = j + len(sep)
    out.append(mkstr(cs[i:]))
    return out


def s_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return s_split(s, sep)
    if sep is None:
        raise Unsupported("rsplit(None, n)")
    cs = codes_of(s)
    out = []
    end = len(cs)
    while len(out) < maxsplit:
        j = s_rfind(s, sep, 0, end)
        if j == -1:
            break
        out.append(mkstr(cs[j + len(sep): end]))
        end = j
    out.append(mkstr(cs[:end]))
    out.reverse()
    return out


LINEBREAKS = iset.chars("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")


def s_splitlines(s, keepends=False):
    cs = codes_of(s)
    out = []
    cur = []
    i = 0
    br = E.CUR.branch
    while i < len(cs):
        if br(ch_in(cs[i], LINEBREAKS)):
            e = [cs[i]]
            if i + 1 < len(cs) and br(t_and([ch_eq(cs[i], 13), ch_eq(cs[i + 1], 10)])):
                i += 1
                e.append(cs[i])
            out.append(mkstr(cur + (e if keepends else [])))
            cur = []
        else:
            cur.append(cs[i])
        i += 1
    if cur:
        out.append(mkstr(cur))
    return out


def s_strip(s, chars, mode):
    cs = list(codes_of(s))
    br = E.CUR.branch
    if chars is None:
        test = lambda c: ch_in(c, WS)
    else:
        cc = codes_of(chars)
        if all(type(c) is int for c in cc):
            st = iset.from_iter(cc)
            test = lambda c: ch_in(c, st)
        else:
            test = lambda c: t_or([ch_eq(c, k) for k in cc])
    i, j = 0, len(cs)
    if mode & 1:
        while i < j and br(test(cs[i])):
            i += 1
    if mode & 2:
        while j > i and br(test(cs[j - 1])):
            j -= 1
    return mkstr(cs[i:j])


def s_replace(s, a, b, count=-1):
    cs, ca, cb = codes_of(s), codes_of(a), codes_of(b)
    if not ca:
        raise Unsupported("replace('')")
    out = []
    i = 0
    n = 0
    while i < len(cs):
        if (count < 0 or n < count) and i + len(ca) <= len(cs) and E.CUR.branch(s_match_at(cs, ca, i)):
            out.extend(cb)
            i += len(ca)
            n += 1
        else:
            out.append(cs[i])
            i += 1
    return mkstr(out)


def s_join(sep, it):
    out = []
    first = True
    cs = codes_of(sep)
    for x in it:
        if not is_str(x):
            raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
        if not first:
            out.extend(cs)
        first = False
        out.extend(codes_of(x))
    return mkstr(out)


def s_case(s, method):
    pieces, odd = iset.casemap(method)
    out = []
    for c in s.c:
        if type(c) is int:
            out.extend(ord(x) for x in getattr(chr(c), method)())
        elif type(c) is Ch:
            if E.CUR.branch(ch_in(c, odd)):
                k = SymInt(None, c).__index__()
                out.extend(ord(x) for x in getattr(chr(k), method)())
            else:
                out.append(c.compose(pieces))
        elif type(c) is ChAtom:
            raise Unsupported("case mapping of an opaque text unit")
        else:
            d = None
            # expression characters: only ASCII case mapping is modelled
            if E.CUR.branch(tz3(z3.And(c.e >= 0, c.e < 128))):
                if method == "upper":
                    out.append(ChX(z3.If(z3.And(c.e >= 97, c.e <= 122), c.e - 32, c.e)))
                else:
                    out.append(ChX(z3.If(z3.And(c.e >= 65, c.e <= 90), c.e + 32, c.e)))
            else:
                raise Unsupported("case mapping of a non-ASCII expression character")
    return mkstr(out)


def sx_ord(s):
    if len(s) != 1:
        raise TypeError("ord() expected a character, but string of length %d found" % len(s))
    c = s.c[0]
    if type(c) is int:
        return c
    if type(c) is Ch:
        return SymInt(None, c)
    return SymInt(c.e)


def sx_chr(i):
    if i.ch is not None:
        d = i.ch.dom()
        if not (d - iset.rng(0, 0x10FFFF)):
            return mkstr([i.ch])
    if i < 0 or i > 0x10FFFF:
        raise ValueError("chr() arg not in range(0x110000)")
    return mkstr([i.ch if i.ch is not None else ChX(i.e)])


DIGITS = {
    b: iset.chars("0123456789abcdefghijklmnopqrstuvwxyz"[:b] + "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:b])
    for b in (2, 8, 10, 16, 36)
}


def digit_value(c, base):
    if type(c) is int:
        return z3.IntVal(int(chr(c), base))
    e = ch_expr(c)
    if base <= 10:
        return e - 48
    return z3.If(e <= 57, e - 48, z3.If(e >= 97, e - 87, e - 55))


def sx_int(s, base=10):
    """int(str) for ASCII digits; other Unicode decimal digits are split off as
    their own (concretised) case."""
    s2 = s_strip(s, None, 3)
    cs = codes_of(s2)
    if not cs:
        raise ValueError("invalid literal for int() with base %d" % base)
    br = E.CUR.branch
    neg = False
    if br(ch_eq(cs[0], 45)):
        neg = True
        cs = cs[1:]
    elif br(ch_eq(cs[0], 43)):
        cs = cs[1:]
    if not cs:
        raise ValueError("invalid literal for int()")
    c = cs[0]
    if type(c) is ChD and c.base == base and c.k == len(cs) and all(
        type(x) is ChD and x.n is c.n and x.base == base and x.k == c.k and x.pos == c.k - 1 - i for i, x in enumerate(cs)
    ):
        return -c.n if neg else c.n
    val = z3.IntVal(0)
    DEC = iset.charclass("isdecimal")
    under = False
    for i, c in enumerate(cs):
        if not br(ch_in(c, DIGITS[base])):
            if br(ch_in(c, DEC)):
                k = SymInt(None, c).__index__() if type(c) is Ch else SymInt(c.e).__index__()
                d = int(chr(k))
                if d >= base:
                    raise ValueError("invalid literal for int()")
                val = val * base + d
                under = False
                continue
            if br(ch_eq(c, 95)):
                if i == 0 or under or i == len(cs) - 1:
                    raise ValueError("invalid literal for int()")
                under = True
                continue
            raise ValueError("invalid literal for int() with base %d" % base)
        val = val * base + digit_value(c, base)
        under = False
    r = mkint(val)
    return -r if neg else r


def digits_of(n, base, upper=False):
    """Digit characters of a non-negative symbolic integer: one path per digit
    count."""
    k = 1
    while not (n < base**k):
        k += 1
        if k > 64:
            raise Unsupported("unbounded integer formatting")
    out = [ChD(n, k, i, base, upper) for i in range(k - 1, -1, -1)]
    return mkstr(out)


def sx_intstr(n, base=10, prefix="", upper=False):
    if isinstance(n, int):
        if base == 10:
            return str(n)
        return prefix + format(n, {16: "X" if upper else "x", 8: "o", 2: "b"}[base])
    if n < 0:
        return "-" + prefix + digits_of(-n, base, upper)
    return prefix + digits_of(n, base, upper)


def sx_str(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return sx_intstr(x)
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, Sym):
        raise Unsupported("str(%s)" % type(x).__name__)
    return str(x)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values()) or any(isinstance(k, Sym) for k in x)
    return False
