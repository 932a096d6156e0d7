"""Sets of integers as sorted disjoint inclusive ranges (used as exact domains
of symbolic variables: characters, small integers, booleans)."""
from functools import lru_cache


class ISet:
    __slots__ = ("r", "_h")

    def __init__(self, ranges):
        self.r = ranges
        self._h = None

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash(self.r)
        return h

    def __eq__(self, o):
        return self is o or self.r == o.r

    def __bool__(self):
        return bool(self.r)

    def __contains__(self, x):
        lo, hi = 0, len(self.r)
        while lo < hi:
            m = (lo + hi) >> 1
            a, b = self.r[m]
            if x < a:
                hi = m
            elif x > b:
                lo = m + 1
            else:
                return True
        return False

    def size(self):
        return sum(b - a + 1 for a, b in self.r)

    def first(self):
        return self.r[0][0]

    def single(self):
        return len(self.r) == 1 and self.r[0][0] == self.r[0][1]

    def __iter__(self):
        for a, b in self.r:
            yield from range(a, b + 1)

    def __and__(self, o):
        return _and(self, o)

    def __or__(self, o):
        return _or(self, o)

    def __sub__(self, o):
        return _sub(self, o)

    def shift(self, d):
        if d == 0:
            return self
        return ISet(tuple((a + d, b + d) for a, b in self.r))

    def __repr__(self):
        return "ISet(%s)" % ",".join("%d-%d" % ab for ab in self.r[:12])


def of(*vals):
    return from_iter(vals)


def rng(a, b):
    return ISet(((a, b),)) if a <= b else EMPTY


def from_iter(vals):
    out = []
    for v in sorted(set(vals)):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return ISet(tuple((a, b) for a, b in out))


def chars(s):
    return _chars(s)


@lru_cache(maxsize=None)
def _chars(s):
    return from_iter(ord(c) for c in s)


EMPTY = ISet(())
INF = 1 << 80


@lru_cache(maxsize=1 << 16)
def _and(x, y):
    a, b = x.r, y.r
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    t = tuple(out)
    if t == a:
        return x
    if t == b:
        return y
    return ISet(t)


@lru_cache(maxsize=1 << 16)
def _or(x, y):
    out = []
    for lo, hi in sorted(x.r + y.r):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1][1] = hi
        else:
            out.append([lo, hi])
    return ISet(tuple((a, b) for a, b in out))


@lru_cache(maxsize=1 << 16)
def _sub(x, y):
    return _and(x, complement(y))


@lru_cache(maxsize=1 << 14)
def complement(x):
    out = []
    cur = -INF
    for lo, hi in x.r:
        if cur <= lo - 1:
            out.append((cur, lo - 1))
        cur = hi + 1
    out.append((cur, INF))
    return ISet(tuple(out))


@lru_cache(maxsize=None)
def charclass(method):
    """All code points c for which getattr(chr(c), method)() is true."""
    out = []
    start = None
    for i in range(0x110000):
        ok = getattr(chr(i), method)()
        if ok:
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return ISet(tuple(out))


@lru_cache(maxsize=None)
def casemap(method):
    """(pieces, odd): pieces = tuple of (ISet, delta) for single-character
    results, odd = ISet of code points that map to several characters."""
    by = {}
    odd = []
    for i in range(0x110000):
        r = getattr(chr(i), method)()
        if len(r) != 1:
            odd.append(i)
        else:
            d = ord(r) - i
            if d:
                by.setdefault(d, []).append(i)
    pieces = [(from_iter(v), d) for d, v in by.items()]
    moved = from_iter([x for v in by.values() for x in v] + odd)
    pieces.append((complement(moved), 0))
    return tuple(pieces), from_iter(odd)


ALLCH = ISet(((0, 0xD7FF), (0xE000, 0x10FFFF)))
