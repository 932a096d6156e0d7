"""Backtracking interpreter for `re` patterns over symbolic strings.  The
pattern is parsed with CPython's own parser, so the same pattern object that the
repository compiled is executed; every character test is a branch decided by
the engine."""
import re
import re._parser as sre
import re._constants as C
from . import engine as E
from . import iset
from . import values as V
from .engine import Unsupported, t_not, t_and
from .values import codes_of, mkstr, ch_in

_PARSED = {}
_ANY = None


def parsed(p):
    r = _PARSED.get((p.pattern, p.flags))
    if r is None:
        if isinstance(p.pattern, bytes):
            raise Unsupported("bytes pattern")
        st = sre.parse(p.pattern, p.flags & ~re.UNICODE)
        r = _PARSED[(p.pattern, p.flags)] = (st, st.state.groups)
    return r


_CAT = {}


def cat(c):
    if not _CAT:
        sp = iset.charclass("isspace")
        import unicodedata  # noqa: F401

        dg = iset.charclass("isdecimal")
        wd = iset.charclass("isalnum") | iset.chars("_")
        _CAT[C.CATEGORY_SPACE] = sp
        _CAT[C.CATEGORY_NOT_SPACE] = iset.complement(sp)
        _CAT[C.CATEGORY_DIGIT] = dg
        _CAT[C.CATEGORY_NOT_DIGIT] = iset.complement(dg)
        _CAT[C.CATEGORY_WORD] = wd
        _CAT[C.CATEGORY_NOT_WORD] = iset.complement(wd)
    return _CAT[c]


def fold(s, flags):
    """Close a set under simple case folding (ASCII plus single-char maps)."""
    if not flags & re.IGNORECASE:
        return s
    if s.size() > 5000:
        return s
    out = set()
    for c in s:
        out.add(c)
        for x in (chr(c).lower(), chr(c).upper()):
            if len(x) == 1:
                out.add(ord(x))
    # characters whose lower/upper lands in the set
    if any(c in out for c in (ord("k"), ord("K"))):
        out.add(0x212A)
    if any(c in out for c in (ord("s"), ord("S"))):
        out.add(0x17F)
    return iset.from_iter(out)


_SETS = {}


def charset(op, av, flags):
    key = (str(op), str(av), flags)
    r = _SETS.get(key)
    if r is not None:
        return r
    if op is C.LITERAL:
        r = fold(iset.rng(av, av), flags)
    elif op is C.NOT_LITERAL:
        r = iset.complement(fold(iset.rng(av, av), flags))
    elif op is C.ANY:
        r = iset.ISet(((-iset.INF, iset.INF),)) if flags & re.DOTALL else iset.complement(iset.rng(10, 10))
    elif op is C.IN:
        neg = False
        r = iset.EMPTY
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                r = r | iset.rng(a, a)
            elif o is C.RANGE:
                r = r | iset.rng(a[0], a[1])
            elif o is C.CATEGORY:
                r = r | cat(a)
            else:
                raise Unsupported("regex set item %s" % o)
        r = fold(r, flags)
        if neg:
            r = iset.complement(r)
    _SETS[key] = r
    return r


CHAROPS = {C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN}


def wordch(c):
    return ch_in(c, cat(C.CATEGORY_WORD))


def m_seq(items, k, cs, i, g, flags, cont):
    """Match items[k:] at i; call cont(i, g) on success; returns its result or
    None (backtrack)."""
    br = E.CUR.branch
    if k == len(items):
        return cont(i, g)
    op, av = items[k]
    nxt = lambda j, gg: m_seq(items, k + 1, cs, j, gg, flags, cont)
    if op in CHAROPS:
        if i >= len(cs):
            return None
        if not br(ch_in(cs[i], charset(op, av, flags))):
            return None
        return nxt(i + 1, g)
    if op is C.SUBPATTERN:
        gid, add, dele, sub = av
        f2 = (flags | add) & ~dele

        def after(j, gg):
            if gid is not None:
                gg = dict(gg)
                gg[gid] = (i, j)
            return nxt(j, gg)

        return m_seq(list(sub), 0, cs, i, g, f2, after)
    if op is C.BRANCH:
        for alt in av[1]:
            r = m_seq(list(alt), 0, cs, i, g, flags, nxt)
            if r is not None:
                return r
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        if len(sub) == 1 and sub[0][0] in CHAROPS:
            st = charset(sub[0][0], sub[0][1], flags)
            if op is C.MAX_REPEAT:
                j = i
                n = 0
                while n < hi and j < len(cs) and br(ch_in(cs[j], st)):
                    j += 1
                    n += 1
                while n >= lo:
                    r = nxt(j, g)
                    if r is not None:
                        return r
                    j -= 1
                    n -= 1
                return None
            j = i
            n = 0
            while True:
                if n >= lo:
                    r = nxt(j, g)
                    if r is not None:
                        return r
                if n < hi and j < len(cs) and br(ch_in(cs[j], st)):
                    j += 1
                    n += 1
                else:
                    return None

        def rep(n, j, gg):
            def more():
                if n < hi:
                    return m_seq(sub, 0, cs, j, gg, flags, lambda jj, g2: rep(n + 1, jj, g2) if jj > j or n < lo else None)
                return None

            if n < lo:
                return more()
            if op is C.MAX_REPEAT:
                r = more()
                if r is not None:
                    return r
                return nxt(j, gg)
            r = nxt(j, gg)
            if r is not None:
                return r
            return more()

        return rep(0, i, g)
    if op is C.AT:
        if av is C.AT_BEGINNING:
            ok = i == 0 or (flags & re.MULTILINE and br(V.ch_eq(cs[i - 1], 10)))
        elif av is C.AT_BEGINNING_STRING:
            ok = i == 0
        elif av is C.AT_END:
            if flags & re.MULTILINE:
                ok = i == len(cs) or br(V.ch_eq(cs[i], 10))
            else:
                ok = i == len(cs) or (i == len(cs) - 1 and br(V.ch_eq(cs[i], 10)))
        elif av is C.AT_END_STRING:
            ok = i == len(cs)
        elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and br(wordch(cs[i - 1]))
            b = i < len(cs) and br(wordch(cs[i]))
            ok = (a != b) == (av is C.AT_BOUNDARY)
        else:
            raise Unsupported("regex anchor %s" % av)
        return nxt(i, g) if ok else None
    if op is C.GROUPREF:
        if av not in g:
            return None
        a, b = g[av]
        if not br(V.s_match_at(cs, cs[a:b], i)):
            return None
        return nxt(i + b - a, g)
    if op in (C.ASSERT, C.ASSERT_NOT):
        d, sub = av
        if d < 0:
            raise Unsupported("regex lookbehind")
        r = m_seq(list(sub), 0, cs, i, g, flags, lambda j, gg: (j, gg))
        if (r is not None) != (op is C.ASSERT):
            return None
        return nxt(i, r[1] if r is not None else g)
    raise Unsupported("regex op %s" % op)


class SymMatch:
    def __init__(self, p, s, span, groups, ngroups):
        self.re = p
        self.string = s
        self._s = s
        self._g = dict(groups)
        self._g[0] = span
        self._n = ngroups

    def _idx(self, k):
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[k]
        return k

    def _get(self, k, default=None):
        sp = self._g.get(self._idx(k))
        if sp is None:
            return default
        return self._s[sp[0]: sp[1]]

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._get(k) for k in ks)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self._get(k)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self._n))

    def groupdict(self, default=None):
        return {k: self._get(k, default) for k in self.re.groupindex}

    def span(self, k=0):
        return self._g.get(self._idx(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def __bool__(self):
        return True


def _at(p, s, i, full=False):
    st, ng = parsed(p)
    cs = codes_of(s)
    done = lambda j, g: (j, g) if (not full or j == len(cs)) else None
    r = m_seq(list(st), 0, cs, i, {}, p.flags, done)
    if r is None:
        return None
    return SymMatch(p, s, (i, r[0]), r[1], ng)


def p_match(p, s, pos=0):
    return _at(p, s, pos)


def p_fullmatch(p, s, pos=0):
    return _at(p, s, pos, full=True)


def p_search(p, s, pos=0):
    for i in range(pos, len(s) + 1):
        m = _at(p, s, i)
        if m is not None:
            return m
    return None


def p_finditer(p, s):
    i = 0
    while i <= len(s):
        m = p_search(p, s, i)
        if m is None:
            return
        yield m
        i = m.end() if m.end() > m.start() else m.end() + 1


def p_findall(p, s):
    out = []
    for m in p_finditer(p, s):
        g = m.groups("")
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def single_char_set(p):
    """Characters c such that the pattern matches the one-character string c,
    when the pattern is an alternation of literals/sets only; else None."""
    st, _ = parsed(p)
    items = list(st)
    if len(items) == 1 and items[0][0] in CHAROPS:
        return charset(items[0][0], items[0][1], p.flags)
    if len(items) == 1 and items[0][0] is C.BRANCH:
        out = iset.EMPTY
        for alt in items[0][1][1]:
            alt = list(alt)
            if any(o not in CHAROPS for o, _ in alt):
                return None
            if len(alt) == 1:
                out = out | charset(alt[0][0], alt[0][1], p.flags)
            elif not alt:
                return None
        return out
    return None


def p_sub(p, repl, s, count=0):
    if not V.is_str(s):
        raise TypeError("expected string")
    if callable(repl):
        rf = repl
    else:
        if "\\" in repl:
            raise Unsupported("regex replacement template")
        rf = lambda m: repl
    if len(s) == 1 and isinstance(repl, str) and len(repl) == 1:
        cset = single_char_set(p)
        if cset is not None:
            c = codes_of(s)[0]
            if type(c) is V.Ch:
                d = c.dom() & cset
                if not d:
                    return s
                r = ord(repl)
                pieces = [(iset.rng(x, x), r - x) for x in d] if d.size() < 50 else None
                if pieces is not None:
                    pieces.append((iset.complement(d), 0))
                    return mkstr([c.compose(pieces)])
    out = []
    i = n = 0
    while i <= len(s):
        m = _at(p, s, i)
        if m is None or (count and n >= count):
            if i < len(s):
                out.append(s[i: i + 1])
            i += 1
            continue
        n += 1
        out.append(rf(m))
        if m.end() == i:
            if i < len(s):
                out.append(s[i: i + 1])
            i += 1
        else:
            i = m.end()
    return V.s_join("", out)


def p_split(p, s, maxsplit=0):
    out = []
    i = 0
    n = 0
    for m in p_finditer(p, s):
        if maxsplit and n >= maxsplit:
            break
        if m.end() == m.start():
            raise Unsupported("empty-match split")
        out.append(s[i: m.start()])
        out.extend(m.groups())
        i = m.end()
        n += 1
    out.append(s[i:])
    return out
