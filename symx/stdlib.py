"""Models of standard library services on symbolic data: json, percent
encoding, sha256 (injective by assumption), base64 of a digest, utf-8 bytes.
Concrete arguments always go to the real library."""
import base64
import binascii
import hashlib
import io
import json
import re
import urllib.parse
import z3
from . import engine as E
from . import iset
from . import rt
from . import values as V
from .engine import Unsupported
from .values import Sym, SymStr, SymInt, SymBool, SymReal, ChAtom, mkstr, codes_of, has_sym

JSON_ATOMS = [False]  # encode every number as an atom, concrete ones too


# --------------------------------------------------------------------- json
ESC = iset.chars('"\\' + "".join(map(chr, range(32))) + "\x7f") | iset.rng(0x80, 0x10FFFF)
ESC_RAW = iset.chars('"\\' + "".join(map(chr, range(32))))
HEXDIGITS = iset.chars("0123456789abcdefABCDEF")
NUMBER = re.compile(r"(-?(?:0|[1-9][0-9]*))(\.[0-9]+)?([eE][-+]?[0-9]+)?")
_real_dumps = json.dumps
_real_loads = json.loads


def _enc_str(s, ascii_):
    if type(s) is str:
        return _real_dumps(s, ensure_ascii=ascii_)
    esc = ESC if ascii_ else ESC_RAW
    out = [34]
    for c in codes_of(s):
        if type(c) is int:
            out.extend(map(ord, _real_dumps(chr(c), ensure_ascii=ascii_)[1:-1]))
        elif type(c) is ChAtom:
            out.append(c)
        elif E.CUR.branch(V.ch_in(c, esc)):
            out.append(ChAtom("jsonesc", mkstr([c])))
        else:
            out.append(c)
    out.append(34)
    return mkstr(out)


def _deep_sym(o):
    if isinstance(o, Sym):
        return True
    if isinstance(o, dict):
        return any(_deep_sym(k) or _deep_sym(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return any(_deep_sym(x) for x in o)
    return False


def _enc(o, k, lvl):
    ascii_ = k.get("ensure_ascii", True)
    if o is None or o is True or o is False or isinstance(o, str):
        return _real_dumps(o, ensure_ascii=ascii_)
    if isinstance(o, SymStr):
        return _enc_str(o, ascii_)
    if isinstance(o, SymBool):
        return "true" if o else "false"
    if isinstance(o, SymInt) or (JSON_ATOMS[0] and isinstance(o, int)):
        return mkstr([ChAtom("int", o)])
    if isinstance(o, SymReal) or (JSON_ATOMS[0] and isinstance(o, float)):
        return mkstr([ChAtom("real", o)])
    if isinstance(o, (int, float)):
        return _real_dumps(o)
    ind = k.get("indent")
    seps = k.get("separators") or ((",", ": ") if ind is not None else (", ", ": "))
    if isinstance(ind, int):
        ind = " " * ind
    nl = "\n" + ind * (lvl + 1) if ind is not None else ""
    end = "\n" + ind * lvl if ind is not None else ""
    if isinstance(o, (list, tuple)):
        if not o:
            return "[]"
        parts = [_enc(x, k, lvl + 1) for x in o]
        return V.s_join("", ["[" + nl, V.s_join(seps[0] + nl, parts), end, "]"])
    if isinstance(o, dict):
        if not o:
            return "{}"
        items = list(o.items())
        if k.get("sort_keys"):
            items = sorted(items, key=lambda kv: kv[0])
        parts = []
        for a, b in items:
            if a is None or a is True or a is False or (isinstance(a, (int, float))):
                a = _real_dumps(_real_dumps(a))
            elif isinstance(a, (str, SymStr)):
                a = _enc_str(a, ascii_)
            else:
                raise TypeError("keys must be str, int, float, bool or None")
            parts.append(V.s_join("", [a, seps[1], _enc(b, k, lvl + 1)]))
        return V.s_join("", ["{" + nl, V.s_join(seps[0] + nl, parts), end, "}"])
    if k.get("default") is not None:
        return _enc(k["default"](o), k, lvl)
    if k.get("cls") is not None:
        return _enc(k["cls"]().default(o), k, lvl)
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


def dumps(o, **k):
    if not _deep_sym(o) and not JSON_ATOMS[0]:
        return _real_dumps(o, **k)
    return _enc(o, k, 0)


def dump(o, fp, **k):
    fp.write(dumps(o, **k))


class _P:
    def __init__(self, cs, k):
        self.cs = cs
        self.i = 0
        self.hook = k.get("object_hook")
        self.pairs_hook = k.get("object_pairs_hook")
        self.pf = k.get("parse_float")

    def err(self, msg="Expecting value"):
        raise json.JSONDecodeError(msg, "", 0)

    def at(self, ch):
        c = self.cs[self.i] if self.i < len(self.cs) else None
        if c is None or type(c) is ChAtom:
            return False
        return E.CUR.branch(V.ch_eq(c, ord(ch))) if type(c) is not int else c == ord(ch)

    def ws(self):
        while self.i < len(self.cs) and any(self.at(w) for w in " \t\n\r"):
            self.i += 1

    def value(self):
        self.ws()
        if self.i >= len(self.cs):
            self.err()
        c = self.cs[self.i]
        if type(c) is ChAtom and c.tag in ("int", "real"):
            self.i += 1
            return c.value
        if self.at('"'):
            return self.string()
        if self.at("{"):
            self.i += 1
            pairs = []
            self.ws()
            if self.at("}"):
                self.i += 1
            else:
                while True:
                    self.ws()
                    if not self.at('"'):
                        self.err("Expecting property name")
                    k = self.string()
                    self.ws()
                    if not self.at(":"):
                        self.err("Expecting ':'")
                    self.i += 1
                    pairs.append((k, self.value()))
                    self.ws()
                    if self.at(","):
                        self.i += 1
                        continue
                    if self.at("}"):
                        self.i += 1
                        break
                    self.err("Expecting ','")
            if self.pairs_hook:
                return self.pairs_hook(pairs)
            d = rt.mkdict(pairs)
            return self.hook(d) if self.hook else d
        if self.at("["):
            self.i += 1
            out = []
            self.ws()
            if self.at("]"):
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.ws()
                if self.at(","):
                    self.i += 1
                    continue
                if self.at("]"):
                    self.i += 1
                    return out
                self.err("Expecting ','")
        for lit, v in (("null", None), ("true", True), ("false", False), ("NaN", float("nan")),
                       ("Infinity", float("inf")), ("-Infinity", float("-inf"))):
            if E.CUR.branch(V.s_match_at(self.cs, [ord(x) for x in lit], self.i)):
                self.i += len(lit)
                return v
        from . import regex

        NUM = NUMBER
        rest = mkstr(self.cs[self.i:])
        m = NUM.match(rest) if type(rest) is str else regex.p_match(NUM, rest)
        if m is None:
            self.err()
        self.i += m.end()
        a, b, c = m.groups()
        if b or c:
            return (self.pf or rt._float)(a + (b or "") + (c or ""))
        return rt._int(a)

    def hex4(self, i):
        cs = self.cs[i: i + 4]
        if len(cs) != 4:
            self.err("Invalid \\uXXXX escape")
        for c in cs:
            if type(c) is ChAtom or not E.CUR.branch(V.ch_in(c, HEXDIGITS)):
                self.err("Invalid \\uXXXX escape")
        return rt._int(mkstr(cs), 16)

    def string(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.cs):
                self.err("Unterminated string")
            c = self.cs[self.i]
            if type(c) is ChAtom:
                self.i += 1
                if c.tag == "jsonesc":
                    out.extend(codes_of(c.value))
                else:
                    out.append(c)
                continue
            if self.at('"'):
                self.i += 1
                return mkstr(out)
            if self.at("\\"):
                self.i += 1
                if self.i >= len(self.cs):
                    self.err("Unterminated string")
                for k, v in json.decoder.BACKSLASH.items():
                    if self.at(k):
                        out.append(ord(v))
                        self.i += 1
                        break
                else:
                    if not self.at("u"):
                        self.err("Invalid \\escape")
                    u = self.hex4(self.i + 1)
                    self.i += 5
                    if type(u) is not int:
                        if bool((u >= 0xD800) & (u <= 0xDBFF)) and self.at("\\"):
                            raise Unsupported("symbolic surrogate in JSON")
                        out.extend(codes_of(V.sx_chr(u)))
                        continue
                    if 0xD800 <= u <= 0xDBFF and self.at("\\") and self.cs[self.i + 1: self.i + 2] == [117]:
                        u2 = self.hex4(self.i + 2)
                        if type(u2) is not int:
                            raise Unsupported("symbolic surrogate in JSON")
                        if 0xDC00 <= u2 <= 0xDFFF:
                            u = 0x10000 + (((u - 0xD800) << 10) | (u2 - 0xDC00))
                            self.i += 6
                    out.append(u)
                continue
            if E.CUR.branch(V.ch_in(c, iset.rng(0, 31))):
                self.err("Invalid control character")
            out.append(c)
            self.i += 1


def loads(s, **k):
    if isinstance(s, SymBytes):
        s = s.text
    if not isinstance(s, SymStr):
        return _real_loads(s, **k)
    p = _P(codes_of(s), k)
    v = p.value()
    p.ws()
    if p.i != len(p.cs):
        p.err("Extra data")
    return v


def load(fp, **k):
    return loads(fp.read(), **k)


# ------------------------------------------------------------ utf-8 and hash
class SymBytes(Sym):
    """The utf-8 encoding of a symbolic string."""

    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8", "ascii"):
            raise Unsupported("decode " + encoding)
        return self.text

    def __len__(self):
        n = 0
        for c in codes_of(self.text):
            if type(c) is int:
                n += len(chr(c).encode("utf-8", "surrogatepass"))
            elif type(c) is ChAtom:
                n += 1
            elif E.CUR.branch(V.ch_in(c, iset.rng(0, 0x7F))):
                n += 1
            elif E.CUR.branch(V.ch_in(c, iset.rng(0, 0x7FF))):
                n += 2
            elif E.CUR.branch(V.ch_in(c, iset.rng(0, 0xFFFF))):
                n += 3
            else:
                n += 4
        return n

    def __bool__(self):
        return len(self.text) > 0

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return V.str_eq(self.text, o.text)
        if isinstance(o, (bytes, bytearray)):
            try:
                return V.str_eq(self.text, bytes(o).decode("utf-8"))
            except UnicodeDecodeError:
                return False
        return False

    def __ne__(self, o):
        return V.sx_not(self == o)

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return mkbytes(self.text + btext(o))

    def __radd__(self, o):
        return mkbytes(btext(o) + self.text)


def btext(b):
    if isinstance(b, SymBytes):
        return b.text
    if isinstance(b, Octets):
        raise Unsupported("symbolic bytes as text")
    return bytes(b).decode("utf-8")


def mkbytes(text):
    if isinstance(text, SymStr):
        return SymBytes(text)
    return text.encode("utf-8")


def utf8(c):
    """utf-8 bytes (codes) of one character."""
    if type(c) is int:
        return list(chr(c).encode("utf-8", "surrogatepass"))
    if type(c) is ChAtom:
        raise Unsupported("bytes of an opaque text unit")
    br = E.CUR.branch
    if br(V.ch_in(c, iset.rng(0, 0x7F))):
        return [c]
    e = V.ch_expr(c)
    if br(V.ch_in(c, iset.rng(0, 0x7FF))):
        bs = [192 + e / 64, 128 + e % 64]
    elif br(V.ch_in(c, iset.rng(0, 0xFFFF))):
        bs = [224 + e / 4096, 128 + (e / 64) % 64, 128 + e % 64]
    else:
        bs = [240 + e / 262144, 128 + (e / 4096) % 64, 128 + (e / 64) % 64, 128 + e % 64]
    return [V.ChX(b) for b in bs]


def octets(b):
    """Any bytes-like value as text with one character per byte."""
    if isinstance(b, Octets):
        return b.s
    if isinstance(b, SymBytes):
        out = []
        for c in codes_of(b.text):
            out += utf8(c)
        return mkstr(out)
    return bytes(b).decode("latin-1")


def mkoctets(s):
    if isinstance(s, SymStr):
        return Octets(s)
    return s.encode("latin-1")


class Octets(Sym):
    """Bytes of which some are symbolic: text with one character per byte."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __len__(self):
        return len(self.s)

    def __bool__(self):
        return len(self.s) > 0

    def __eq__(self, o):
        if isinstance(o, (Octets, SymBytes, bytes, bytearray)):
            return V.str_eq(self.s, octets(o))
        return False

    def __ne__(self, o):
        return V.sx_not(self == o)

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return mkoctets(self.s + octets(o))

    def __radd__(self, o):
        return mkoctets(octets(o) + self.s)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkoctets(self.s[k])
        c = self.s[k]
        return ord(c) if type(c) is str else V.sx_ord(c)

    def translate(self, table, delete=b""):
        if table is not None:
            raise Unsupported("translate with a table")
        drop = iset.from_iter(bytes(delete))
        return mkoctets(mkstr([c for c in codes_of(self.s) if not E.CUR.branch(V.ch_in(c, drop))]))

    def replace(self, a, b, n=-1):
        return mkoctets(V.s_replace(self.s, octets(a), octets(b), n))

    def strip(self, chars=None):
        return mkoctets(self.s.strip(" \t\n\r\x0b\f" if chars is None else octets(chars)))

    def rstrip(self, chars=None):
        return mkoctets(self.s.rstrip(" \t\n\r\x0b\f" if chars is None else octets(chars)))

    def startswith(self, x):
        return self.s.startswith(octets(x))

    def endswith(self, x):
        return self.s.endswith(octets(x))

    def decode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower().replace("_", "-")
        if e in ("latin-1", "iso-8859-1", "latin1"):
            return self.s
        for c in codes_of(self.s):
            if not E.CUR.branch(V.ch_in(c, iset.rng(0, 127))):
                raise Unsupported("decoding symbolic bytes")
        return self.s


B64 = tuple((iset.rng(a, b), d) for a, b, d in ((65, 90, -65), (97, 122, -71), (48, 57, 4), (43, 43, 19), (47, 47, 16)))
B64SET = iset.chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")


def sextet(c):
    if type(c) is int:
        return z3.IntVal(next(c + d for s, d in B64 if c in s))
    if type(c) is V.Ch:
        return c.compose(B64).expr()
    e = V.ch_expr(c)
    r = e - 65
    for s, d in B64[1:]:
        r = z3.If(E.dom_z3(e, s), e + d, r)
    return r


def a2b(x, strict):
    """binascii.a2b_base64"""
    br = E.CUR.branch
    err = binascii.Error
    out, quad, pads, started = [], [], 0, False
    cs = codes_of(octets(x) if not V.is_str(x) else x)
    for i, c in enumerate(cs):
        if br(V.ch_eq(c, 61)):
            started = True
            if strict and not quad:
                raise err("Leading padding not allowed" if i == 0 else "Excess padding not allowed")
            if len(quad) >= 2:
                pads += 1
                if len(quad) + pads >= 4:
                    if strict and i + 1 < len(cs):
                        raise err("Excess data after padding")
                    break
            continue
        if not br(V.ch_in(c, B64SET)):
            if strict:
                raise err("Only base64 data is allowed")
            continue
        if strict and started:
            raise err("Discontinuous padding not allowed")
        pads = 0
        quad.append(sextet(c))
        if len(quad) == 4:
            a, b, d, e = quad
            out += [a * 4 + b / 16, (b % 16) * 16 + d / 4, (d % 4) * 64 + e]
            quad = []
    else:
        if len(quad):
            raise err("Incorrect padding")
    if len(quad) >= 2:
        out.append(quad[0] * 4 + quad[1] / 16)
        if len(quad) == 3:
            out.append((quad[1] % 16) * 16 + quad[2] / 4)
    return mkoctets(mkstr([V.ChX(z3.simplify(o)) for o in out]))


def b64decode(s, altchars=None, validate=False):
    if not isinstance(s, Sym):
        return base64.b64decode(s, altchars, validate)
    if altchars is not None:
        raise Unsupported("b64decode with altchars")
    if isinstance(s, SymStr):
        for c in codes_of(s):
            if not E.CUR.branch(V.ch_in(c, iset.rng(0, 127))):
                raise ValueError("string argument should contain only ASCII characters")
    return a2b(s, validate)


def a2b_base64(s, *, strict_mode=False):
    if not isinstance(s, Sym):
        return binascii.a2b_base64(s, strict_mode=strict_mode)
    return a2b(s, strict_mode)


def unquote_to_bytes(s):
    if isinstance(s, (SymBytes, Octets)):
        s = octets(s)
        enc = lambda c: [c]
    elif isinstance(s, SymStr):
        enc = utf8
    else:
        return urllib.parse.unquote_to_bytes(s)
    cs = codes_of(s)
    br = E.CUR.branch
    out = []
    i = 0
    while i < len(cs):
        if br(V.ch_eq(cs[i], 37)) and i + 2 < len(cs) and br(V.ch_in(cs[i + 1], HEX)) and br(V.ch_in(cs[i + 2], HEX)):
            b = rt._int(mkstr(cs[i + 1: i + 3]), 16)
            out.append(b if isinstance(b, int) else V.ChX(V.intexpr(b)))
            i += 3
            continue
        out += enc(cs[i])
        i += 1
    return mkoctets(mkstr(out))


def s_encode(self, encoding="utf-8", errors="strict"):
    if encoding.lower().replace("_", "-") not in ("utf-8", "utf8", "ascii"):
        raise Unsupported("encode " + encoding)
    return SymBytes(self)


SymStr.encode = s_encode


class SymDigest(Sym):
    """A digest; equal exactly when the hashed contents are equal."""

    __slots__ = ("alg", "content")

    def __init__(self, alg, content):
        self.alg = alg
        self.content = content

    def _text(self, kind, n, pad=""):
        return mkstr([ChAtom("digest-%s-%s" % (self.alg, kind), self.content)] + [65] * (n - 1 - len(pad)) + [ord(c) for c in pad])

    def hex(self):
        return self._text("hex", 64)

    def __len__(self):
        return 32

    def __eq__(self, o):
        return isinstance(o, SymDigest) and self.alg == o.alg and self.content == o.content

    def __hash__(self):
        return id(self)


class FakeHash:
    def __init__(self, alg, data=b""):
        self.alg = alg
        self.parts = []
        self.update(data)

    def update(self, b):
        if isinstance(b, (bytearray, memoryview)):
            b = bytes(b)
        if len(b) if isinstance(b, bytes) else True:
            self.parts.append(b)

    def _content(self):
        if any(isinstance(p, Octets) for p in self.parts):
            return mkoctets(V.s_join("", [octets(p) for p in self.parts]))
        return mkbytes(V.s_join("", [btext(p) for p in self.parts]))

    def digest(self):
        if not any(isinstance(p, Sym) for p in self.parts) and not FORCE_FAKE[0]:
            return getattr(hashlib, self.alg)(b"".join(self.parts)).digest()
        return SymDigest(self.alg, self._content())

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        h = FakeHash(self.alg)
        h.parts = list(self.parts)
        return h


FORCE_FAKE = [False]  # digests of concrete contents are symbolic terms as well


def _b64(kind):
    def f(real):
        def g(x, *a):
            if isinstance(x, SymDigest):
                return mkbytes(x._text("b64" + kind, 44, "="))
            if isinstance(x, Sym):
                raise Unsupported("base64 of symbolic data")
            return real(x, *a)

        return g

    return f


# --------------------------------------------------------- percent encoding
SAFE = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")


def _hex2(e):
    def d(x):
        return V.ChX(z3.If(x < 10, x + 48, x + 55))

    return [37, d(e / 16), d(e % 16)]


def quote(s, safe="/", encoding=None, errors=None):
    if isinstance(s, SymBytes):
        s = s.text
    if not isinstance(s, SymStr):
        return urllib.parse.quote(s, safe, encoding, errors)
    ok = iset.from_iter(SAFE | set(safe.encode("ascii", "ignore") if isinstance(safe, str) else safe))
    br = E.CUR.branch
    out = []
    for c in codes_of(s):
        if type(c) is int:
            out.extend(map(ord, urllib.parse.quote(chr(c), safe)))
        elif type(c) is ChAtom:
            out.append(c)
        elif br(V.ch_in(c, ok)):
            out.append(c)
        elif br(V.ch_in(c, iset.rng(0, 0x7F))):
            out += _hex2(V.ch_expr(c))
        else:
            e = V.ch_expr(c)
            if br(V.ch_in(c, iset.rng(0, 0x7FF))):
                bs = [192 + e / 64, 128 + e % 64]
            elif br(V.ch_in(c, iset.rng(0, 0xFFFF))):
                bs = [224 + e / 4096, 128 + (e / 64) % 64, 128 + e % 64]
            else:
                bs = [240 + e / 262144, 128 + (e / 4096) % 64, 128 + (e / 64) % 64, 128 + e % 64]
            for b in bs:
                out += _hex2(b)
    return mkstr(out)


def quote_plus(s, safe="", encoding=None, errors=None):
    if not isinstance(s, SymStr):
        return urllib.parse.quote_plus(s, safe, encoding, errors)
    return V.s_replace(quote(s, safe + " "), " ", "+")


def urlencode(q, doseq=False, safe="", encoding=None, errors=None, quote_via=None):
    items = list(q.items()) if hasattr(q, "items") else list(q)
    if not any(has_sym(x) for kv in items for x in kv):
        kw = {} if quote_via is None else {"quote_via": quote_via}
        return urllib.parse.urlencode(q, doseq, safe, encoding, errors, **kw)
    if doseq:
        raise Unsupported("urlencode doseq")
    qv = quote_via or quote_plus
    if qv is urllib.parse.quote:
        qv = quote
    elif qv is urllib.parse.quote_plus:
        qv = quote_plus
    return V.s_join("&", [qv(V.sx_str(k), safe) + "=" + qv(V.sx_str(v), safe) for k, v in items])


HEX = iset.chars("0123456789abcdefABCDEF")


def unquote(s, encoding="utf-8", errors="replace"):
    if isinstance(s, SymBytes):
        s = s.text
    if not isinstance(s, SymStr):
        return urllib.parse.unquote(s, encoding, errors)
    cs = codes_of(s)
    br = E.CUR.branch
    out = []
    i = 0
    run = []

    def flush():
        if not run:
            return
        if all(isinstance(b, int) for b in run):
            out.extend(map(ord, bytes(run).decode(encoding, errors)))
        else:
            for b in run:
                if isinstance(b, int):
                    if b >= 128:
                        raise Unsupported("unquote of mixed multi-byte sequences")
                    out.append(b)
                    continue
                if not (b < 128):
                    if len(run) == 1:
                        out.append(0xFFFD)
                        continue
                    raise Unsupported("unquote of symbolic multi-byte sequences")
                out.append(V.ChX(V.intexpr(b)))
        run.clear()

    while i < len(cs):
        if br(V.ch_eq(cs[i], 37)) and i + 2 < len(cs) and br(V.ch_in(cs[i + 1], HEX)) and br(V.ch_in(cs[i + 2], HEX)):
            run.append(rt._int(mkstr(cs[i + 1: i + 3]), 16))
            i += 3
            continue
        flush()
        out.append(cs[i])
        i += 1
    flush()
    return mkstr(out)


class StrIO:
    """io.StringIO for symbolic text."""

    def __init__(self, initial="", newline="\n"):
        self.v = initial or ""
        self.p = 0
        self.closed = False

    def write(self, s):
        if not V.is_str(s):
            raise TypeError("string argument expected")
        self.v = self.v[: self.p] + s + self.v[self.p + len(s):]
        self.p += len(s)
        return len(s)

    def read(self, n=-1):
        r = self.v[self.p:] if n is None or n < 0 else self.v[self.p: self.p + n]
        self.p += len(r)
        return r

    def readline(self):
        i = V.s_find(self.v, "\n", self.p) if isinstance(self.v, SymStr) else self.v.find("\n", self.p)
        j = len(self.v) if i == -1 else i + 1
        r = self.v[self.p: j]
        self.p = j
        return r

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def getvalue(self):
        return self.v

    def seek(self, p, whence=0):
        self.p = len(self.v) if whence == 2 else p
        return self.p

    def tell(self):
        return self.p

    def truncate(self, n=None):
        self.v = self.v[: self.p if n is None else n]

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def readable(self):
        return True

    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install():
    T = rt.REPLACE
    T[json.dumps] = dumps
    T[json.dump] = dump
    T[json.loads] = loads
    T[json.load] = load
    T[urllib.parse.urlencode] = urlencode
    T[urllib.parse.quote] = quote
    T[urllib.parse.quote_plus] = quote_plus
    T[urllib.parse.unquote] = unquote
    T[urllib.parse.unquote_to_bytes] = unquote_to_bytes
    T[base64.b64decode] = b64decode
    T[base64.standard_b64decode] = lambda s: b64decode(s)
    T[binascii.a2b_base64] = a2b_base64
    for alg in ("sha256", "sha1", "md5", "sha512", "sha384", "sha224"):
        T[getattr(hashlib, alg)] = lambda data=b"", alg=alg, **k: FakeHash(alg, data)
    for mod, name in ((base64, "urlsafe_b64encode"), (base64, "b64encode"), (base64, "standard_b64encode")):
        T[getattr(mod, name)] = _b64(name)(getattr(mod, name))
    T[io.StringIO] = StrIO
