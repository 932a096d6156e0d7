"""The constants file has exactly the configured values."""
import os

import vanillaplusjs.build.build_file as build_file
import vanillaplusjs.build.scan_file as scan_file
from vanillaplusjs.build.build_context import load_js_constants
from harness import images, memfs
from symx import iset

BOUNDS = ("up to 3 constants, each shared, for development, for production or absent, in both modes; strings of up to 3 (thorough 4) arbitrary characters, lone "
          "surrogates included, as values, in lists, and as keys and values of objects; all integers with up to 12 digits; nesting up to 2; "
          "values from the environment; leftovers of earlier builds")
OUTSIDE = "names of constants that are no identifiers or are reserved words; numbers with more than 17 digits are samples"
STUBS = ["the disk is an in-memory tree", "the environment is a dictionary"]
REL = "src/public/js/constants.js"
OUT = "out/www/js/constants.js"
ANY = iset.rng(0, 0x10FFFF)
IDC = iset.chars("abzAZ_$")
IDP = iset.chars("abzAZ_$09")
HEX = "0123456789abcdefABCDEF"
WS = " \t\n"
IDENT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"


class Bad(Exception):
    pass


class Parser:
    """An evaluator for modules of constants: https://tc39.es/ecma262/#sec-ecmascript-language-lexical-grammar"""

    def __init__(self, text):
        self.t = text
        self.i = 0

    def peek(self):
        if self.i >= len(self.t):
            return ""
        return self.t[self.i]

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in WS:
            self.i += 1

    def eat(self, w):
        self.ws()
        if self.t[self.i:self.i + len(w)] == w:
            self.i += len(w)
            return True
        return False

    def need(self, w):
        if not self.eat(w):
            raise Bad("missing " + w)

    def hexes(self, n):
        text = self.t[self.i:self.i + n]
        if len(text) != n:
            raise Bad("bad escape")
        for c in text:
            if c not in HEX:
                raise Bad("bad escape")
        self.i += n
        return int(text, 16)

    def string(self):
        q = self.t[self.i]
        self.i += 1
        out = ""
        while True:
            c = self.peek()
            if c == "" or c == "\n" or c == "\r":
                raise Bad("unterminated string")
            self.i += 1
            if c == q:
                return out
            if c != "\\":
                out = out + c
                continue
            c = self.peek()
            if c == "":
                raise Bad("unterminated string")
            self.i += 1
            if c == "u":
                if self.peek() == "{":
                    self.i += 1
                    n = 0
                    while self.i + n < len(self.t) and self.t[self.i + n] in HEX:
                        n += 1
                    if n == 0 or n > 6:
                        raise Bad("bad escape")
                    v = self.hexes(n)
                    if not self.eat("}"):
                        raise Bad("bad escape")
                    out = out + chr(v)
                else:
                    out = out + chr(self.hexes(4))
            elif c == "x":
                out = out + chr(self.hexes(2))
            elif c == "n":
                out = out + "\n"
            elif c == "t":
                out = out + "\t"
            elif c == "r":
                out = out + "\r"
            elif c == "b":
                out = out + "\b"
            elif c == "f":
                out = out + "\f"
            elif c == "v":
                out = out + "\v"
            elif c in "123456789":
                raise Bad("octal escape")
            elif c == "0":
                if self.peek() != "" and self.peek() in "0123456789":
                    raise Bad("octal escape")
                out = out + "\0"
            elif c == "\n" or c == "\r" or c == "\u2028" or c == "\u2029":
                pass
            else:
                out = out + c

    def value(self):
        self.ws()
        c = self.peek()
        if c == '"' or c == "'":
            return ("string", self.string())
        for w in ("true", "false", "null"):
            if self.eat(w):
                return (w, None)
        if self.eat("["):
            items = []
            while not self.eat("]"):
                if items:
                    self.need(",")
                items.append(self.value())
            return ("list", items)
        if self.eat("{"):
            items = []
            while not self.eat("}"):
                if items:
                    self.need(",")
                if self.eat("["):
                    k = self.value()
                    self.need("]")
                    if k[0] != "string":
                        raise Bad("key is no string")
                    k = k[1]
                else:
                    self.ws()
                    if not (self.peek() == '"' or self.peek() == "'"):
                        raise Bad("unexpected key")
                    k = self.string()
                    if k == "__proto__":
                        raise Bad("sets the prototype")
                self.need(":")
                items.append((k, self.value()))
            return ("object", items)
        return ("number", self.number())

    def digits(self):
        n = self.i
        while self.peek() != "" and self.peek() in "0123456789":
            self.i += 1
        if n == self.i:
            raise Bad("missing digits")

    def number(self):
        neg = self.eat("-")
        if self.eat("Infinity"):
            return float("-inf" if neg else "inf")
        if self.eat("NaN"):
            return float("nan")
        start = self.i
        if self.peek() == "0" and self.t[self.i + 1:self.i + 2] != "" and self.t[self.i + 1:self.i + 2] in "0123456789":
            raise Bad("octal number")
        self.digits()
        real = False
        if self.peek() == ".":
            self.i += 1
            self.digits()
            real = True
        if self.peek() == "e" or self.peek() == "E":
            self.i += 1
            if self.peek() == "+" or self.peek() == "-":
                self.i += 1
            self.digits()
            real = True
        text = self.t[start:self.i]
        v = float(text) if real else int(text)
        return -v if neg else v

    def module(self):
        out = []
        self.ws()
        while self.i < len(self.t):
            self.need("export ")
            self.need("const ")
            self.ws()
            n = self.i
            while self.peek() != "" and self.peek() in IDENT:
                self.i += 1
            name = self.t[n:self.i]
            if len(name) == 0:
                raise Bad("constant without a name")
            self.need("=")
            out.append((name, self.value()))
            self.need(";")
            self.ws()
        return out


def matches(s, got, want):
    kind, v = got
    if want is True or want is False or want is None:
        return kind == {True: "true", False: "false", None: "null"}[want]
    if kind == "list":
        return isinstance(want, list) and len(v) == len(want) and all([matches(s, a, b) for a, b in zip(v, want)])
    if kind == "object":
        if not isinstance(want, dict) or len(v) != len(want):
            return False
        for (k, a), b in zip(v, list(want)):
            if not (k == b) or not matches(s, a, want[b]):
                return False
        return True
    if kind == "string":
        return isinstance(want, str) and bool(v == want)
    if kind == "number":
        if isinstance(want, (str, list, dict)):
            return False
        if isinstance(want, float):
            if want != want:
                return v != v
            return float(v) == want and str(float(v)) == str(want)
        return bool(v == want) if abs(want) < 2 ** 53 else v == want or float(v) == float(want)
    return False


def run(s, data, dev, expect, stale=None):
    """Builds the constants file and evaluates it."""
    fs = memfs.FS(s, {REL: "// documented here\n"})
    ctx = images.context()
    ctx.dev = dev
    if stale is not None:
        fs.put(memfs.PROJECT + "/" + OUT, stale)
        fs.put(memfs.PROJECT + "/" + OUT + ".hash", "old")
    ctx.js_constants = load_js_constants(data)
    scan = scan_file.scan_file(ctx, REL)
    res = build_file.build_file(ctx, REL)
    if sorted(scan.produces) != [OUT, OUT + ".hash"] or sorted(list(res.produced) + list(res.reused)) != [OUT, OUT + ".hash"] or scan.dependencies or res.children:
        s.fail("scanning reports %r, building %r" % (scan, res))
    text = fs.text(OUT)
    try:
        got = Parser(text).module()
    except Bad as e:
        s.fail("not a module of constants: " + str(e))
    if len(got) != len(expect):
        s.fail("%d constants instead of %d" % (len(got), len(expect)))
    for name, want in expect:
        found = [v for n, v in got if n == name]
        if len(found) != 1:
            s.fail("a constant is missing, or there twice")
        s.check(matches(s, found[0], want), "a constant has another value")
    s.reach("end")


def data_of(shared, dev, prod):
    return dict(relpath=REL, shared=shared, dev=dev, prod=prod)


def value(sizes, dom=ANY, places=("top", "list", "object", "key", "deep")):
    def fn(s):
        t = s.text("x", s.choice("length", list(sizes)), dom)
        where = s.choice("place", list(places))
        v = {"top": t, "list": [1, t, "b"], "object": {"a": t, "b": 2}, "key": {t: "v"}, "deep": [{"a": [t]}, []]}[where]
        if where == "top":
            s.assume(not t.startswith("env://"))
        run(s, data_of({"V": v, "W": "end"}, {}, {}), s.flag("dev"), [("V", v), ("W", "end")])

    return fn


SPECIAL = ["__proto__", "constructor", "a", "", "0", "1", "</script>", "\u2028", "-->", "${x}", "`", "\\u0041", "\ud800", "\U0001F600", "*/", "a'b\"c"]


def special(s):
    t = s.choice("text", SPECIAL)
    u = s.choice("other", ["a", "\"", "'"])
    v = s.choice("place", [t + u, u + t, [t, u], {t: u}, {u: t, t: 1}, {"x": {t: {u: t}}}])
    run(s, data_of({"V": v}, {}, {}), False, [("V", v)])


def integers(s):
    n = s.int("n", -10 ** 12, 10 ** 12)
    where = s.choice("place", [0, 1, 2])
    v = [n, [n], {"a": n}][where]
    run(s, data_of({}, {"V": v}, {}), True, [("V", v)])


NUMBERS = [0.0, -0.0, 1.5, -2.25, 1e16, 1e22, 1.5e300, 1e-7, 5e-324, 0.1, float("inf"), float("-inf"), float("nan"), 2 ** 53, 2 ** 53 + 1, 10 ** 21, -10 ** 30,
           10 ** 400, 123456789.125]
PLAIN = [True, False, None, [], {}, [[]], [{}], {"a": []}, [None, True, False], {"a": None, "b": False}, {"a": {"b": {"c": None}}}, "", "true", "null", "None", 0, 1, "1"]


def plain(s):
    v = s.choice("value", NUMBERS + PLAIN)
    v = s.choice("place", [0, 1, 2]) and [v] or v
    run(s, data_of({}, {}, {"V": v}), False, [("V", v)])


def tables(s):
    """Which table decides."""
    shared, dev, prod = {}, {}, {}
    mode = s.flag("dev mode")
    want = []
    names = [s.char("name", IDC) + s.text("tail", s.choice("length", [0, 1]), IDP), "BB", "CC"]
    k = 0
    for n in names:
        value = None
        there = False
        for label, table in (("shared", shared), ("dev", dev), ("prod", prod)):
            if s.flag(label + str(k)):
                v = label + s.char(label + "value" + str(k), iset.chars("ab\"'\\\n")) if k == 0 else [label, n]
                table[n] = v
                if label == "shared" or (label == "dev") == mode:
                    value = v
                    there = True
        if there:
            want.append((n, value))
        k += 1
    run(s, data_of(shared, dev, prod), mode, want, s.choice("stale", [None, "export const OLD = 1;\n"]))


def environment(s):
    """Values can be taken from the environment."""
    v = s.text("value", s.choice("length", [0, 1, 2]), ANY - iset.rng(0, 0) - iset.rng(0xD800, 0xDFFF))
    name = s.choice("name", ["A_B", "a", "X/Y", "env://A"])
    old = os.environ
    os.environ = {name: v, "OTHER": "other", "A": "a"}
    def back():
        os.environ = old
    s.cleanup.append(back)
    table = s.choice("table", [0, 1, 2])
    d = [{}, {}, {}]
    d[table] = {"V": "env://" + name, "W": " env://" + name, "Y": ["env://A"], "X": "env:/" + name}
    mode = s.flag("dev mode")
    want = [("V", v), ("W", " env://" + name), ("Y", ["env://A"]), ("X", "env:/" + name)] if table == 0 or (table == 1) == mode else []
    run(s, data_of(*d), mode, want)


def rebuilt(s):
    """Building again, in the other mode or with other values, leaves nothing of the previous build."""
    fs = memfs.FS(s, {REL: "// documented here\n"})
    ctx = images.context()
    n = s.choice("builds", [2, 3])
    for i in range(n):
        ctx.dev = s.flag("dev%d" % i)
        v = s.char("v%d" % i, iset.chars("ab"))
        ctx.js_constants = load_js_constants(data_of({"V": v, "S": i}, {"D": "d" + v}, {"P": "p" + v}))
        build_file.build_file(ctx, REL)
        text = fs.text(OUT)
        try:
            got = Parser(text).module()
        except Bad as e:
            s.fail("not a module of constants: " + str(e))
        want = [("V", v), ("S", i), ("D", "d" + v) if ctx.dev else ("P", "p" + v)]
        if len(got) != 3:
            s.fail("other constants than those of this build")
        for (n1, a), (n2, b) in zip(got, want):
            if n1 != n2:
                s.fail("other constants than those of this build")
            s.check(matches(s, a, b), "a constant of another build")
    s.reach("end")


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="strings", fn=value((0, 1, 2), ANY), reach=["end"]),
        dict(name="longer", fn=value((3,) if q else (3, 4), ANY, ("top",)), reach=["end"]),
        dict(name="special", fn=special, reach=["end"]),
        dict(name="integers", fn=integers, reach=["end"]),
        dict(name="plain", fn=plain, reach=["end"]),
        dict(name="tables", fn=tables, reach=["end"]),
        dict(name="environment", fn=environment, reach=["end"]),
        dict(name="rebuilt", fn=rebuilt, reach=["end"]),
    ]
