"""The token builders against the documented walking rules."""
import vanillaplusjs.build.css.builder as cssb
import vanillaplusjs.build.css.manipulate_and_serialize as cssm
import vanillaplusjs.build.html.builder as htmlb
import vanillaplusjs.build.html.manipulate_and_serialize as htmlm
import vanillaplusjs.build.js.builder as jsb
import vanillaplusjs.build.js.manipulate_and_serialize as jsm
import vanillaplusjs.build.js.yield_manipulator as jsy
from vanillaplusjs.build.js.token import JSTokenType
from harness import memfs

BOUNDS = ("streams of up to 3 tokens (thorough 4), up to 2 manipulators with up to 2 (thorough 3) marks each; every decision to mark, to go on, and to give "
          "back nothing, the marked tokens, new tokens or a mixture; output collected after any subset of the tokens; generator "
          "manipulators that take up to 2 further tokens; writing the result to a file, and scanning without a file")
OUTSIDE = "longer streams; manipulators that raise"
STUBS = ["tokens are opaque", "tokenizing and serializing are stand-ins in the file scenarios", "the disk is an in-memory tree"]

KINDS = {"html": (htmlb.HTMLBuilder, htmlm), "css": (cssb.CSSBuilder, cssm), "js": (jsb.JSBuilder, jsm)}


def tok(name):
    return {"type": "Characters", "data": name, "value": name}


def name(t):
    return t["data"]


class Log:
    """Decisions shared by the manipulators of one run."""

    def __init__(self, s):
        self.s = s
        self.calls = []
        self.fresh = 0

    def new(self):
        self.fresh += 1
        return tok("n%d" % self.fresh)


class Scripted:
    """A manipulator whose decisions are inputs."""

    def __init__(self, log, tag, marks, length):
        self.log, self.tag, self.marks, self.length = log, tag, marks, length
        self.stack = []
        self.n = 0

    def start_mark(self, node):
        s = self.log.s
        yes = False
        if self.marks:
            self.n += 1
            yes = s.flag("%s.mark%d" % (self.tag, self.n))
            if yes:
                self.marks -= 1
                self.stack = []
        self.log.calls.append(("start", self.tag, name(node), yes))
        return yes

    def continue_mark(self, node):
        s = self.log.s
        self.stack.append(node)
        self.n += 1
        what = s.choice("%s.then%d" % (self.tag, self.n), ["on", "none", "same", "new", "new+last", "first+new"][0 if len(self.stack) < self.length else 1:])
        res = None
        if what == "none":
            res = []
        elif what == "same":
            res = list(self.stack)
        elif what == "new":
            res = [self.log.new()]
        elif what == "new+last":
            res = [self.log.new(), node]
        elif what == "first+new":
            res = [self.stack[0], self.log.new()]
        self.log.calls.append(("go", self.tag, name(node), None if res is None else [name(x) for x in res]))
        return res


def reference(s, tokens, tags, calls):
    """Walk the stream by the rules, taking the decisions from the log; the
    calls must be exactly the ones the rules make."""
    rest = list(tokens)
    out = []
    calls = list(calls)
    active = None

    def step(kind, tag, t):
        if not calls:
            s.fail("a manipulator was not asked about a token")
        c = calls.pop(0)
        if c[:3] != (kind, tag, t):
            s.fail("asked %r instead of %r" % (c[:3], (kind, tag, t)))
        return c[3]

    while rest:
        t = rest.pop(0)
        if active is None:
            for tag in tags:
                if step("start", tag, t):
                    active = tag
                    break
            else:
                out.append(t)
                continue
        res = step("go", active, t)
        if res is not None:
            rest = list(res) + rest
            active = None
    if calls:
        s.fail("a manipulator was asked about a token too often: %r" % (calls[0],))
    return out, active


def builder(kind, lengths, manips, marks, span):
    def fn(s):
        log = Log(s)
        n = s.choice("tokens", lengths)
        ms = [Scripted(log, "ab"[i], marks, span) for i in range(manips)]
        b = KINDS[kind][0](ms)
        got = []
        toks = [tok("t%d" % i) for i in range(n)]
        for i in range(n):
            b.handle_token(toks[i])
            if s.flag("collect%d" % i):
                got.extend(name(x) for x in b.consume_tokens())
        got.extend(name(x) for x in b.consume_tokens())
        if b.consume_tokens():
            s.fail("tokens are given out twice")
        out, active = reference(s, [name(x) for x in toks], "ab"[:manips], log.calls)
        if out != got:
            s.fail("the result is %r instead of %r after %r" % (got, out, log.calls))
        s.reach("open mark" if active else "done")

    return fn


class Yielding(jsy.JSYieldManipulator):
    def __init__(self, log, handles):
        super().__init__()
        self.log = log
        self.left = handles
        self.n = 0

    def handle(self, token):
        s = self.log.s
        if not self.left:
            self.log.calls.append(("handle", name(token)))
            self.log.calls.append(("end", False, [name(token)], False))
            return False
        self.n += 1
        i = self.n
        self.log.calls.append(("handle", name(token)))
        taken = [token]
        for _ in range(s.choice("take%d" % i, [0, 1, 2])):
            token = yield
            self.log.calls.append(("more", name(token)))
            taken.append(token)
        what = s.choice("then%d" % i, ["keep", "none", "new", "new+last", "same"])
        if what != "keep" or len(taken) > 1:
            self.left -= 1
        if what == "keep":
            res = False
        elif what == "none":
            res = []
        elif what == "new":
            res = [self.log.new()]
        elif what == "same":
            res = list(taken)
        else:
            res = [self.log.new(), token]
        self.log.calls.append(("end", len(taken) > 1, [name(x) for x in taken], res if res is False else [name(x) for x in res]))
        return res


def yielding(lengths, handles):
    def fn(s):
        log = Log(s)
        n = s.choice("tokens", lengths)
        m = Yielding(log, handles)
        b = jsb.JSBuilder([m])
        toks = [tok("t%d" % i) for i in range(n)]
        for t in toks:
            b.handle_token(t)
        got = [name(x) for x in b.consume_tokens()]
        rest = [name(t) for t in toks]
        calls = list(log.calls)
        out = []
        active = False
        while rest:
            t = rest.pop(0)
            kind = "more" if active else "handle"
            if not calls or calls[0] != (kind, t):
                s.fail("the generator got %r instead of %r" % (calls[:1], (kind, t)))
            calls.pop(0)
            if calls and calls[0][0] == "end":
                end = calls.pop(0)
                active = False
                if end[3] is False and not end[1]:
                    out.append(t)
                else:
                    rest = (end[2] if end[3] is False else end[3]) + rest
            else:
                active = True
        if calls:
            s.fail("the generator got a token too often")
        if out != got:
            s.fail("the result is %r instead of %r after %r" % (got, out, log.calls))
        s.reach("open" if active else "done")

    return fn


def yields_eof(s):
    """Asking for more after the end is refused, as are results of another type."""
    what = s.choice("what", ["yield at eof", "yield past eof", "bad now", "bad later", "none now", "none later"])

    class M(jsy.JSYieldManipulator):
        def handle(self, token):
            if what == "yield at eof" and token["type"] == JSTokenType.eof:
                yield
            if what == "yield past eof":
                yield
                yield
            if what.startswith("bad") or what.startswith("none"):
                if what.endswith("later"):
                    yield
                return "x" if what.startswith("bad") else None
            return False

    b = jsb.JSBuilder([M()])
    try:
        b.handle_token({"type": JSTokenType.identifier, "value": "a"})
        b.handle_token({"type": JSTokenType.eof})
    except RuntimeError:
        if not what.startswith("yield"):
            s.fail("unexpected error")
        s.reach("eof")
        return
    except TypeError:
        if what.startswith("yield"):
            s.fail("unexpected error")
        s.reach("type")
        return
    s.fail("accepted: " + what)


def files(kind):
    def fn(s):
        mod = KINDS[kind][1]
        n = s.choice("tokens", [0, 1, 2, 3])
        scan = s.flag("scan")
        fs = memfs.FS(s, {"src/a": "source"})
        opened = []
        log = Log(s)
        m = Scripted(log, "a", 1, 2)
        toks = [tok("t%d" % i) for i in range(n)]

        def tokenize(f, *a, **k):
            opened.append(f.read())
            return iter(toks)

        def serialize(t):
            return "<%s>" % name(t)

        s.intercept(mod.tokenize, tokenize)
        if kind == "html":
            class Ser:
                def __init__(self, *a, **k):
                    pass        # what the options do to a page is decided by T09

                def serialize(self, tokens, encoding=None):
                    for t in tokens:
                        yield serialize(t).encode(encoding)

            s.intercept(mod.html5lib.serializer.HTMLSerializer, Ser)
        else:
            s.intercept(mod.serialize, serialize)
        mod.manipulate_and_serialize(memfs.PROJECT + "/src/a", None if scan else memfs.PROJECT + "/out/b/c", [m])
        out, active = reference(s, [name(x) for x in toks], "a", log.calls)
        if opened != ["source"]:
            s.fail("the source was not read once")
        if scan:
            if fs.writes:
                s.fail("scanning writes")
            s.reach("scan")
            return
        want = "".join("<%s>" % x for x in out)
        if kind == "html":
            want = want + "\n"
        got = fs.text("out/b/c")
        if got != want:
            s.fail("wrote %r instead of %r" % (got, want))
        if list(fs.tree("out")) != ["out/b/c"]:
            s.fail("other files were written")
        s.reach("build")

    return fn


def scenarios(tier):
    q = tier == "quick"
    out = []
    for k in KINDS:
        ls = [1, 2, 3] if q else [1, 2, 3, 4]
        out.append(dict(name=k + "1", fn=builder(k, ls, 1, 2 if q else 3, 3), reach=["done", "open mark"]))
        out.append(dict(name=k + "2", fn=builder(k, [2] if q else [2, 3], 2, 1 if q else 2, 2), reach=["done"]))
        out.append(dict(name=k + "file", fn=files(k), reach=["scan", "build"]))
    out.append(dict(name="yielding", fn=yielding([1, 2, 3] if q else [1, 2, 3, 4], 2 if q else 3), reach=["done", "open"]))
    out.append(dict(name="yields eof", fn=yields_eof, reach=["eof", "type"]))
    return out
