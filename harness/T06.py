"""Imports of rules within style sheets."""
import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.scan_file as sf
from harness import cssref, images, memfs
from symx import iset

BOUNDS = ("sheets of up to 4 rules and up to 3 sheets; every rule has up to 2 items out of declarations, nested blocks and imports of any rule of any sheet, before, "
          "after or within of the rule it refers to; statements, media queries, comments and a second rule with the same selector around them; "
          "selectors and values with up to 3 (thorough 4) arbitrary characters; 12 notations of the directive, 8 that are none")
OUTSIDE = ("selectors that the build writes in another notation than the directive (quotes, escapes); several directives in one comment; directives outside of rules; "
           "imports within of nested blocks of a sheet; sheets that import each other; relative urls in imported rules")
STUBS = ["the disk is an in-memory tree"]
MAIN, OTHER, THIRD = "src/public/css/main.css", "src/public/css/b.css", "src/public/c.css"
URL = {MAIN: "/css/main.css", OTHER: "/css/b.css", THIRD: "/c.css"}


class Wrong(Exception):
    pass


class Sheets:
    """What the sheets mean. A sheet is a list of ("rule", selector, items) and ("text", text), an item ("text", text) or ("import", selector, sheet, notation)."""

    def __init__(self, s, sheets):
        self.s, self.sheets = s, sheets

    def render(self, rel, expanded=False):
        out = ""
        for part in self.sheets[rel]:
            if part[0] == "text":
                out = out + part[1]
                continue
            out = out + part[1] + " {\n"
            for item in part[2]:
                if item[0] == "text":
                    out = out + "  " + item[1] + "\n"
                elif expanded:
                    out = out + self.block(item[1], item[2], [])
                else:
                    out = out + "  /*" + item[3] + "*/\n"
            out = out + "}\n"
        return out

    def block(self, selector, rel, seen):
        for sel, r in seen:
            if r == rel and len(sel) == len(selector) and sel == selector:
                raise Wrong("cycle")
        for part in self.sheets[rel]:
            if part[0] == "rule" and len(part[1]) == len(selector) and part[1] == selector:
                out = ""
                for item in part[2]:
                    if item[0] == "text":
                        out = out + item[1] + "\n"
                    else:
                        out = out + self.block(item[1], item[2], seen + [(selector, rel)])
                return out + ";"
        raise Wrong("no such rule")

    def meaning(self, rel):
        for part in self.sheets[rel]:
            if part[0] == "rule":
                for item in part[2]:
                    if item[0] == "import":
                        self.block(item[1], item[2], [])
        return tidy(cssref.tokens(self.render(rel, True)))

    def needs(self, rel):
        out = []
        for part in self.sheets[rel]:
            if part[0] == "rule":
                for item in part[2]:
                    if item[0] == "import" and item[2] != rel and item[2] not in out:
                        out.append(item[2])
        return out


def tidy(tokens):
    """Without white space around other tokens and without superfluous semicolons."""
    toks = []
    for t in tokens:
        if t[0] == "ws" and (not toks or toks[-1] == ("ws",)):
            continue
        toks.append(t)
    out = []
    for i in range(len(toks)):
        t = toks[i]
        if t[0] == "ws":
            around = [toks[i - 1]] + toks[i + 1:i + 2]
            if len(around) < 2 or any(x[0] == "punct" and x[1] in "{};:," for x in around):
                continue
        if t[0] == "punct" and t[1] == "}":
            while out and out[-1][0] == "punct" and out[-1][1] == ";":
                out.pop()
        if t[0] == "punct" and t[1] == ";" and (not out or (out[-1][0] == "punct" and out[-1][1] in "{;}")):
            continue
        out.append(t)
    return out


def directive(selector, rel, here, upper=True):
    t = "! PREPROCESSOR: import " + selector
    if rel != MAIN or here == "always":
        t = t + (" FROM " if upper else " from ") + URL[rel]
    return t


def run(s, sheets, order):
    ctx = images.context()
    ctx.default_css_file = MAIN
    fs = memfs.FS(s)
    sh = Sheets(s, sheets)
    for rel in order:
        fs.put(memfs.PROJECT + "/" + rel, sh.render(rel))
    for rel in order:
        last = rel == order[-1]
        try:
            want = sh.meaning(rel)
        except Wrong as e:
            want = None
        scan = sf.scan_file(ctx, rel)
        if sorted(scan.dependencies) != sorted(sh.needs(rel)):
            s.fail("scanning depends on %r instead of %r" % (sorted(scan.dependencies), sorted(sh.needs(rel))))
        try:
            res = bf.build_file(ctx, rel)
        except ValueError as e:
            if want is not None:
                s.fail("is refused")
            s.reach("refused")
            return
        if want is None:
            s.fail("an import of a missing rule or a cycle was built")
        text = fs.text("out/www/" + rel[len("src/public/"):])
        if last:
            s.observe("out", text)
        got = tidy(cssref.tokens(text))
        s.check(cssref.same(got, want), "the sheet does not have the imported rules")
        if sorted(res.children) != sorted(sh.needs(rel)):
            s.fail("building depends on %r instead of %r" % (sorted(res.children), sorted(sh.needs(rel))))
    s.reach("built")


def body(s, name, options):
    """Items of a rule."""
    out = []
    for k, opts in enumerate(options):
        what = s.choice("%s.%d" % (name, k), opts)
        if what == "decl":
            out.append(("text", "%s%d: 1px;" % (name, k)))
        elif what == "open":
            out.append(("text", "%s%d: 2px" % (name, k)))
        elif what == "nested":
            out.append(("text", "&:hover { %s%d: 3px; }" % (name, k)))
        elif what == "nested import":
            out.append(("text", "&:hover { %s%d: 3px }" % (name, k)))
            out.append(("import", ".b", MAIN, directive(".b", MAIN, None)))
        elif what:
            sel, rel = what
            out.append(("import", sel, rel, directive(sel, rel, None)))
    return out


def local(first, second):
    """Rules of one sheet that import each other in any order."""

    def fn(s):
        parts = []
        for name in ["a", "b", "c"]:
            parts.append(("rule", "." + name, body(s, name, [first, second])))
        run(s, {MAIN: parts}, [MAIN])

    return fn


def across(first, second):
    """A sheet that imports from another one, directly or through its own rules."""

    def fn(s):
        self = s.choice("sheet", [MAIN, OTHER])
        that = OTHER if self == MAIN else MAIN
        ok = lambda opts: [(o[0], self if o[1] == "self" else that) if isinstance(o, tuple) else o for o in opts]
        there = [("rule", ".a", body(s, "x", [["decl", "open", ("." + "b", that)]])), ("rule", ".b", body(s, "y", [["decl", "open", "nested"]]))]
        here = [("rule", "." + n, body(s, n, [ok(first), ok(second)])) for n in "ab"]
        run(s, {self: here, that: there}, [that, self])

    return fn


NOISE = ["", "@import url(x.css);\n", '@charset "utf-8";\n', "@layer a, b;\n", "@media (a) { .a { m: 1px; } .b { m: 2px } }\n", "/* .a { c: 1px } */\n", "<!-- .n { o: 1px } -->\n",
         "@font-face { src: url(//e/x) }\n", "@supports (a: b) { @media c { .a { m: 3px } } }\n", ".a { d: 4px }\n", ".b /* x */ { e: 5px }\n", ".a { /*! PREPROCESSOR: import .z */ }\n", ".n{}\n", "@namespace x;@namespace y;"]


def noise(s):
    """Other things in a sheet change nothing, and only the first rule of a name counts."""
    self = s.choice("sheet", [MAIN, OTHER])
    one = s.choice("before", NOISE)
    two = s.choice("between", NOISE)
    imp = s.choice("import", [".a", ".b"])
    where = s.choice("where", ["first", "last", "both"])
    rules = []
    user = ("rule", ".u", [("text", "u: 0;"), ("import", imp, MAIN, directive(imp, MAIN, None))])
    rest = []

    def add(t):
        if not t:
            return
        if t.startswith(".a { /*!"):
            rest.append(("rule", ".a", [("import", ".z", MAIN, directive(".z", MAIN, None))]))
        elif t.startswith(".b /* x"):
            rest.append(("rule", ".b", [("text", "e: 5px")]))
        elif t.startswith(".a {"):
            rest.append(("rule", ".a", [("text", "d: 4px")]))
        else:
            rest.append(("text", t))

    add(one)
    rest.append(("rule", ".a", [("text", "a: 1px;")]))
    add(two)
    rest.append(("rule", ".b", [("text", "b: 1px")]))
    rest.append(("rule", ".z", [("text", "z: 1px;")]))
    if self == MAIN:
        run(s, {MAIN: ([user] if where != "last" else []) + rest + ([user] if where != "first" else [])}, [MAIN])
    else:
        run(s, {MAIN: rest, OTHER: [user, ("rule", ".a", [("text", "wrong: 1px")])]}, [MAIN, OTHER])


NAME = iset.chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_") | iset.rng(0xA1, 0x2FF)
PART = NAME | iset.chars("0123456789-")
FORMS = [(".", ""), ("a.", ""), ("#", ":hover"), (".from-", ""), (".a from.", ""), ("", " > b")]


def selectors(sizes):
    def fn(s):
        pre, post = s.choice("form", FORMS)
        self = s.choice("sheet", [MAIN, OTHER])
        n, m = s.choice("length", sizes), s.choice("length2", sizes)
        a = pre + s.char("a", NAME) + s.text("aa", n, PART) + post
        b = pre + s.char("b", NAME) + s.text("bb", m, PART) + post
        order = s.flag("before")
        rule = ("rule", a, [("text", "x: 1px;")])
        user = ("rule", "u", [("import", b, self, directive(b, self, "always" if s.flag("from") else None, s.flag("upper")))])
        run(s, {self: [rule, user] if order else [user, rule]}, [self])

    return fn


LITERAL = [".from", ".from-left", ".left-from", "from", ".a from b", "a.FROM.b", ".a, .b", ".a>.b", "*", "::before", ":root", "a[href]", ".a:not(.from)", "h1 + h2", "@x"]


def literal(s):
    sel = s.choice("selector", LITERAL)
    self = s.choice("sheet", [MAIN, OTHER])
    src = s.choice("from", [MAIN, OTHER])
    user = ("rule", ".u", [("import", sel, src, directive(sel, src, "always" if s.flag("explicit") else None, s.flag("upper")))])
    rule = ("rule", sel, [("text", "x: 1px;")])
    if sel == "@x":
        rule = ("text", "@x { x: 1px; }\n")
    if src == self:
        run(s, {self: [user, rule]}, [self])
    else:
        run(s, {src: [rule], self: [user]}, [src, self])


NOTATIONS = ["! PREPROCESSOR: import .a", "!PREPROCESSOR: import .a", " ! PREPROCESSOR : import  .a  ", "!  PREPROCESSOR:\timport\t.a", "! PREPROCESSOR: import .a FROM /css/main.css", "! PREPROCESSOR: import .a from /css/main.css ",
             "! PREPROCESSOR: import .a  From  /css/main.css", "! PREPROCESSOR:  import .a\tFROM\t/css/main.css", "! PREPROCESSOR: import .a FROM /c.css", "! PREPROCESSOR: import .n", "! PREPROCESSOR: import .a FROM /css/main.css x",
             "! PREPROCESSOR: import .a FROM c.css"]
NONE = [" PREPROCESSOR: import .a ", "! PREPROCESSOR import .a", "! PREPROCESSOR: imports .a", "! PREPROCESSOR: import", "! preprocessor: import .a", "! x PREPROCESSOR: import .a", "!! PREPROCESSOR: import .a", "! PREPROCESSOR: import.a"]


def notations(s):
    text = s.choice("notation", NOTATIONS + NONE)
    sheets = {MAIN: [("rule", ".a", [("text", "main: 1px;")])], THIRD: [("rule", ".a", [("text", "third: 1px")])]}
    if text in NONE:
        items = [("text", "/*" + text + "*/")]
    elif "c.css" in text and "FROM /" in text:
        items = [("import", ".a", THIRD, text)]
    elif text.endswith((" x", " c.css")):
        items = [("import", text.partition("import ")[2].strip(), MAIN, text)]
    else:
        items = [("import", ".n" if ".n" in text else ".a", MAIN, text)]
    sheets[OTHER] = [("rule", ".u", [("text", "u: 1px;")] + items + [("text", "v: 1px;")])]
    run(s, sheets, [MAIN, THIRD, OTHER])


VALUES = iset.rng(32, 126) - iset.chars("'\\")


def values(sizes):
    """What is in a value is no syntax."""

    def fn(s):
        n = s.choice("length", sizes)
        pre, post = s.choice("where", [("content: '", "'"), ("background: url('", "')"), ("--x: [ '", "' ]"), ("/* ", "*/")])
        t = s.text("v", n, VALUES)
        if pre == "/* ":
            for i in range(len(t)):
                s.assume(not (t[i:i + 2] == "*/"))
            s.assume(not t.endswith("*") or True)
            t = t + " "
        if "url" in pre:
            for c in t:
                s.assume(not (c == "/"))
            s.assume(not t.startswith("data:"))
        src = s.choice("sheet", [MAIN, OTHER])
        rules = [("rule", ".a", [("text", pre + t + post + s.choice("end", [";", ""]))]), ("rule", ".b", [("text", "y: '}';")])]
        user = ("rule", ".u", [("import", ".a", src, directive(".a", src, None)), ("text", "x: 1px;"), ("import", ".b", src, directive(".b", src, None))])
        if src == MAIN:
            run(s, {MAIN: [user] + rules}, [MAIN])
        else:
            run(s, {OTHER: rules, MAIN: [user]}, [OTHER, MAIN])

    return fn


def chain(s):
    """Three sheets."""
    a = body(s, "a", [["decl", "open", "nested"]])
    b = body(s, "b", [[("." + "a", THIRD), "decl"], [("." + "a", THIRD), "", ("." + "z", OTHER)]])
    z = body(s, "z", [[("." + "a", THIRD), "open"]])
    m = body(s, "m", [[(".b", OTHER), (".n", MAIN), (".a", THIRD)], [(".z", OTHER), (".n", MAIN), ""]])
    n = body(s, "n", [[(".b", OTHER), "decl", (".q", OTHER)]])
    order = s.choice("order", [0, 1])
    other = [("rule", ".b", b), ("rule", ".z", z)]
    main = [("rule", ".m", m), ("rule", ".n", n)]
    if order:
        other.reverse()
        main.reverse()
    run(s, {THIRD: [("rule", ".a", a)], OTHER: other, MAIN: main}, [THIRD, OTHER, MAIN])


def missing(s):
    """A sheet that is not there."""
    fs = memfs.FS(s, {MAIN: ".a {\n /*! PREPROCESSOR: import .x FROM " + s.choice("url", ["/n.css", "/css/n.css", "/css/b", "/css/B.css"]) + " */ }", OTHER: ".x { y: z }", "out/www/css/b.css": ".x { y: z }"})
    ctx = images.context()
    sf.scan_file(ctx, MAIN)
    try:
        bf.build_file(ctx, MAIN)
    except (OSError, ValueError):
        s.reach("refused")
        return
    s.fail("an import from a missing sheet was built")


def scenarios(tier):
    q = tier == "quick"
    A = [(".a", MAIN), (".b", MAIN), (".c", MAIN)]
    return [
        dict(name="local", fn=local(["open"] + A[1:], ["", "nested"] + A[1:]) if q else local(["", "decl", "nested import"] + A, ["", "open", "nested"] + A), reach=["built", "refused"]),
        dict(name="across", fn=across(["decl", (".a", "self"), (".b", "self"), (".a", "that")], ["", "open", (".b", "self"), (".b", "that")]) if q else across(["decl", (".a", "self"), (".b", "self"), (".a", "that"), (".b", "that")], ["", "open", (".b", "self"), (".a", "that"), (".c", "that")]), reach=["built", "refused"]),
        dict(name="noise", fn=noise, reach=["built"]),
        dict(name="selectors", fn=selectors((0, 1) if q else (0, 1, 2)), reach=["built", "refused"]),
        dict(name="literal", fn=literal, reach=["built"]),
        dict(name="notations", fn=notations, reach=["built", "refused"]),
        dict(name="values", fn=values((1, 2, 3) if q else (1, 2, 3, 4)), reach=["built"]),
        dict(name="chain", fn=chain, reach=["built", "refused"]),
        dict(name="missing", fn=missing, reach=["refused"]),
    ]
