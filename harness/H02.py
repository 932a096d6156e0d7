"""Template directives expand to the partial with its variables."""
import vanillaplusjs.build.handlers.html as html
from harness import images, memfs, page
from symx import iset

BOUNDS = ("pages and partials in several folders that include up to 3 levels of partials, each with up to 3 directives in between of tags and texts; variable names "
          "and values of up to 2 (thorough 3) arbitrary characters, in their JSON escaped and raw forms, integers of up to 6 digits; values passed on by "
          "reference; all forms of paths; white space in and around directives")
OUTSIDE = ("stack pushes and pops that are written by hand; directives with a known keyword but other arguments; values that are neither text nor integers; how "
           "html5lib splits a page or a fragment into tags; characters that HTML parsing itself replaces (NUL, CR, surrogates)")
STUBS = ["the disk is an in-memory tree", "html5lib is a stand-in while exploring; replays use the real one"]
PAGE = "src/public/index.html"
TEXT = page.TEXT


def quote(t, escape=False):
    """JSON string."""
    out = '"'
    for c in t:
        if c == '"' or c == "\\":
            out = out + "\\" + c
        elif c in "\t\n\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f" or escape and c <= "\uffff":
            out = out + "\\u" + hex(ord(c))[2:].zfill(4)
        else:
            out = out + c
    return out + '"'


def json(v, escape=False):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return quote(v, escape)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Ref):
        return '{"type": "variable", "name": %s}' % quote(v.name)
    raise ValueError(v)


class Ref:
    def __init__(self, name):
        self.name = name


class Retrieve:
    def __init__(self, name, escape=False):
        self.name, self.escape = name, escape

    def text(self):
        return '[STACK: ["retrieve", ' + quote(self.name, self.escape) + "]]"


class Define:
    def __init__(self, name, value, escape=False):
        self.name, self.value, self.escape = name, value, escape

    def text(self):
        return '[STACK: ["define", ' + quote(self.name, self.escape) + ", " + json(self.value, self.escape) + "]]"


class Include:
    """Includes rel, written as path, with a list of (name, value)."""

    def __init__(self, path, rel, variables=None, escape=False):
        self.path, self.rel, self.variables, self.escape = path, rel, variables, escape

    def text(self):
        out = '[TEMPLATE: [' + quote(self.path, self.escape)
        if self.variables is not None:
            vs = ""
            for n, v in self.variables:
                vs = vs + (", " if vs != "" else "") + quote(n, self.escape) + ": " + json(v, self.escape)
            out = out + ", {" + vs + "}"
        return out + "]]"


class Failure(Exception):
    pass


def lookup(env, name):
    for n, v in reversed(env):
        if n == name:
            return v
    return None


def expand(files, rel, env, used, active):
    """What the directives mean."""
    if rel not in files:
        raise Failure(rel)
    if rel in active:
        raise Failure("endless")
    out = []
    for it in files[rel]:
        if isinstance(it, Retrieve):
            v = lookup(env, it.name)
            if v is None:
                raise Failure("no variable")
            out.append(("text", v if isinstance(v, str) else str(v)))
        elif isinstance(it, Define):
            env = env + [(it.name, it.value)]
        elif isinstance(it, Include):
            inner = []
            for n, v in it.variables or []:
                if isinstance(v, Ref):
                    v = lookup(env, v.name)
                    if v is None:
                        continue
                inner.append((n, v))
            used.append(it.rel)
            out += expand(files, it.rel, inner, used, active + [rel])
        else:
            out.append(it)
    return out


def joined(items):
    out = []
    for t in items:
        if t[0] == "text" and len(t[1]) == 0:
            continue
        if t[0] == "text" and out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + t[1])
        else:
            out.append(t)
    return out


def same(s, got, want):
    if len(got) != len(want):
        return False
    for a, b in zip(got, want):
        if a[0] != b[0]:
            return False
        if a[0] == "tag":
            if a[1] != b[1] or sorted(a[2].items()) != sorted(b[2].items()):
                return False
        elif not (a[1] == b[1]):
            return False
    return True


def run(s, files, rel=PAGE, around=("", "")):
    """Builds the page and compares it with what its directives mean."""
    fs = memfs.FS(s, {})
    pages = page.Pages(s, fs)
    for f, items in files.items():
        toks = [page.comment(around[0] + it.text() + around[1]) if isinstance(it, (Retrieve, Define, Include)) else it for it in items]
        if f == rel:
            pages.page(f, body=[page.tag("p")] + toks + [page.end("p")])
        else:
            pages.partial(f, toks)
    ctx = images.context()
    used = []
    try:
        want = expand(files, rel, [], used, [])
    except Failure:
        want = None
    out = "out/www/" + rel[len("src/public/"):]
    errors = 0
    try:
        scan = html.scan_file(ctx, rel)
    except (ValueError, AssertionError, KeyError, OSError):
        errors += 1
    try:
        res = html.build_file(ctx, rel)
    except (ValueError, AssertionError, KeyError, OSError):
        errors += 1
    if want is None:
        s.check(errors == 2, "what cannot be expanded is not an error")
        if fs.get(out) is not None:
            s.fail("a page was written although it cannot be expanded")
        s.reach("error")
        return
    if errors:
        s.fail("a page that can be expanded is an error")
    got = pages.result(out)
    a = [i for i, t in enumerate(got) if t[0] == "tag" and t[1] == "p"][0]
    b = [i for i, t in enumerate(got) if t[0] == "end" and t[1] == "p"][-1]
    s.check(same(s, joined(got[a + 1:b]), joined(want)), "the page has other contents than its directives mean")
    deps = []
    for u in used:
        if u not in deps:
            deps.append(u)
    for ds in (scan.dependencies, res.children):
        s.check(sorted(ds) == sorted(deps), "the page depends on other partials than it includes")
    s.reach("end")


B, EB = page.tag("b", class_="x"), page.end("b")
HEAD = "src/partials/head.html"


def values(sizes, dom, names, ndom, kinds=("template", "define")):
    """Any name and value."""
    def fn(s):
        name = s.text("name", s.choice("name length", names), ndom)
        v = s.text("value", s.choice("length", sizes), dom)
        e = s.flag("escaped")
        for t in (name, v):
            if not e and len(t) > 2:
                s.assume(t[:3] != "-->")
        kind = s.choice("kind", kinds)
        body = [B, Retrieve(name, e), EB, page.text(", "), Retrieve(name, e)]
        if kind == "template":
            run(s, {PAGE: [page.text("A"), Include("/head.html", HEAD, [(name, v)], e), page.text("Z")], HEAD: body})
        else:
            run(s, {PAGE: [Define(name, v, e)] + body})

    return fn


def numbers(s):
    n = s.int("n", -999999, 999999)
    if s.flag("define"):
        run(s, {PAGE: [Define("n", n), Retrieve("n"), B, Retrieve("n"), EB]})
    else:
        run(s, {PAGE: [Include("/head.html", HEAD, [("n", n)])], HEAD: [Retrieve("n")]})


def several(s):
    """Two variables, equal or not, given in any way."""
    dom = iset.chars("ab\"")
    n1, n2, n3 = s.char("n1", dom), s.char("n2", dom), s.char("n3", dom)
    v = [(n1, "1")]
    k = s.choice("kind", [0, 1, 2, 3])
    if k == 0:
        files = {PAGE: [Include("/head.html", HEAD, [(n1, "1"), (n2, "2")])], HEAD: [Retrieve(n3)]}
    elif k == 1:
        files = {PAGE: [Define(n1, "1"), Define(n2, "2"), Retrieve(n3)]}
    elif k == 2:
        files = {PAGE: [Define(n1, "1"), Include("/head.html", HEAD, [(n2, Ref(n3))])], HEAD: [Retrieve(n1)]}
    else:
        files = {PAGE: [Define(n1, "1"), Include("/head.html", HEAD, [(n1, "2")]), Retrieve(n3)], HEAD: [Retrieve(n1), Define(n2, "3"), Retrieve(n3)]}
    run(s, files)


def program(s, names, n, m, k, ws=False):
    """Directives in any order."""
    def op(label, others):
        kind = s.choice(label, ["text", "define", "retrieve"] + (["include"] if others else []))
        if kind == "text":
            return page.text(label)
        if kind == "define":
            return Define(s.choice(label + "name", names), label)
        if kind == "retrieve":
            return Retrieve(s.choice(label + "name", names))
        r = s.choice(label + "partial", others)
        v = s.choice(label + "variables", [None, "literal", "ref", "both"])
        vs = {None: None, "literal": [("v", label)], "ref": [("v", Ref(names[-1]))], "both": [("v", Ref("v")), ("w", "given" + label)]}[v]
        return Include("/" + r[len("src/partials/"):], r, vs)

    p, q = "src/partials/p.html", "src/partials/d/q.html"
    files = {PAGE: [op("a%d" % i, [p, q] if k else [p]) for i in range(n)], p: [op("b%d" % i, [q] if k else []) for i in range(m)], q: [op("c%d" % i, []) for i in range(k)]}
    run(s, files)


PATHS = [
    ("/head.html", "src/partials/head.html"), ("/a/head.html", "src/partials/a/head.html"), ("/a/../head.html", "src/partials/head.html"),
    ("/./head.html", "src/partials/head.html"), ("//head.html", "src/partials/head.html"), ("/a//head.html", "src/partials/a/head.html"),
]
DIRS = ["src/partials/", "src/partials/a/", "src/public/", "src/public/a/", "src/", "src/partials/a/b/"]


def paths(s):
    """Paths are relative to the partials or to the file they are in."""
    rel = s.choice("page", ["src/public/index.html", "src/public/a/index.html"])
    where = s.choice("partial", [None, "src/partials/p.html", "src/partials/a/p.html", "src/partials/a/b/p.html"])
    path = s.choice("path", ["/head.html", "/a/head.html", "/a/../head.html", "/./head.html", "//head.html", "/a//head.html", "head.html", "./head.html", "a/head.html",
                             "../head.html", "../partials/head.html", "a/../head.html", "../a/head.html", "../../partials/a/head.html"])
    base = "src/partials" if path.startswith("/") else (where or rel).rsplit("/", 1)[0]
    segs = base.split("/")
    for x in path.split("/"):
        if x == "..":
            segs.pop()
        elif not (x == "." or x == ""):
            segs.append(x)
    target = "/".join(segs)
    files = {}
    for d in DIRS:
        files[d + "head.html"] = [page.text("head of " + d)]
    if s.flag("missing"):
        files = {"src/partials/other.html": [page.text("other")]}
    inc = Include(path, target)
    if where is None:
        files[rel] = [inc]
    else:
        files[where] = [page.text("("), inc, page.text(")")]
        files[rel] = [Include(where[len("src/partials"):], where), page.text("|"), Include(where[len("src/partials"):], where)]
    run(s, files, rel)


def endless(s):
    """Including itself is an error; including the same partial repeatedly is not."""
    p, q, r = "src/partials/p.html", "src/partials/q.html", "src/partials/r.html"
    ps = [p, q, r]
    def inc(label, n):
        k = s.choice(label, ps + [None, PAGE])
        if k is None:
            return page.text(label)
        return Include("/" + k[len("src/partials/"):] if k != PAGE else "/../public/index.html", k)
    run(s, {PAGE: [inc("a", 0), inc("b", 0)], p: [inc("c", 1)], q: [inc("d", 1)], r: [page.text("end")]})


def spaces(s):
    """White space in and around directives."""
    a = s.choice("before", ["", " ", "\n  ", "\t"])
    b = s.choice("after", ["", " ", "\n"])
    body = s.choice("directive", [
        ('[TEMPLATE: ["/head.html", {"v": "x"}]]', "(x)"), ('[ TEMPLATE :  [ "/head.html" , { "v" : "x" } ] ]', "(x)"), ('[TEMPLATE:\n["/head.html",\n{"v":\n"x"}\n]\n]', "(x)"),
        ('[TEMPLATE: ["/head.html",{"v":"]]"}]]', "(]])"), ('[TEMPLATE: ["/head.html",{"v":"]\\n]"}]]', "(]\n])"), ('[TEMPLATE: ["/head.html", {"v": 5}]]', "(5)"),
        ('[STACK: ["define", "v", "x"]]', ""), ('[ STACK :\t[ "define" , "v" , "x" ] ]', ""),
        ('[STACK: ["retrieve", "w"]]', "W"), ('[ STACK :\n[ "retrieve" , "w" ] ]', "W")])
    fs = memfs.FS(s, {})
    pages = page.Pages(s, fs)
    pages.page(PAGE, body=[page.tag("p"), page.comment('[STACK: ["define", "w", "W"]]'), page.comment(a + body[0] + b), page.end("p")])
    pages.partial(HEAD, [page.text("("), page.comment('[STACK: ["retrieve", "v"]]'), page.text(")")])
    ctx = images.context()
    html.build_file(ctx, PAGE)
    got = pages.result("out/www/index.html")
    i = [i for i, t in enumerate(got) if t[0] == "tag" and t[1] == "p"][0]
    want = ([("text", body[1])] if body[1] else []) + [("end", "p")]
    if not same(s, got[i + 1:i + 1 + len(want)], want):
        s.fail("%r became %r instead of %r" % (body[0], got[i + 1:], want))
    s.reach("end")


ODD = ["TEMPLATE", "[TEMPLATE: ]", "[TEMPLATE]", "[TEMPLATE: {}]", "[TEMPLATE: []]", "[TEMPLATE: [1]]", '[TEMPLATE: ["/head.html"]', 'x[TEMPLATE: ["/head.html"]]',
       '[TEMPLATE: ["/head.html"]]x', '[TEMPLATES: ["/head.html"]]', '[template: ["/head.html"]]', '[TEMPLATE ["/head.html"]]', "[TEMPLATE: ['/head.html']]", '["/head.html"]',
       '[STACK: "retrieve"]', "[STACK: null]", '[STACK: [["retrieve", "v"]]]', '[STACK: ["retrieve", "v"]', "[STACKS: [\"retrieve\", \"v\"]]"]


def other(s):
    """Other comments and texts stay as they are."""
    if s.flag("odd"):
        t = s.choice("comment", ODD)
    else:
        t = s.choice("before", ["", "[", "[TEMPLATE: ", "[TEMPLATE: [", "[STACK: "]) + s.text("x", s.choice("length", [0, 1, 2]), iset.rng(32, 0xD7FF) - iset.chars("-<>!\"")) + s.choice("after", ["", "]", "]]"])
    run(s, {PAGE: [page.text("A"), page.comment(t), page.text('[STACK: ["retrieve", "v"]]'), B, EB], HEAD: [page.text("H")]})


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="values", fn=values((0, 1, 2) if q else (0, 1, 2, 3), TEXT, (0, 1), iset.chars("a\"")), reach=["end"]),
        dict(name="names", fn=values((1,), iset.chars("v<"), (1, 2) if q else (1, 2, 3), TEXT), reach=["end"]),
        dict(name="numbers", fn=numbers, reach=["end"]),
        dict(name="several", fn=several, reach=["end", "error"]),
        dict(name="program", fn=lambda s: program(s, ["v", "w"], 2, 1, 1) if q else program(s, ["v", "w"], 2, 2, 1), reach=["end", "error"]),
        dict(name="page", fn=lambda s: program(s, ["v", "w"], 3, 1, 0), reach=["end", "error"]),
        dict(name="paths", fn=paths, reach=["end", "error"]),
        dict(name="endless", fn=endless, reach=["end", "error"]),
        dict(name="spaces", fn=spaces, reach=["end"]),
        dict(name="other", fn=other, reach=["end"]),
    ]
