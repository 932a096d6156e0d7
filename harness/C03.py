"""Cache busting of url() in style sheets."""
from urllib.parse import parse_qs, unquote

import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.handlers.css as css
from vanillaplusjs.constants import PROCESSOR_VERSION
from harness import cssref, images, memfs
from harness.C01 import has_dots
from harness.H01 import resolve
from harness.T04 import normalised
from symx import iset

BOUNDS = ("quoted and unquoted urls made of one of 17 kinds of prefix, up to 2 (thorough 3) arbitrary characters and one of 5 endings, percent-encoded "
          "bytes; urls within other constructs; up to 3 urls in a file; style sheets up to two folders deep")
OUTSIDE = ("urls relative to the style sheet, and anything else but absolute paths (left as they are); NUL and CR characters, lone surrogates; white space "
           "around or tabs and line breaks inside of a url; encoded separators and dots; a sheet that refers to itself")
STUBS = ["the disk is an in-memory tree"]
ANY = iset.rng(1, 8) | iset.rng(11, 11) | iset.rng(14, 0xD7FF) | iset.rng(0xE000, 0x10FFFF)
HASH = "HASH/+="


def quote(u):
    """The url as an author would write it."""
    out = ""
    for c in u:
        o = ord(c)
        if c == "\\" or c == '"' or c == "'" or c == "(" or c == ")" or c == " ":
            out = out + "\\" + c
        elif o < 32 or o == 127:
            out = out + "\\" + hex(o)[2:] + " "
        else:
            out = out + c
    return out


FORMS = [('url("', '")'), ("url('", "')"), ("url(", ")"), ("URL( ", " )"), ('uRl( "', '" )')]


def source(u, form):
    return form[0] + quote(u) + form[1]


def path_of(u):
    """The path below the served folder of the file meant, or None."""
    i = u.find("#")
    p = u[:i] if i >= 0 else u
    if not p.startswith("/") or p.startswith("//") or "?" in p:
        return None
    last = p.split("/")[-1]
    if last == "" or last == "." or last == "..":
        return None
    return resolve("/", p)[0][1:]


def urls(tokens):
    """(kind, value) of the url arguments."""
    out = []
    for i in range(len(tokens)):
        t = tokens[i]
        if t[0] == "url":
            out.append(t[1])
        elif t[0] == "string" and i and tokens[i - 1][0] == "function":
            out.append(t[1])
        elif t[0] == "string" and i > 1 and tokens[i - 1][0] == "ws" and tokens[i - 2][0] == "function":
            out.append(t[1])
    return out


def run(s, rel, u, form):
    ctx = images.context()
    fs = memfs.FS(s)
    src = "a { b: c " + source(u, form) + " d, e }"
    fs.put(memfs.PROJECT + "/" + rel, src)
    path = path_of(u)
    if path is not None:
        path = unquote(path)
        s.assume(not has_dots(path))
        own = rel[len("src/public/"):]
        s.assume(not (path + "/").startswith(own + "/"))
        s.assume(not (own + "/").startswith(path + "/"))
        s.assume(not path.endswith(".hash"))
        fs.put(memfs.PROJECT + "/out/www/" + path + ".hash", HASH)
        fs.put(memfs.PROJECT + "/out/www/" + path, "contents")
    scan = css.scan_file(ctx, rel)
    res = css.build_file(ctx, rel)
    out = "out/www/" + rel[len("src/public/"):]
    text = fs.text(out)
    s.observe("out", text)
    a, b = cssref.tokens(src), cssref.tokens(text)
    s.check(len(a) == len(b), "the style sheet has other tokens")
    ua, ub = urls(a), urls(b)
    if len(ua) != 1:
        return
    if path is None:
        s.check(not scan.dependencies and not res.children, "the style sheet depends on something it does not refer to")
        s.check(cssref.same(a, b), "a url that has to be left alone was changed")
        s.reach("kept")
        return
    want = "out/www/" + path + ".hash"
    s.check(len(scan.dependencies) == 1 and scan.dependencies[0] == want, "scanning does not declare the file as a dependency")
    s.check(len(res.children) == 1 and res.children[0] == want, "building does not declare the file as a dependency")
    got = ub[0]
    i = u.find("#")
    p, frag = (u[:i], u[i:]) if i >= 0 else (u, "")
    s.check(got.startswith(p + "?"), "the url leads somewhere else")
    s.check(got.endswith(frag), "the fragment of the url is gone")
    q = got[len(p) + 1: len(got) - len(frag)]
    s.check(parse_qs(s.conc(q), strict_parsing=True) == {"v": [HASH], "pv": [PROCESSOR_VERSION]}, "the url has another version")
    # everything else as it was
    for i in range(len(a)):
        if a[i][0] != "url" and a[i][0] != "string":
            s.check(cssref.same([a[i]], [b[i]]), "another token was changed")
    s.reach("versioned")


def one(prefixes, sizes, ends, forms):
    def fn(s):
        rel = s.choice("file", ["src/public/p.css", "src/public/d/e/p.css"])
        form = s.choice("form", forms)
        n = s.choice("length", sizes)
        u = s.choice("prefix", prefixes) + s.text("u", n, ANY - iset.chars("%")) + s.choice("end", ends)
        run(s, rel, u, form)

    return fn


def encoded(s):
    form = s.choice("form", FORMS)
    s1 = s.char("hi", "234567")
    s2 = s.char("lo", "0123456789abcdefABCDEF")
    s.assume(not (s1 == "2" and (s2 == "e" or s2 == "E" or s2 == "f" or s2 == "F")))
    u = s.choice("prefix", ["/", "/e/", "//"]) + "a%" + s1 + s2 + s.choice("end", [".png", ".%C3%A9", "%20b#x"])
    run(s, s.choice("file", ["src/public/p.css", "src/public/d/p.css"]), u, form)


PLACES = [("@import url(", ");", True), ("@font-face{src:url(", ") format(\"x\")}", True), ("a{b:image-set(url(", ") 1x)}", True), ("a{b:x(", ")}", False),
          ("a{b:", "}", False), ("@import ", ";", False), ("/* url(", ") */", False), ("a{b:'url(", ")'}", False), ("a{b:url-prefix(", ")}", False)]


def places(s):
    """Only urls in url() get a version, wherever they stand."""
    pre, post, isurl = s.choice("place", PLACES)
    quoted = s.flag("quoted")
    if quoted and ("'" in pre) is False:
        pre, post = pre + '"', '"' + post
    elif not isurl and not pre.startswith("/*") and "'" not in pre:
        pre, post = pre + '"', '"' + post
    u = "/d/x.png"
    fs = memfs.FS(s, {"src/public/p.css": pre + u + post, "out/www/d/x.png": "x", "out/www/d/x.png.hash": "h"})
    ctx = images.context()
    scan = css.scan_file(ctx, "src/public/p.css")
    res = css.build_file(ctx, "src/public/p.css")
    want = pre + u + ("?v=h&pv=" + PROCESSOR_VERSION if isurl else "") + post
    got = fs.text("out/www/p.css")
    if got != want and not cssref.same(cssref.tokens(got), cssref.tokens(want)):
        s.fail("%r became %r" % (pre + u + post, got))
    deps = ["out/www/d/x.png.hash"] if isurl else []
    if list(scan.dependencies) != deps or list(res.children) != deps:
        s.fail("the dependencies are %r and %r instead of %r" % (scan.dependencies, res.children, deps))
    s.reach("end")


def several(s):
    fs = memfs.FS(s, dict(("out/www/d/%s.png.hash" % n, "hash " + n) for n in "abc"))
    text = want = ""
    deps = set()
    n = s.choice("urls", [0, 1, 2, 3])
    for i in range(n):
        u = s.choice("url%d" % i, ["/d/a.png", "/d/b.png#c", "//e/a.png", "a.png", "/d/a.png?b"])
        form = s.choice("form%d" % i, FORMS[:3])
        v = u
        if u.startswith("/d/") and "?" not in u:
            name = u[3]
            deps.add("out/www/d/%s.png.hash" % name)
            v = u[:8] + "?v=hash+" + name + "&pv=" + PROCESSOR_VERSION + u[8:]
        text += "a%d{b:%s%s%s}\n" % (i, form[0], u, form[1])
        want += "a%d{b:%s%s%s}\n" % (i, form[0], v, form[1])
    fs.put(memfs.PROJECT + "/src/public/d/p.css", text)
    ctx = images.context()
    scan = css.scan_file(ctx, "src/public/d/p.css")
    res = css.build_file(ctx, "src/public/d/p.css")
    for got in (scan.dependencies, res.children):
        if sorted(got) != sorted(deps):
            s.fail("depends on %r instead of %r" % (sorted(got), sorted(deps)))
    if not cssref.same(cssref.tokens(fs.text("out/www/d/p.css")), cssref.tokens(want)):
        s.fail("%r became %r" % (text, fs.text("out/www/d/p.css")))
    s.reach("end")


def published(s):
    """The version is the hash of what is published."""
    name = s.choice("name", ["src/public/d/x.png", "src/public/d/x.css", "src/public/y.js"])
    data = {".png": s.choice("data", ["x", "y", ""]), ".css": "a{b:c}", "y.js": "let a;"}[name[-4:]]
    fs = memfs.FS(s, {name: data})
    ctx = images.context(symlinks=s.flag("links"))
    bf.build_file(ctx, name)
    path = name[len("src/public"):]
    h = s.conc(fs.text("out/www" + path + ".hash"))
    fs.put(memfs.PROJECT + "/src/public/p.css", "a{b:url(" + path + ")}")
    css.build_file(ctx, "src/public/p.css")
    from urllib.parse import urlencode
    got = urls(cssref.tokens(fs.text("out/www/p.css")))
    s.check(len(got) == 1 and got[0] == path + "?" + urlencode({"v": h, "pv": PROCESSOR_VERSION}), "the version is not the hash of the published file")
    s.reach("end")


def missing(s):
    u = s.choice("url", ["/x.png", "/d/x.png", "/d/e/../x.png#f"])
    fs = memfs.FS(s, {"src/public/d/p.css": "a{b:url(" + u + ")}", "out/www/y.png.hash": "h"})
    ctx = images.context()
    css.scan_file(ctx, "src/public/d/p.css")
    try:
        css.build_file(ctx, "src/public/d/p.css")
    except (AssertionError, OSError):
        s.reach("refused")
        return
    s.fail("a style sheet was built with a url of a missing file")


PREFIXES = ["/", "/d/", "/d/../", "/./", "//", "/a?", "/a#", "/a#b?", "", "a/", "../", "#", "?", "data:", "https://e/", "/d//", "/\\"]
ENDS = ["", ".png", "/", "#f", "?q"]


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="one", fn=one(PREFIXES, (0, 1), ENDS, FORMS), reach=["versioned", "kept"]),
        dict(name="two", fn=one(["/", "/d/", "", "//"], (2,), ["", ".png"], FORMS[:3:2]), reach=["versioned", "kept"]),
        dict(name="encoded", fn=encoded, reach=["versioned", "kept"]),
        dict(name="places", fn=places, reach=["end"]),
        dict(name="several", fn=several, reach=["end"]),
        dict(name="published", fn=published, reach=["end"]),
        dict(name="missing", fn=missing, reach=["refused"]),
    ] + ([] if q else [dict(name="three", fn=one(["/"], (3,), ["", ".png"], FORMS[:3:2]), reach=["versioned", "kept"])])
