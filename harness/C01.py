"""Cache busting of links and scripts in pages."""
from urllib.parse import parse_qs, unquote

import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.handlers.html as html
from vanillaplusjs.constants import PROCESSOR_VERSION
from harness import images, memfs, page
from harness.H01 import absolute, clean, resolve

BOUNDS = ("script, stylesheet and preload tags whose address is one of 20 kinds of prefix, up to 2 (thorough 3) arbitrary characters and one of 6 "
          "endings, percent-encoded bytes, on pages up to two folders deep; tags of other kinds; up to 3 tags in one page")
OUTSIDE = ("how html5lib splits a page into tags; characters that HTML parsing itself replaces; tabs and line breaks inside of an address; "
           "encoded separators (%2F) and encoded dots")
STUBS = ["the disk is an in-memory tree", "html5lib is a stand-in while exploring; replays use the real one"]
KINDS = [("script", {}, "src"), ("link", {"rel": "stylesheet"}, "href"), ("link", {"rel": "preload"}, "href")]
CONTENT = "the contents \r\n of the file"


def items(kind, url, extra):
    name, attrs, at = kind
    d = dict(attrs)
    d.update(extra)
    if url is not None:
        d[at] = url
    out = [page.tagd(name, d)]
    if name == "script":
        out.append(page.end(name))
    return out, d


def has_dots(path):
    for x in path.split("/"):
        if x == "." or x == ".." or x == "":
            return True
    return False


def check_versioned(s, got, href, hash_, what):
    s.check(got.startswith(href + "?"), what + " leads somewhere else")
    q = got[len(href) + 1:]
    s.check(parse_qs(s.conc(q), strict_parsing=True) == {"v": [hash_], "pv": [PROCESSOR_VERSION]}, what + " has another version")


def one(prefixes, sizes, ends, pages_at):
    def fn(s):
        kind = s.choice("tag", KINDS)
        at = kind[2]
        rel = s.choice("page", pages_at)
        n = s.choice("length", sizes)
        u = s.choice("prefix", prefixes) + s.text("u", n, page.TEXT) + s.choice("end", ends)
        for c in u:
            s.assume(not (c == "\t" or c == "\n" or c == "%"))
        extra = s.choice("extra", [{}, {"id": "z", "as": "w", "href" if at == "src" else "src": "other"}])
        its, d0 = items(kind, u, extra)
        run(s, rel, its, kind, d0, u)

    return fn


def run(s, rel, its, kind, d0, u):
    at = kind[2]
    fs = memfs.FS(s)
    ctx = images.context()
    pages = page.Pages(s, fs)
    pages.page(rel, its)
    out = "out/www/" + rel[len("src/public/"):]
    c = clean(u)
    path = None
    if not absolute(c) and "?" not in c and "#" not in c:
        last = c.split("/")[-1]
        if not (last == "" or last == "." or last == ".."):
            path = resolve("/" + rel[len("src/public/"):], c)[0][1:]
    if path is not None:
        path = unquote(path)
        s.assume(not has_dots(path))
        # not the page itself, nor something inside of it or above it
        own = rel[len("src/public/"):]
        s.assume(not (path + "/").startswith(own + "/"))
        s.assume(not (own + "/").startswith(path + "/"))
        s.assume(not path.endswith(".hash"))
        s.assume(not path.startswith("src/"))
        # the file there, published as the build publishes it
        src = "src/public/" + path
        fs.put(memfs.PROJECT + "/out/www/" + path + ".hash", "HASH/+=")
        fs.put(memfs.PROJECT + "/out/www/" + path, CONTENT)
    scan = html.scan_file(ctx, rel)
    res = html.build_file(ctx, rel)
    tags = [t for t in pages.tags(out, "script", "link")]
    s.check(len(tags) == 1 and tags[0][1] == kind[0], "the tag is gone or doubled")
    d = tags[0][2]
    s.check(set(d) == set(d0), "the tag has other attributes")
    for k in d0:
        if k != at:
            s.check(d[k] == d0[k], "another attribute was changed")
    if path is None:
        s.check(not scan.dependencies and not res.children, "the page depends on something it does not refer to")
        s.check(d[at] == u, "the address was changed")
        s.reach("kept")
    else:
        s.check(len(scan.dependencies) == 1 and scan.dependencies[0] == src, "scanning does not declare the file as a dependency")
        s.check(len(res.children) == 1 and res.children[0] == src, "building does not declare the file as a dependency")
        check_versioned(s, d[at], c, "HASH/+=", "the link")
        s.reach("versioned")


def encoded(s):
    """Percent-encoded characters stand for the file's real name."""
    kind = s.choice("tag", KINDS)
    rel = s.choice("page", ["src/public/p.html", "src/public/d/p.html"])
    s1 = s.char("hi", "234567")
    s2 = s.char("lo", "0123456789abcdefABCDEF")
    s.assume(not (s1 == "2" and (s2 == "e" or s2 == "E" or s2 == "f" or s2 == "F")))
    u = s.choice("prefix", ["/", "", "e/", "../"]) + "a%" + s1 + s2 + s.choice("end", [".js", ".%C3%A9", "%20b"])
    its, d0 = items(kind, u, {})
    run(s, rel, its, kind, d0, u)


OTHER = [("link", {"rel": "icon"}, "href"), ("link", {}, "href"), ("a", {}, "href"), ("p", {"id": "i"}, "src"), ("link", {"rel": "stylesheet"}, "src"),
         ("link", {"rel": "preload"}, "data-href"), ("link", {"rel": "canonical"}, "href"), ("iframe", {}, "src")]


def others(s):
    kind = s.choice("tag", OTHER)
    v = s.choice("address", ["/x.js", "x.js", "https://e/x.js"])
    d0 = dict(kind[1])
    d0[kind[2]] = v
    its = [page.tagd(kind[0], d0)]
    if kind[0] not in page.VOID:
        its.append(page.end(kind[0]))
    fs = memfs.FS(s, {"out/www/x.js": CONTENT, "out/www/x.js.hash": "HASH"})
    ctx = images.context()
    ctx.host = "h"
    pages = page.Pages(s, fs)
    pages.page("src/public/p.html", [], its)
    scan = html.scan_file(ctx, "src/public/p.html")
    res = html.build_file(ctx, "src/public/p.html")
    if scan.dependencies or res.children:
        s.fail("the page depends on something it does not refer to")
    tags = pages.tags("out/www/p.html", kind[0])
    tags = [t for t in tags if "charset" not in t[2]]
    if kind[1].get("rel") == "canonical":
        d0["href"] = v if v.startswith("https") else "https://h/x.js"
    if len(tags) != 1 or tags[0][2] != d0:
        s.fail("%r became %r" % (d0, tags))
    s.reach("same")


def published(s):
    """The version is the hash of what is really published, for files of every kind."""
    ext = s.choice("kind", [".js", ".css", ".bin", ".html"])
    data = {".js": "let a = 1; // c", ".css": "a { b: c }", ".bin": s.text("data", 2, page.TEXT), ".html": "<!DOCTYPE html><p>b</p>"}[ext]
    name = "src/public/d/x" + ext
    fs = memfs.FS(s, {name: data})
    ctx = images.context(symlinks=s.flag("links"))
    bf.build_file(ctx, name)
    h = s.conc(fs.text("out/www/d/x" + ext + ".hash")) if ext != ".bin" else fs.text("out/www/d/x" + ext + ".hash")
    pages = page.Pages(s, fs)
    kind = s.choice("tag", KINDS)
    its, d0 = items(kind, s.choice("address", ["/d/x", "x", "../d/x", "./x"]) + ext, {})
    pages.page("src/public/d/p.html", its)
    html.scan_file(ctx, "src/public/d/p.html")
    html.build_file(ctx, "src/public/d/p.html")
    t = pages.tags("out/www/d/p.html", kind[0])
    from urllib.parse import urlencode
    s.check(t[0][2][kind[2]] == d0[kind[2]] + "?" + urlencode({"v": h, "pv": PROCESSOR_VERSION}), "the version is not the hash of the published file")
    s.reach("end")


def several(s):
    """Several links in one page, to the same and to different files."""
    fs = memfs.FS(s)
    for n in "abc":
        fs.put(memfs.PROJECT + "/out/www/d/" + n + ".js", n)
        fs.put(memfs.PROJECT + "/out/www/d/" + n + ".js.hash", "hash of " + n)
    ctx = images.context()
    pages = page.Pages(s, fs)
    its = []
    want = []
    deps = set()
    for i in range(s.choice("tags", [0, 1, 2, 3])):
        kind = s.choice("tag%d" % i, KINDS)
        n = s.choice("file%d" % i, "abc") if i < 2 else "a"
        form = s.choice("form%d" % i, ["/d/%s.js", "%s.js", "//o/%s.js", "/d/%s.js?v=1"])
        a, d0 = items(kind, form.replace("%s", n), {})
        its += a
        w = dict(d0)
        if form in ("/d/%s.js", "%s.js"):
            deps.add("src/public/d/%s.js" % n)
            w[kind[2]] = d0[kind[2]] + "?v=hash+of+" + n + "&pv=" + PROCESSOR_VERSION
        want.append((kind[0], w))
    pages.page("src/public/d/p.html", its)
    scan = html.scan_file(ctx, "src/public/d/p.html")
    res = html.build_file(ctx, "src/public/d/p.html")
    for got in (scan.dependencies, res.children):
        if sorted(got) != sorted(deps):
            s.fail("depends on %r instead of %r" % (sorted(got), sorted(deps)))
    got = [(t[1], t[2]) for t in pages.tags("out/www/d/p.html", "script", "link")]
    if got != want:
        s.fail("the links are %r instead of %r" % (got, want))
    s.reach("end")


def missing(s):
    """A link to a local file that does not exist fails the build."""
    kind = s.choice("tag", KINDS)
    u = s.choice("address", ["/x.js", "x.js", "/d/x.js", "../x.js", "e/x.js"])
    fs = memfs.FS(s, {"out/www/y.js.hash": "h", "out/www/d/e/x.js": "no hash"})
    ctx = images.context()
    pages = page.Pages(s, fs)
    its, d0 = items(kind, u, {})
    pages.page("src/public/d/p.html", its)
    html.scan_file(ctx, "src/public/d/p.html")
    try:
        html.build_file(ctx, "src/public/d/p.html")
    except (AssertionError, OSError):
        s.reach("refused")
        return
    s.fail("a page was built with a link to a missing file")


PRE = ["/", "", "./", "../", "d/", "/d/", "../../", "x", "//", "//h/", "http:", "https://h/", "data:", "/a?", "/a#", " /", "../d/e/", ".", "..", "/../"]


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="one", fn=one(PRE, [0, 1] if q else [0, 1, 2], [".js", "/a.css", "/", "", "a", "x?y"], ["src/public/p.html", "src/public/d/e/p.html"]), reach=["kept", "versioned"]),
        dict(name="free", fn=one([""], [2] if q else [2, 3], [".js"] if q else ["", ".js"], ["src/public/d/p.html"]), reach=["kept", "versioned"]),
        dict(name="encoded", fn=encoded, reach=["versioned"]),
        dict(name="others", fn=others, reach=["same"]),
        dict(name="published", fn=published, reach=["end"]),
        dict(name="several", fn=several, reach=["end"]),
        dict(name="missing", fn=missing, reach=["refused"]),
    ]
