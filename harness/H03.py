"""Inline scripts and styles become files."""
import hashlib
import os
from urllib.parse import urlencode

import vanillaplusjs.build.handlers.css as css
import vanillaplusjs.build.handlers.html as html
import vanillaplusjs.build.handlers.js as js
import vanillaplusjs.build.html.manips.outline as outline
from vanillaplusjs.build.build_file_result import BuildFileResult
from vanillaplusjs.build.scan_file_result import ScanFileResult
from vanillaplusjs.constants import PROCESSOR_VERSION
from harness import images, memfs, page
from harness.T07 import Hash
from symx import iset

BOUNDS = ("pages with up to 3 inline scripts, styles, data blocks and linked scripts, in any order, in pages and partials, at three depths; texts of up to 3 (thorough 4) "
          "arbitrary characters in up to 2 pieces and samples with comments; type attributes of up to 2 arbitrary characters and the registered ones; other attributes with up "
          "to 2 arbitrary characters; up to 3 interferences of other processes that create and remove folders")
OUTSIDE = ("projects with files of their own in js/gen or css/gen; relative addresses within of the texts; scripts and styles in svg; language attributes; how html5lib splits "
           "a page into tags; characters that HTML parsing itself replaces")
STUBS = ["the disk is an in-memory tree", "html5lib is a stand-in while exploring; replays use the real one", "sha256 is a stand-in that numbers contents",
         "where texts are symbolic, the processing of scripts and styles is a copy while exploring (T01-T04 and C02, C03 are about it)"]
TEXT = page.TEXT - iset.chars("<")


def setup(s, copies):
    fs = memfs.FS(s, {})
    Hash.seen = []
    s.intercept(hashlib.sha256, Hash)
    if copies and s.symbolic:
        for h in (js, css):
            s.intercept(h.scan_file, copy_scan)
            s.intercept(h.build_file, copy_build)
    return fs, page.Pages(s, fs), images.context()


def copy_scan(ctx, rel):
    out = "out/www/" + rel[len("src/public/"):]
    return ScanFileResult(dependencies=[], produces=[out, out + ".hash"])


def copy_build(ctx, rel):
    import vanillaplusjs.build.handlers.copy as copy
    import vanillaplusjs.build.handlers.hash as hash_
    out = copy.get_target_path(ctx, rel)
    os.makedirs(os.path.dirname(os.path.join(ctx.folder, out)), exist_ok=True)
    with open(os.path.join(ctx.folder, rel)) as f:
        t = f.read()
    with open(os.path.join(ctx.folder, out), "w") as f:
        f.write(t)
    r = hash_.build_file(ctx, out)
    return BuildFileResult(children=list(r.children), produced=[out] + list(r.produced), reused=list(r.reused))


class El:
    """An element with text; kind says what becomes of it."""

    def __init__(self, name, attrs, pieces, kind, cdata=None):
        self.name, self.attrs, self.pieces, self.kind = name, attrs, pieces, kind
        self.cdata = cdata

    def items(self):
        return [page.tagd(self.name, self.attrs)] + list(self.pieces) + [page.end(self.name)]

    def text(self):
        t = ""
        for p in self.pieces:
            t = t + ("<!--" + p[1] + "-->" if p[0] == "comment" else p[1])
        return t


def build(s, fs, pages, ctx, rel, els, partial=False):
    """Builds a page with these elements and checks what became of them."""
    body = []
    for e in els:
        body += e.items() + [page.tag("p"), page.text("x"), page.end("p")]
    if partial:
        pages.partial("src/partials/part.html", body)
        pages.page(rel, body=[page.comment('[TEMPLATE: ["/part.html"]]')])
    else:
        pages.page(rel, body=body)
    name = rel[len("src/public/"):-5]
    before = sorted(fs.files)
    dirs = sorted(fs.dirs)
    scan = html.scan_file(ctx, rel)
    if sorted(fs.files) != before:
        s.fail("scanning changed files: %r" % sorted(set(fs.files) ^ set(before)))
    res = html.build_file(ctx, rel)
    src = [k for k in fs.files if fs.rel(k).startswith("src/")]
    old = [k for k in before if fs.rel(k).startswith("src/")]
    if sorted(src) != old:
        s.fail("building changed sources: %r" % sorted(set(src) ^ set(old)))
    left = [d for d in fs.dirs if fs.rel(d).startswith(("src/public/js/gen", "src/public/css/gen")) and d not in dirs]
    if left:
        s.fail("folders were left in the sources: %r" % left)
    produced = ["out/www/" + name + ".html", "out/www/" + name + ".html.hash"]
    want = []
    n = {"script": 0, "style": 0}
    for e in els:
        if e.kind == "keep":
            want += [page.tagd(e.name, e.attrs)] + [p for p in e.pieces if not (p[0] == "text" and len(p[1]) == 0)] + [page.end(e.name)]
        else:
            n[e.name] += 1
            ext = "js" if e.name == "script" else "css"
            url = "/%s/gen/%s/%d.%s" % (ext, name, n[e.name], ext)
            out = "out/www" + url
            produced += [out, out + ".hash"]
            got = fs.text(out)
            if got is None:
                s.fail("no file with the text of an element")
            # an ordinary file with the same text is the oracle for what the file holds
            other = "src/public/%s/other.%s" % (ext, ext)
            fs.put(memfs.PROJECT + "/" + other, e.text())
            (js if ext == "js" else css).build_file(ctx, other)
            s.check(fs.text("out/www/" + other[len("src/public/"):]) == got, "the file does not have the text of the element")
            attrs = dict(e.attrs)
            attrs["src" if ext == "js" else "href"] = url + "?" + urlencode({"v": s.conc(fs.text(out + ".hash")), "pv": PROCESSOR_VERSION})
            if ext == "css":
                attrs["rel"] = "stylesheet"
            want.append(page.tagd("script" if ext == "js" else "link", attrs))
            if ext == "js":
                want.append(page.end("script"))
        want += [page.tag("p"), page.text("x"), page.end("p")]
    got = pages.result("out/www/" + name + ".html")
    i = [i for i, t in enumerate(got) if t[0] == "tag" and t[1] == "body"][0]
    got = got[i + 1:]
    s.check(len(got) >= len(want), "elements are missing")
    for a, b in zip(got, want):
        if a[0] != b[0]:
            s.fail("the page has %r instead of %r" % (a[0], b[0]))
        if a[0] == "tag":
            if a[1] != b[1] or sorted(a[2]) != sorted(b[2]):
                s.fail("another element or attribute: %s with %s instead of %s with %s" % (a[1], sorted(a[2]), b[1], sorted(b[2])))
            for k in b[2]:
                s.check(a[2][k] == b[2][k], "attribute %s has another value" % k)
        else:
            s.check(a[1] == b[1], "another text or end of an element")
    if any(t[0] in ("tag", "text") and (t[1] != "html" and t[1] != "body") and t[1].strip() != "" for t in got[len(want):]):
        s.fail("elements were added: %r" % got[len(want):])
    for r in (scan.produces, list(res.produced) + list(res.reused)):
        if sorted(r) != sorted(produced):
            s.fail("reported as produced: %r instead of %r" % (sorted(r), sorted(produced)))
    s.reach("end")
    return scan, res


def texts(sizes, dom=TEXT):
    """The text of an element, in one or two pieces."""
    def fn(s):
        fs, pages, ctx = setup(s, True)
        name = s.choice("element", ["script", "style"])
        t = s.text("x", s.choice("length", list(sizes)), dom)
        cut = s.choice("pieces", [1, 2])
        pieces = [page.text(t)] if cut == 1 else [page.text(t[:1]), page.text(t[1:])]
        build(s, fs, pages, ctx, "src/public/index.html", [El(name, {}, pieces, "outline")], s.flag("partial"))

    return fn


JS = ["text/javascript", "module", "application/javascript", "TEXT/JavaScript", "Module", "", " text/javascript ", "application/ecmascript", "text/ecmascript", "text/jscript",
      "application/x-javascript", "text/javascript1.5", "text/livescript"]
DATA = ["application/json", "application/ld+json", "importmap", "text/template", "text/x-handlebars-template", "speculationrules", "text/javascript; charset=utf-8", "javascript", "text/babel"]
CSS = ["", "text/css", "TEXT/CSS"]
NOCSS = ["text/less", "text/plain", "css"]


def types(s):
    """Which types are scripts and styles."""
    fs, pages, ctx = setup(s, True)
    name = s.choice("element", ["script", "style"])
    good, bad = (JS, DATA) if name == "script" else (CSS, NOCSS)
    t = s.choice("type", good + bad)
    build(s, fs, pages, ctx, "src/public/index.html", [El(name, {"type": t}, [page.text("a")], "outline" if t in good else "keep")])


def any_type(s):
    """Short types are none of the registered ones."""
    fs, pages, ctx = setup(s, True)
    t = s.choice("before", ["", "mod", "text/"]) + s.text("x", s.choice("length", [1, 2]), iset.rng(33, 0xD7FF) - iset.rng(0x80, 0xA0)) + s.choice("after", ["", "le"])
    # the only ones of these which are types of scripts (upper and lower case alike)
    s.assume(t.lower() != "module")
    s.assume(t.strip() == t)
    build(s, fs, pages, ctx, "src/public/index.html", [El("script", {"type": t}, [page.text("{}")], "keep"), El("script", {}, [page.text("a")], "outline")])


ATTRS = [("id", None), ("nonce", None), ("crossorigin", "anonymous"), ("title", None), ("data-x", None), ("class", None)]


def attributes(s):
    fs, pages, ctx = setup(s, True)
    name = s.choice("element", ["script", "style"])
    attrs = {}
    for i, extra in enumerate((["defer", "nomodule", "id"] if name == "script" else ["media", "title"]) + ["data-x"]):
        if s.flag("has " + extra):
            attrs[extra] = s.text(extra, s.choice("length " + extra, [0, 1]) if extra in ("media", "id") else 2 if extra == "data-x" else 0, page.TEXT)
    build(s, fs, pages, ctx, "src/public/index.html", [El(name, attrs, [page.text("a")], "outline")])


def linked(s):
    """A script with an address has no text of its own, whatever is between its tags."""
    fs, pages, ctx = setup(s, True)
    src = s.choice("src", ["", " ", "https://e/x.js", "//e/x.js", "data:,1"])
    d = {"src": src}
    for extra in ("async", "type"):
        if s.flag("has " + extra):
            d[extra] = s.choice("type", ["", "module", "text/javascript"]) if extra == "type" else ""
    t = s.text("x", s.choice("length", [0, 1, 2]), TEXT)
    build(s, fs, pages, ctx, "src/public/index.html", [El("script", d, [page.text(t)], "keep"), El("script", {}, [page.text("a")], "outline")], s.flag("partial"))


def mix(n, rels):
    """Several elements."""
    def fn(s):
        fs, pages, ctx = setup(s, True)
        rel = s.choice("page", rels)
        els = []
        for i in range(s.choice("elements", list(range(n + 1)))):
            k = s.choice("element%d" % i, ["script", "module", "style", "json", "src", "media"])
            t = [page.text(s.choice("text%d" % i, ["a", "", "b%d" % i]))]
            els.append({"script": El("script", {}, t, "outline"), "module": El("script", {"type": "module"}, t, "outline"), "style": El("style", {}, t, "outline"),
                        "json": El("script", {"type": "application/json"}, t, "keep"),
                        "src": El("script", {"src": "https://e/x.js"}, [page.text("")], "keep"),
                        "media": El("style", {"media": "print"}, t, "outline")}[k])
        build(s, fs, pages, ctx, rel, els, s.flag("partial"))

    return fn


SAMPLES = [("script", "var a = 1 < 2 && 3 > 2; // \"x\""), ("script", "import {x} from '/js/dep.js';\nimport '/js/gen/x.js';"), ("script", "let s = '\\u00e9\\'';/[<]/.test(s)"), ("script", ""),
           ("style", "a > b { content: \"<\"; }"), ("style", "<!-- a{} -->"), ("style", "@import '/css/dep.css';\na{b:url(/img/x.png)}"), ("style", "a{b:url('data:image/png,abc')}"), ("style", "")]


def samples(s):
    """Concrete texts with the real processing; dependencies are those of the same ordinary file."""
    fs, pages, ctx = setup(s, False)
    for k in ("js/dep.js", "js/gen/x.js", "css/dep.css", "img/x.png"):
        fs.put(memfs.PROJECT + "/src/public/" + k, "x")
        fs.put(memfs.PROJECT + "/out/www/" + k, "x")
        fs.put(memfs.PROJECT + "/out/www/" + k + ".hash", "h" + k[-1])
    name, t = s.choice("sample", SAMPLES)
    rel = s.choice("page", ["src/public/index.html", "src/public/a/b.c.html"])
    if name == "style" and t.startswith("<!--"):
        pieces = [page.comment(t[4:-3])]
    else:
        pieces = [page.text(t)]
    if "data:" in t:
        # the image is one more file
        pages.page(rel, head=[page.tag("style")] + pieces + [page.end("style")])
        scan = html.scan_file(ctx, rel)
        res = html.build_file(ctx, rel)
        base = rel[len("src/public/"):-5]
        f = "out/www/img/gen/css/gen/%s/1/1.png" % base
        if fs.text(f) != "abc" or not (f in scan.produces and f in res.produced and f + ".hash" in scan.produces):
            s.fail("the image of a style is not reported: %r, %r" % (scan.produces, res.produced))
        s.reach("end")
        return
    scan, res = build(s, fs, pages, ctx, rel, [El(name, {}, pieces, "outline")])
    ext = "js" if name == "script" else "css"
    want = (js if ext == "js" else css).scan_file(ctx, "src/public/%s/other.%s" % (ext, ext))
    for r in (scan.dependencies, res.children):
        if sorted(r) != sorted(want.dependencies):
            s.fail("dependencies are %r instead of %r" % (sorted(r), sorted(want.dependencies)))


class Busy(memfs.FS):
    """Other processes handle other pages at the same time: they make folders for them and remove those that are empty."""

    left = 0
    k = 0

    def gen(self, key):
        return key is not None and (key + "/").startswith((memfs.PROJECT + "/src/public/js/gen/", memfs.PROJECT + "/src/public/css/gen/"))

    def empty(self, d):
        return d in self.dirs and not any(k.startswith(d + "/") for k in self.files) and not any(k.startswith(d + "/") for k in self.dirs)

    def interfere(self, key):
        """What another process does just before this one touches key."""
        if self.left == 0 or not self.gen(key):
            return
        self.k += 1
        if not self.s.flag("interference%d" % self.k):
            return
        self.left -= 1
        d = key
        while self.gen(d):
            if self.empty(d):
                self.dirs.discard(d)
            d = os.path.dirname(d)

    def open(self, path, mode="r", *a, **k):
        key = self.key(path)
        if "w" in mode:
            self.interfere(key)
        return memfs.FS.open(self, path, mode, *a, **k)

    def makedirs(self, path, *a, **k):
        key = self.key(path)
        if self.left and self.gen(key):
            self.k += 1
            # os.makedirs makes one folder after the other; a parent can be gone when it makes the last one
            if self.s.flag("makedirs%d" % self.k):
                self.left -= 1
                raise FileNotFoundError(2, "No such file or directory", path)
        return memfs.FS.makedirs(self, path, *a, **k)

    def rmdir(self, path, *a, **k):
        key = self.key(path)
        self.interfere(key)
        if self.left and self.gen(key):
            self.k += 1
            if self.s.flag("new%d" % self.k):
                self.left -= 1
                self.put(key + "/z/1.js", "other")
        return memfs.FS.rmdir(self, path, *a, **k)


def busy(n):
    def fn(s):
        fs = Busy(s, {})
        Hash.seen = []
        s.intercept(hashlib.sha256, Hash)
        pages, ctx = page.Pages(s, fs), images.context()
        rel = s.choice("page", ["src/public/a.html", "src/public/a/b.html"])
        k = s.choice("elements", [["script"], ["script", "script"], ["style", "script"]])
        body = []
        for x in k:
            body += [page.tag(x), page.text("a"), page.end(x)]
        pages.page(rel, body=body)
        fs.left = n
        if s.flag("scan"):
            html.scan_file(ctx, rel)
        else:
            html.build_file(ctx, rel)
            name = rel[len("src/public/"):-5]
            c = {"script": 0, "style": 0}
            for x in k:
                c[x] += 1
                e = "js" if x == "script" else "css"
                if fs.text("out/www/%s/gen/%s/%d.%s" % (e, name, c[x], e)) != "a":
                    s.fail("a file is missing")
        s.reach("end")

    return fn


def scenarios(tier):
    q = tier == "quick"
    rels = ["src/public/index.html", "src/public/a/b.html", "src/public/a/b.c.html"]
    return [
        dict(name="texts", fn=texts((0, 1, 2, 3) if q else (0, 1, 2, 3, 4)), reach=["end"]),
        dict(name="types", fn=types, reach=["end"]),
        dict(name="any_type", fn=any_type, reach=["end"]),
        dict(name="attributes", fn=attributes, reach=["end"]),
        dict(name="linked", fn=linked, reach=["end"]),
        dict(name="mix", fn=mix(2 if q else 3, rels), reach=["end"]),
        dict(name="three", fn=mix(3, rels[:1]), reach=["end"]),
        dict(name="samples", fn=samples, reach=["end"]),
        dict(name="busy", fn=busy(2 if q else 3), reach=["end"]),
    ]
