"""What a scan says about a file, and what its build reads and writes."""
import hashlib

import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.html.manips.images.metadata as md
import vanillaplusjs.build.scan_file as sf
from harness import images, memfs, page
from harness.T07 import Hash
from symx import iset
from vanillaplusjs.build.css.manips.icons.color import Color
from vanillaplusjs.build.css.manips.icons.settings import ButtonSetting, ButtonSettings, IconSettings
from vanillaplusjs.build.html.manips.images.settings import ImageExport

BOUNDS = ("pages, partials, style sheets, scripts and image lists composed of up to 2 (thorough 3) of 27 constructs for pages, 20 for sheets, 19 for scripts and 7 for image lists, with one "
          "arbitrary character in file names and texts; each is scanned, built, scanned again, built over its own outputs, and built over outputs of others")
OUTSIDE = ("longer files; constructs that the build refuses; what was published below names of other files; the record of image targets and its lock, which builds share")
STUBS = ["the disk is an in-memory tree", "html5lib is a stand-in while exploring; replays use the real one", "Pillow is a model", "the export process pool runs each export on submission",
         "sha256 is a stand-in that numbers contents"]
P = memfs.PROJECT + "/"
SIMPLE = iset.chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-")
PUBLISHED = {"css/a.css": "a { b: c }", "css/b.css": ".x { y: z } .w { v: 1px }", "js/a.js": "a;", "js/b.js": "b;", "js/p.images.js": "old", "img/f.woff": "font", "d/t.txt": "t", "other.html": "<p>", "d/css/a.css": "", "d/other.html": ""}
MAIN = "src/public/css/main.css"


class World:
    def __init__(self, s, extra=()):
        self.s = s
        self.ctx = images.context(formats=("jpeg", "png"), top=2)
        self.ctx.host = "e.com"
        self.ctx.icon_settings = IconSettings({"primary": Color(51, 51, 51), "x": Color(1, 2, 3)}, ["s", "l"], ButtonSettings(ButtonSetting("primary", "x", "primary"), {}))
        self.disk = images.Disk(s, {"src/public/img/i.png": ("pic", 40, 30), "src/public/img/j.jpg": ("pic2", 16, 9)})
        self.fs = self.disk.fs
        Hash.seen = []
        s.intercept(hashlib.sha256, Hash)
        self.pages = page.Pages(s, self.fs)
        for rel, text in list(PUBLISHED.items()) + list(extra) + [("img/i.png", None), ("img/j.jpg", None), ("css/main.css", ".m { n: o }")]:
            if text is not None:
                self.fs.put(P + "src/public/" + rel, text)
            self.fs.put(P + "out/www/" + rel, text or "pic")
            self.fs.put(P + "out/www/" + rel + ".hash", "H" + str(len(rel)) if text is not None else md.calculate_hash(P + "src/public/" + rel))
        self.fs.put(P + "src/public/js/p.images.json", "{}")
        self.fs.put(P + "src/public/img/icons/i.svg", '<svg fill="#333333"/>')


def eq(a, b):
    return len(a) == len(b) and sorted(a) == sorted(b)


def subset(a, b):
    return [x for x in a if x not in b]


def judge(s, w, rel, refusals=()):
    """Scan, build, scan and build again."""
    fs, ctx = w.fs, w.ctx
    before = dict(fs.files)
    fs.writes = []
    try:
        scan = sf.scan_file(ctx, rel)
    except refusals:
        s.reach("refused")
        return
    bad = [x for x in fs.writes if x not in scan.produces and not x.startswith("artifacts/") and fs.get(x) is not before.get(P + x)]
    if bad:
        s.fail("scanning writes %r" % (sorted(set(bad)),))
    for k in fs.files:
        if k not in before and not fs.rel(k).startswith("artifacts/"):
            s.fail("scanning leaves %r" % (fs.rel(k),))
    for again in range(2):
        fs.reads, fs.writes = [], []
        kept = dict(fs.files)
        try:
            res = bf.build_file(ctx, rel)
        except refusals:
            if again:
                s.fail("building again fails")
            s.reach("refused")
            return
        reads, writes = list(fs.reads), list(fs.writes)
        outputs = list(res.produced) + [x for x in res.reused if x not in res.produced]
        if len(set(res.produced)) != len(list(res.produced)) or len(set(scan.produces)) != len(list(scan.produces)):
            s.fail("an output is listed twice")
        if [x for x in res.reused if x in res.produced]:
            s.fail("an output is both produced and reused")
        if not eq(set(scan.dependencies), set(res.children)):
            s.fail("scanning depends on %r, building on %r" % (sorted(subset(scan.dependencies, res.children)), sorted(subset(res.children, scan.dependencies))))
        if not eq(set(scan.produces), set(outputs)):
            s.fail("scanning produces %r, building %r" % (sorted(subset(scan.produces, outputs)), sorted(subset(outputs, scan.produces))))
        for x in outputs:
            if P + x not in fs.files and not x.startswith("out/locks/"):
                s.fail("declares %r, which is not there" % (x,))
        allowed = [rel] + list(res.children) + outputs
        for d in res.children:
            if d.startswith("src/public/"):
                allowed += ["out/www/" + d[11:], "out/www/" + d[11:] + ".hash"]
            if d.endswith(".images.json"):
                allowed += ["out/www/" + d[11:-4] + "js", "out/www/" + d[11:-4] + "js.hash"]
        for x in reads:
            if x not in allowed and not x.startswith("artifacts/") and x not in writes:
                s.fail("reads %r without depending on it" % (x,))
        for x in writes:
            if x in outputs or x.startswith("artifacts/"):
                continue
            if fs.get(x) is None and P + x not in kept:
                continue
            s.fail("writes %r without declaring it" % (x,))
        for k in fs.files:
            r = fs.rel(k)
            if k not in kept and r not in outputs and not r.startswith("artifacts/"):
                s.fail("leaves %r without declaring it" % (r,))
        for k in kept:
            if k not in fs.files:
                s.fail("removes %r" % (fs.rel(k),))
        s.check(True, "declared")
        if not again:
            scan2 = sf.scan_file(ctx, rel)
            if not eq(set(scan2.dependencies), set(scan.dependencies)) or not eq(set(scan2.produces), set(scan.produces)):
                s.fail("scanning again says something else: %r, %r" % (sorted(set(scan.dependencies) ^ set(scan2.dependencies)), sorted(set(scan.produces) ^ set(scan2.produces))))
    s.observe("declared", [sorted(res.children), sorted(outputs)])
    s.reach("built")


CSS = ["a { b: c }", "a { b: url('/img/i.png') }", "a { b: url(/img/i.png) }", "a { b: url(\"/img/f.woff#x\") } c { d: url('/img/f.woff') }", "a { b: url('//e/x.png') }",
       "a { b: url('data:image/png;base64,AAAA') }", "a { b: url('data:image/png;base64,AAAA'); c: url('data:image/gif;base64,AAAA') }", "@import url('/css/a.css');", '@font-face { src: url("/img/f.woff") }',
       ".q { /*! PREPROCESSOR: import .m */ }", ".q { /*! PREPROCESSOR: import .x FROM /css/b.css */ }", ".q { /*! PREPROCESSOR: import .w FROM /css/b.css */ e: url('/img/i.png') }",
       ".q { /*! PREPROCESSOR: import .u */ } .u { b: url('/d/t.txt') }", "/* url('/img/none.png') */", "a { b: '/img/i.png' }", "a { b: src('/img/none.png') }", "@media x { a { b: url('/css/b.css') } }",
       "/*! PREPROCESSOR: icon i primary [\"x\"] all-sizes */", "/*! PREPROCESSOR: icon i primary all-colors ['s'] no-btn */", "/*! PREPROCESSOR: icon j nope all-colors all-sizes */"]
JS = ["a;", "import '/js/a.js';", "import { x } from '/js/b.js';", "export { x } from '/js/b.js';", "export * from '/js/a.js';", "import '//e/x.js';", "import 'https://e/x.js';", "import a from 'npm';",
      "import '/js/none.js'; // @@type-hint", "import '/js/a.js'; /* @@type-hint */", "f(); // @@type-hint", "import p from '/js/p.images.js';", "import './a.js';", "import '../js/b.js';", "// import '/js/none.js';",
      "'import \"/js/none.js\"';", "/import '.js'/;", "import * as z from '/js/a.js?q=1';", "import {} from\n'/js/a.js';"]


def T(*items):
    return list(items)


HTML = {
    "text": T(page.tag("p"), page.text("x"), page.end("p")),
    "style": T(page.tag("link", rel="stylesheet", href="/css/a.css")),
    "style host": T(page.tag("link", rel="stylesheet", href="//e/a.css")),
    "style relative": T(page.tag("link", rel="stylesheet", href="css/a.css")),
    "preload": T(page.tag("link", rel="preload", href="/img/f.woff", as_="font")),
    "script": T(page.tag("script", src="/js/a.js"), page.end("script")),
    "script missing": T(page.tag("script", src="/js/none.js"), page.end("script")),
    "module": T(page.tag("script", src="/js/b.js", type="module"), page.end("script")),
    "canonical": T(page.tag("link", rel="canonical")),
    "canonical given": T(page.tag("link", rel="canonical", href="/other.html")),
    "og": T(page.tag("meta", property="og:url")),
    "img": T(page.tag("img", src="/img/i.png")),
    "inline": T(page.tag("script"), page.text("a = 1;"), page.end("script")),
    "inline import": T(page.tag("script", type="module"), page.text("import '/js/a.js';"), page.end("script")),
    "inline hint": T(page.tag("script", type="module"), page.text("import '/js/b.js'; // @@type-hint\n"), page.end("script")),
    "inline pictures": T(page.tag("script", type="module"), page.text("import p from '/js/p.images.js';"), page.end("script")),
    "inline style": T(page.tag("style"), page.text("a { b: c }"), page.end("style")),
    "inline style url": T(page.tag("style"), page.text("a { b: url('/img/i.png') }"), page.end("style")),
    "inline style data": T(page.tag("style"), page.text("a { b: url('data:image/png;base64,AAAA') }"), page.end("style")),
    "inline style import": T(page.tag("style"), page.text(".q { /*! PREPROCESSOR: import .m */ }"), page.end("style")),
    "inline style icon": T(page.tag("style"), page.text('/*! PREPROCESSOR: icon i primary ["primary"] all-sizes no-btn */'), page.end("style")),
    "data": T(page.tag("script", type="application/json"), page.text("{}"), page.end("script")),
    "image": T(page.comment('[IMAGE: /img/i.png 8 6 cover {} lazy]')),
    "image crop": T(page.comment('[IMAGE: /img/j.jpg 4 4 cover {"pre_left_crop": 3} eager]')),
    "image missing": T(page.comment('[IMAGE: /img/none.jpg 4 4]')),
    "image bad": T(page.comment('[IMAGE: /img/j.jpg 4]')),
    "template": T(page.comment('[TEMPLATE: ["/p.html"]]')),
    "template nested": T(page.comment('[TEMPLATE: ["/sub/q.html", {"a": "b"}]]')),
}


REFUSED = ["script missing", "image bad"]


def page_of(kinds, partials, names=("index", "d/p")):
    def fn(s):
        w = World(s)
        rel = "src/public/" + s.choice("name", names) + ".html"
        items = []
        inner = []
        bad = False
        for k, opts in enumerate(kinds):
            c = s.choice("item%d" % k, opts)
            bad = bad or c in REFUSED
            items += HTML[c]
        for k, opts in enumerate(partials):
            c = s.choice("inner%d" % k, opts)
            bad = bad or c in REFUSED or c.startswith("template")
            inner += HTML[c]
        w.pages.partial("src/partials/p.html", HTML["text"] + inner)
        w.pages.partial("src/partials/sub/q.html", HTML["text"] + [page.comment('[TEMPLATE: ["../p.html"]]')])
        w.pages.page(rel, body=items)
        judge(s, w, rel, (ValueError, AssertionError) if bad else ())

    return fn


def sheet(kinds):
    def fn(s):
        rel = s.choice("sheet", [MAIN, "src/public/css/d/s.css"])
        t = ""
        for k, opts in enumerate(kinds):
            t = t + s.choice("item%d" % k, opts) + "\n"
        if rel != MAIN:
            w = World(s, [("css/main.css", ".m { n: url('/d/t.txt') } .u { v: w }")])
            w.fs.put(P + "src/public/css/main.css", ".m { n: url('/d/t.txt') } .u { v: w }")
            w.fs.put(P + "out/www/css/main.css", ".m { n: url('/d/t.txt?v=H1&pv=1') } .u { v: w }")
        else:
            w = World(s)
            t = ".m { n: o }\n" + t
        w.fs.put(P + rel, t)
        judge(s, w, rel)

    return fn


def script(kinds):
    def fn(s):
        rel = s.choice("script", ["src/public/m.js", "src/public/js/m.js"])
        t = ""
        for k, opts in enumerate(kinds):
            t = t + s.choice("item%d" % k, opts) + "\n"
        w = World(s, [("a.js", "x"), ("b.js", "y")])
        w.fs.put(P + rel, t)
        judge(s, w, rel)

    return fn


def named(s):
    """Names with any simple character."""
    c = s.char("c", SIMPLE)
    n = "n" + c
    kind = s.choice("kind", ["css", "nest", "js", "hint", "html", "inline"])
    w = World(s)
    for at in ("src/public/", "out/www/"):
        w.fs.put(P + at + "z/" + n + ".css", ".x { y: z }")
        w.fs.put(P + at + "z/" + n + ".js", "x;")
        w.fs.put(P + at + "z/" + n + ".png", "x;")
    for e in (".css", ".js", ".png"):
        w.fs.put(P + "out/www/z/" + n + e + ".hash", "hash")
    if kind == "css":
        rel, t = "src/public/css/s.css", "a { b: url('/z/" + n + ".png') }"
    elif kind == "nest":
        rel, t = "src/public/css/s.css", "a { /*! PREPROCESSOR: import .x FROM /z/" + n + ".css */ }"
    elif kind == "js":
        rel, t = "src/public/js/s.js", "import '/z/" + n + ".js';"
    elif kind == "hint":
        rel, t = "src/public/js/s.js", "import '/z/" + n + ".js'; // @@type-hint\n"
    else:
        rel = "src/public/index.html"
        if kind == "html":
            items = [page.tag("link", rel="stylesheet", href="/z/" + n + ".css"), page.tag("script", src="/z/" + n + ".js"), page.end("script")]
        else:
            items = [page.tag("style"), page.text("a { b: url('/z/" + n + ".png') }"), page.end("style")]
        w.pages.page(rel, body=items)
        t = None
    if t is not None:
        w.fs.put(P + rel, t)
    fs = w.fs
    scan = sf.scan_file(w.ctx, rel)
    res = bf.build_file(w.ctx, rel)
    if not same(scan.dependencies, res.children):
        s.fail("scanning depends on something else than building")
    if not same(scan.produces, list(res.produced) + list(res.reused)):
        s.fail("scanning produces something else than building")
    target = {"css": "out/www/z/" + n + ".png.hash", "nest": "src/public/z/" + n + ".css", "js": "src/public/z/" + n + ".js", "html": "src/public/z/" + n + ".css",
              "inline": "out/www/z/" + n + ".png.hash"}.get(kind)
    if target is None:
        s.check(len(list(res.children)) == 0, "a line that is commented out has dependencies")
    else:
        s.check(any(x == target for x in res.children), "does not depend on the file it names")
    s.reach("built")


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(any(x == y for y in b) for x in a) and all(any(x == y for y in a) for x in b)


LISTS = ["{}", '{"a": {"path": "/img/i.png", "width": 8, "height": 6}}', '{"a": {"path": "/img/i.png", "width": 8, "height": 6}, "b": {"path": "/img/j.jpg", "width": 4, "height": 4}}',
         '{"a": {"path": "/img/i.png", "width": 8, "height": 6}, "b": {"path": "/img/i.png", "width": 8, "height": 6, "crop_arguments": {"pre_top_crop": 2}}}',
         '{"a": {"path": "/img/i.png", "width": 8, "height": 6}, "b": {"path": "../img/i.png", "width": 8, "height": 6}}', '{"a": {"path": "/img/none.png", "width": 8, "height": 6}}', "[]"]


def lists(s):
    w = World(s)
    w.ctx.auto_generate_images_js_placeholders = s.flag("placeholders")
    kind = s.choice("file", ["list", "placeholder", "placeholder without list", "text", "constants"])
    if kind == "list":
        rel = "src/public/js/l.images.json"
        w.fs.put(P + rel, s.choice("content", LISTS))
        if s.flag("exists"):
            w.fs.put(P + "src/public/js/l.images.js", "old")
    elif kind == "placeholder":
        rel = "src/public/js/p.images.js"
        for e in ("", ".hash"):
            w.fs.put(P + "out/www/js/p.images.js" + e, "x")
    elif kind == "placeholder without list":
        rel = "src/public/js/q.images.js"
        w.fs.put(P + rel, "old")
    elif kind == "text":
        rel = s.choice("path", ["src/public/d/t.txt", "src/partials/t.html", "src/x.js", "src/x.css", "src/public/d/x"])
        w.fs.put(P + rel, "text")
    else:
        rel = w.ctx.js_constants.relpath
        w.fs.put(P + rel, s.choice("old", ["", "import '/js/a.js';"]))
    judge(s, w, rel)


def shared(s):
    """A second page that needs the same picture: its outputs are reused."""
    w = World(s)
    a, b = s.choice("a", ["image", "image crop"]), s.choice("b", ["image", "image crop"])
    w.pages.page("src/public/index.html", body=HTML[a])
    w.pages.page("src/public/second.html", body=HTML[b])
    both = s.flag("scanned first")
    if both:
        sf.scan_file(w.ctx, "src/public/second.html")
    judge(s, w, "src/public/index.html")
    judge(s, w, "src/public/second.html")


def scenarios(tier):
    q = tier == "quick"
    all_ = list(HTML)
    some = ["text", "style", "script", "inline import", "inline hint", "inline style url", "inline style data", "image", "template"]
    return [
        dict(name="page", fn=page_of([all_, some] if q else [all_, all_], []), reach=["built", "refused"]),
        dict(name="partial", fn=page_of([["template", "template nested"], ["text", "inline", "image", "inline style url"] if q else some], [all_] if q else [all_, some]), reach=["built", "refused"]),
        dict(name="sheet", fn=sheet([CSS, CSS] if q else [CSS, CSS, CSS]), reach=["built"]),
        dict(name="script", fn=script([JS, JS] if q else [JS, JS, JS]), reach=["built"]),
        dict(name="named", fn=named, reach=["built"]),
        dict(name="lists", fn=lists, reach=["built"]),
        dict(name="shared", fn=shared, reach=["built"]),
    ]
