"""Which sources are published, and where."""
import base64
import hashlib
import json
import posixpath

from harness import images, memfs
import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.scan_file as sf

BOUNDS = ("source paths src/<x>, src/public<x> and src/public/d/<x> with x up to 4 arbitrary characters (folders included) plus a "
          "suffix for every kind of file, development links on and off; two such public paths against each other; image "
          "requests from anywhere for pictures inside and outside of src/public, with '..' in the path")
OUTSIDE = ("longer names; published names ending in '.hash' (reserved for hashes); the source of an image request file and the "
           "placeholder next to it, which are published in their built form only; the constants file")
STUBS = ["the disk is an in-memory tree", "Pillow is a model (image requests)"]
P = memfs.PROJECT + "/"
EXT = ["", ".txt", ".html", ".css", ".js", ".images.json", ".images.js", ".htmlx"]
CONTENT = {".html": "<!DOCTYPE html><p>a</p>", ".css": "a { b: c }", ".js": "a;", ".images.json": "{}", ".images.js": "old"}
TOPS = ["src/", "src/public", "src/public/d/"]


def rel(s, tag, top, n, ext):
    """A normalised relative path of a file."""
    text = s.text(tag, n)
    for i in range(n):
        s.assume(text[i] != "\0")
        if s.symbolic or ord(text[i]) >= 0xD800:
            s.assume(not (text[i] >= "\ud800" and text[i] <= "\udfff"))
    p = top + text + ext
    for part in p.split("/"):
        s.assume(part != "")
        s.assume(part != ".")
        s.assume(part != "..")
    return p


def kind(p):
    for e in (".images.json", ".images.js", ".html", ".css", ".js"):
        if p.endswith(e):
            return e
    return ""


def expected(p):
    """Published paths for a source (file, its hash)."""
    if not p.startswith("src/public/"):
        return []
    at = "out/www/" + p[len("src/public/"):]
    k = kind(p)
    if k == ".images.js":
        return []
    if k == ".images.json":
        at = at[:-4] + "js"
    return [at, at + ".hash"]


def same(a, b):
    """Equal collections of (possibly symbolic) paths."""
    return len(a) == len(b) and all(any(x == y for y in b) for x in a) and all(any(x == y for y in a) for x in b)


def publish(sizes, tops, exts):
    def fn(s):
        top = s.choice("top", tops)
        ext = s.choice("suffix", exts)
        n = s.choice("length", sizes)
        s.assume(n > 0 or (ext and top[-1] == "/"))
        p = rel(s, "x", top, n, ext)
        ctx = images.context(symlinks=s.flag("links"))
        k = kind(p)
        text = CONTENT.get(k, "\x00any bytes\r\n")
        fs = memfs.FS(s, {p: text})
        s.assume(not (p == ctx.js_constants.relpath))
        scan = sf.scan_file(ctx, p)
        s.check(not fs.writes, "scanning writes files")
        s.check(not scan.dependencies, "a file without references has dependencies")
        want = expected(p)
        s.check(same(scan.produces, want), "scanning declares something else than the published path")
        r = bf.build_file(ctx, p)
        s.check(same(list(r.produced), want) and not r.reused and not r.children, "building reports something else than the published path")
        written = fs.tree("out")
        s.check(same(list(written), want), "building publishes at another path")
        s.check(same(list(fs.files), [P + p] + [P + x for x in want]), "building leaves other files")
        s.check(not fs.removed, "building removes files")
        if want:
            if k == "":
                s.check(fs.text(want[0]) == text, "the published copy differs from the source")
            data = fs.get(want[0])
            if not isinstance(data, (bytes, bytearray)):
                data = data.encode("utf-8")
            h = base64.urlsafe_b64encode(hashlib.sha256(data).digest()).decode("ascii")
            s.check(fs.text(want[1]) == h, "the published hash is not the one of the published file")
            again = bf.build_file(ctx, p)
            s.check(same(list(again.produced) + list(again.reused), want), "building again reports something else")
            s.check(same(list(fs.tree("out")), want), "building again publishes elsewhere")
            s.reach("public")
        else:
            s.reach("private")

    return fn


def distinct(sizes, exts):
    def fn(s):
        tops = ["src/public/", "src/public/d/"]
        ctx = images.context()
        ps = []
        for t in "pq":
            ps.append(rel(s, t, s.choice("top." + t, tops), s.choice("length." + t, sizes), s.choice("suffix." + t, exts)))
        p, q = ps
        s.assume(p != q)
        for a in ps:
            s.assume(not a.endswith(".hash"))
            s.assume(not (a == ctx.js_constants.relpath))
        fs = memfs.FS(s, {p: CONTENT.get(kind(p), "1")})
        fs.put(P + q, CONTENT.get(kind(q), "2"))
        a, b = sf.scan_file(ctx, p).produces, sf.scan_file(ctx, q).produces
        # a picture request file and its placeholder share a name on purpose
        for x in a:
            for y in b:
                if x == y:
                    s.fail("two sources are published at the same path")
        s.reach("end")

    return fn


PICS = ["src/public/i.png", "src/public/d/i.png", "src/i.png", "src/public2/i.png", "src/publi/i.png", "src/partials/d/i.png"]


def pictures(s):
    """An image request publishes nothing but pictures of src/public."""
    at = s.choice("picture", PICS)
    page = s.choice("page", ["src/public/index.html", "src/public/d/e/index.html", "src/public/r.images.json",
                             "src/public/d/r.images.json"])
    path = ["/", "", "./"][s.choice("absolute", [0, 1, 2])] + "../" * s.choice("steps", [0, 1, 2, 3, 4])
    path = path + s.choice("rest", ["", "d/", "public/", "public2/", "public/d/", "src/public2/", "partials/d/"]) + "i.png"
    js = page.endswith(".json")
    if js:
        text = json.dumps({"x": {"path": path, "width": 4, "height": 4}})
    else:
        text = "<!DOCTYPE html><p>a</p><!--[IMAGE: %s 4 4]-->" % path
    disk = images.Disk(s, {at: ("PNG", 20, 20)})
    disk.fs.put(P + page, text)
    ctx = images.context()
    ctx.auto_generate_images_js_placeholders = False
    if path[0] == "/":
        src = posixpath.normpath("src/public" + path)
    else:
        src = posixpath.normpath(posixpath.join(posixpath.dirname(page), path))
    ok = src == at and src.startswith("src/public/") and not (js and path[0] != "/")
    scan = sf.scan_file(ctx, page)
    for d in scan.dependencies:
        if not ok or d != at:
            s.fail("picture %r asked for by %r as %r: depends on %r" % (at, page, path, d))
    if ok:
        disk.fs.put(P + "out/www/" + at[len("src/public/"):] + ".hash", "h")
    before = list(disk.fs.files)
    res = bf.build_file(ctx, page)
    own = "out/www/" + page[len("src/public/"):]
    if js:
        own = own[:-2]
    top = at[len("src/public/"):-len(".png")] + "/"
    n = 0
    for f in disk.fs.files:
        f = f[len(P):]
        if P + f in before and f != "artifacts" or f.startswith(own):
            continue
        if ok and f.startswith("out/www/" + top):
            n += 1
        elif not (ok and f.startswith("artifacts/" + top)):
            s.fail("picture %r asked for by %r as %r: writes %r" % (at, page, path, f))
    if ok:
        if not n:
            s.fail("picture %r asked for by %r as %r is not published" % (at, page, path))
        s.reach("published")
    else:
        s.reach("refused")


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="publish", fn=publish([0, 1, 2] if q else [0, 1, 2, 3, 4], TOPS, EXT), reach=["public", "private"]),
        dict(name="distinct", fn=distinct([1, 2] if q else [1, 2, 3], ["", ".html", ".js", ".images.json"]), reach=["end"]),
        dict(name="pictures", fn=pictures, reach=["refused", "published"]),
    ]
