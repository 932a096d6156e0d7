"""Inline image data in style sheets becomes a file."""
import hashlib

import vanillaplusjs.build.handlers.css as css
from vanillaplusjs.constants import PROCESSOR_VERSION
from urllib.parse import parse_qs
from harness import cssref, images, memfs
from harness.C03 import urls
from symx import iset

BOUNDS = ("quoted data urls of every kind (9 types, 11 parameter lists) with up to 3 (thorough 4) arbitrary payload characters, percent-encoded and base64, "
          "padding and white space included; fragments of up to 1 character; near misses; up to 3 images in a file, equal or not; sheets at three depths")
OUTSIDE = ("NUL and CR characters, lone surrogates; unquoted urls (left as they are); tabs and line breaks inside of a plain payload; longer payloads; "
           "what the image formats mean")
STUBS = ["the disk is an in-memory tree", "sha256 is a stand-in that numbers contents"]
ANY = iset.rng(1, 8) | iset.rng(11, 11) | iset.rng(14, 0xD7FF) | iset.rng(0xE000, 0x10FFFF)
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


class Hash:
    """sha256 for contents that may be symbolic."""

    seen = []

    def __init__(self, data=b""):
        self.data = data

    def update(self, data):
        self.data = self.data + data

    def digest(self):
        for i, d in enumerate(Hash.seen):
            if d == self.data:
                return b"%032d" % i
        Hash.seen.append(self.data)
        return b"%032d" % (len(Hash.seen) - 1)

    def hexdigest(self):
        return self.digest().hex()


def setup(s, files):
    fs = memfs.FS(s, files)
    Hash.seen = []
    s.intercept(hashlib.sha256, Hash)
    return fs, images.context()


def utf8(c):
    """The bytes of a character."""
    o = ord(c)
    if o < 0x80:
        return [o]
    if o < 0x800:
        return [192 + o // 64, 128 + o % 64]
    if o < 0x10000:
        return [224 + o // 4096, 128 + o // 64 % 64, 128 + o % 64]
    return [240 + o // 262144, 128 + o // 4096 % 64, 128 + o // 64 % 64, 128 + o % 64]


def nibble(c):
    o = ord(c)
    if o >= 48 and o <= 57:
        return o - 48
    if o >= 65 and o <= 70:
        return o - 55
    if o >= 97 and o <= 102:
        return o - 87
    return -1


def percent(t):
    """https://url.spec.whatwg.org/#percent-decode"""
    out = []
    i = 0
    while i < len(t):
        if t[i] == "%" and i + 2 < len(t) and nibble(t[i + 1]) >= 0 and nibble(t[i + 2]) >= 0:
            out.append(nibble(t[i + 1]) * 16 + nibble(t[i + 2]))
            i += 3
        else:
            out += utf8(t[i])
            i += 1
    return out


def sextet(o):
    if o >= 65 and o <= 90:
        return o - 65
    if o >= 97 and o <= 122:
        return o - 71
    if o >= 48 and o <= 57:
        return o + 4
    if o == 43:
        return 62
    if o == 47:
        return 63
    return -1


def base64(data):
    """https://infra.spec.whatwg.org/#forgiving-base64-decode; None for what is not base64."""
    cs = []
    for o in data:
        if not (o == 32 or o == 9 or o == 10 or o == 12 or o == 13):
            cs.append(o)
    if len(cs) % 4 == 0:
        for k in (1, 2):
            if cs and cs[-1] == 61:
                cs = cs[:-1]
    if len(cs) % 4 == 1:
        return None
    vals = []
    for o in cs:
        v = sextet(o)
        if v < 0:
            return None
        vals.append(v)
    out = []
    i = 0
    while i < len(vals):
        q = vals[i:i + 4]
        if len(q) > 1:
            out.append(q[0] * 4 + q[1] // 16)
        if len(q) > 2:
            out.append(q[1] % 16 * 16 + q[2] // 4)
        if len(q) > 3:
            out.append(q[2] % 4 * 64 + q[3])
        i += 4
    return out


def equal(s, data, want):
    """Are the file's contents these bytes?"""
    data = data.encode("utf-8") if hasattr(data, "encode") else data
    if len(data) != len(want):
        return False
    r = True
    for i in range(len(want)):
        r = r & (data[i] == want[i])
    return r


TYPES = ["png", "svg+xml", "jpeg", "gif", "vnd.microsoft.icon", "x-icon", "webp", "avif", "PNG"]
PARAMS = ["", ";charset=utf-8", ";utf8", ";a=b;c=d", ";base64", ";charset=x;base64", ";BASE64", ";xbase64", ";base64;x", ";base64=1", ";"]


def run(s, rel, url, kind, params, payload, fragment, text):
    """One image; what a browser would decode is what must be published."""
    fs, ctx = setup(s, {})
    fs.put(memfs.PROJECT + "/" + rel, text)
    data = percent(payload)
    if params.lower().endswith(";base64"):
        data = base64(data)
    scan = css.scan_file(ctx, rel)
    res = css.build_file(ctx, rel)
    out = "out/www/" + rel[len("src/public/"):]
    toks = cssref.tokens(fs.text(out))
    a = cssref.tokens(text)
    got = urls(toks)
    if data is None or len(payload) == 0:
        s.check(cssref.same(a, toks), "what is not an image was changed")
        s.check(len(scan.produces) == 2 and len(res.produced) == 2, "a file was produced for what is not an image")
        s.reach("kept")
        return
    base = "img/gen/" + rel[len("src/public/"):-4] + "/"
    ext = kind.split("+")[0]
    name = "/" + base + "1." + ext
    file = "out/www" + name
    want = sorted([out, out + ".hash", file, file + ".hash"])
    s.check(sorted(scan.produces) == want, "scanning does not declare the file")
    s.check(sorted(res.produced) == want, "building does not declare the file")
    s.check(not scan.dependencies and not res.children and not res.reused, "the sheet depends on another file")
    s.check(len(got) == 1 and got[0].startswith(name + "?"), "the url does not refer to the file")
    d = fs.get(file)
    if d is None:
        s.fail("the file is missing")
    s.check(equal(s, d, data), "the file has other contents than the image")
    q = got[0][len(name) + 1:]
    s.check(q.endswith(fragment), "the fragment is gone")
    q = s.conc(q[:len(q) - len(fragment)])
    s.check(parse_qs(q, strict_parsing=True) == {"v": [s.conc(fs.text(file + ".hash"))], "pv": [PROCESSOR_VERSION]}, "the url has another version")
    for i in range(len(a)):
        if a[i][0] != "url" and a[i][0] != "string":
            s.check(cssref.same([a[i]], [toks[i]]), "another token was changed")
    s.check(len(a) == len(toks), "the sheet has other tokens")
    s.reach("file")


def css_string(s, u):
    out = ""
    for c in u:
        if c == "\\" or c == '"':
            out = out + "\\" + c
        elif c < " ":
            out = out + "\\" + hex(ord(c))[2:] + " "
        else:
            out = out + c
    return 'url("' + out + '")'


def scen(kinds, params, pays, frags, rels=("src/public/p.css",)):
    def fn(s):
        rel = s.choice("file", list(rels))
        kind = s.choice("type", kinds)
        par = s.choice("params", params)
        payload = pays(s)
        frag = s.choice("fragment", frags)
        url = "data:image/" + kind + par + "," + payload + frag
        run(s, rel, url, kind, par, payload, frag, "a { b: c " + css_string(s, url) + " d, e }")

    return fn


def chars(dom, sizes, pre=("",), post=("",)):
    def f(s):
        return s.choice("before", list(pre)) + s.text("x", s.choice("length", list(sizes)), dom) + s.choice("after", list(post))

    return f


NEAR = ["data:text/plain,a", "data:image,a", "data:image/,a", "data:image/png", "data:image/png;base64", "data:,a", "data:image/p/../../x,a", "data:image/p/q,a",
        "DATA:image/png,a", " data:image/png,a", "data:image/png;base64,A", "data:image/png;base64,A===", "data:image/png;base64,AB=C", "x/data:image/png,a",
        "data:image/#,a", "data:image/png,", "data:image/png,#a", "data: image/png,a", "data:image/../../../x;,a", "data:image/ png,a"]


def near(s):
    """What is not image data stays as it is."""
    rel = "src/public/p.css"
    u = s.choice("url", NEAR)
    q = s.choice("quote", ['"', "'"])
    f = s.choice("function", ["url", "URL", "foo"])
    if f == "foo":
        u = "data:image/png,a"
    text = "a{b:" + f + "(" + q + u + q + ")}"
    fs, ctx = setup(s, {rel: text})
    scan = css.scan_file(ctx, rel)
    res = css.build_file(ctx, rel)
    if not cssref.same(cssref.tokens(text), cssref.tokens(fs.text("out/www/p.css"))):
        s.fail("%r became %r" % (text, fs.text("out/www/p.css")))
    two = ["out/www/p.css", "out/www/p.css.hash"]
    if sorted(scan.produces) != two or sorted(res.produced) != two or scan.dependencies or res.children:
        s.fail("scanning reports %r, building %r" % (scan, res))
    extra = [k for k in fs.files if not (fs.rel(k) in two or fs.rel(k) == rel)]
    if extra:
        s.fail("files appeared: %r" % extra)
    s.reach("end")


SEVERAL = [("png", ";base64,YWI=", b"ab"), ("png", ";base64,YWJj", b"abc"), ("png", ",ab", b"ab"), ("gif", ",ab", b"ab"), ("png", ";x=y,a%62", b"ab"), ("png", ",%ff", b"\xff")]


def several(s):
    """Equal images share a file, different ones do not."""
    rel = s.choice("file", ["src/public/p.css", "src/public/d/e.f.css", "src/public/img/gen/p.css"])
    n = s.choice("images", [0, 1, 2, 3])
    text = ""
    imgs = []
    for i in range(n):
        k = s.choice("image%d" % i, SEVERAL if i < 2 else SEVERAL[::2])
        sep = s.choice("form%d" % i, [0, 1, 2]) if i < 2 else 0
        imgs.append(k)
        text += ["a{b:url('data:image/%s%s')}", "a{b:url(/x.png),URL(\"data:image/%s%s\"),c}", "@import url('data:image/%s%s');\n"][sep] % k[:2]
    fs, ctx = setup(s, {rel: text, "out/www/x.png.hash": "h"})
    scan = css.scan_file(ctx, rel)
    res = css.build_file(ctx, rel)
    out = "out/www/" + rel[len("src/public/"):]
    got = [u for u in urls(cssref.tokens(fs.text(out))) if not u.startswith("/x.png")]
    if len(got) != n:
        s.fail("%d urls instead of %d" % (len(got), n))
    produced = {out, out + ".hash"}
    names = {}
    for u, k in zip(got, imgs):
        path = u.split("?")[0]
        f = "out/www" + path
        produced |= {f, f + ".hash"}
        if fs.get(f) is None or fs.get(f) not in (k[2], k[2].decode("latin-1")):
            s.fail("%s has %r instead of %r" % (f, fs.get(f), k[2]))
        if not f.endswith("." + k[0]):
            s.fail("%s is not called .%s" % (f, k[0]))
        if not f.startswith("out/www/img/gen/" + rel[len("src/public/"):-4] + "/") or "/" in f[len("out/www/img/gen/" + rel[len("src/public/"):-4] + "/"):]:
            s.fail("%s is not among the sheet's own files" % f)
        if names.setdefault((k[0], k[2]), path) != path:
            s.fail("equal images were written twice")
    if len(set(names.values())) != len(names):
        s.fail("different images share a file")
    for g in (scan.produces, res.produced):
        if set(g) != produced or len(g) != len(produced):
            s.fail("reported as produced: %r instead of %r" % (sorted(g), sorted(produced)))
    dep = ["out/www/x.png.hash"] if "/x.png" in text else []
    if list(scan.dependencies) != dep or list(res.children) != dep:
        s.fail("dependencies %r, %r instead of %r" % (scan.dependencies, res.children, dep))
    s.reach("end")


def rebuilt(s):
    """Files left over from before do not decide what is published, in whatever folder the build runs."""
    rel = "src/public/p.css"
    fs, ctx = setup(s, {rel: "a{b:url('data:image/png,new')}", "out/www/img/gen/p/1.png": "old"})
    for k in (memfs.CWD + "/out/www/img/gen/p/1.png",):
        if s.flag("in cwd"):
            fs.put(k, "other")
    css.build_file(ctx, rel)
    if fs.text("out/www/img/gen/p/1.png") != "new":
        s.fail("a file that was there before was taken for the image")
    s.reach("end")


ODD = ["", ";base64"]
RELS = ("src/public/p.css", "src/public/d/p.css", "src/public/d/e/p.q.css")


def scenarios(tier):
    q = tier == "quick"
    ANYP = ANY - iset.chars("#")
    out = [
        dict(name="types", fn=scen(TYPES, PARAMS, chars(ANYP, (1,), post=("QQ=",)), ["", "#f"], RELS[:1] if q else RELS), reach=["file", "kept"]),
        dict(name="places", fn=scen(TYPES[:2], ["", ";base64"], chars("AB", (1,), post=("QQ=", "Q==")), ["", "#f"], RELS), reach=["file"]),
        dict(name="plain", fn=scen(["svg+xml"], ["", ";x"], chars(ANYP, (0, 1, 2) if q else (0, 1, 2, 3), post=("", "<")), [""]), reach=["file", "kept"]),
        dict(name="percent", fn=scen(["png"], [""], chars(iset.chars("0123456789abcdefABCDEFgG%-\u0660"), (2, 3), pre=("%", "a%", "%%")), [""]), reach=["file"]),
        dict(name="base64", fn=scen(["png"], [";base64"], chars(ANYP, (1, 2) if q else (1, 2, 3), pre=("", "Zm", "AA=="), post=("", "=", "==", "A=", "%3D")), [""]),
             reach=["file", "kept"]),
        dict(name="quads", fn=scen(["png"], [";base64"], chars(iset.chars(B64), (3, 4), post=("", "AB==")), [""]), reach=["file", "kept"]),
        dict(name="white", fn=scen(["png"], [";base64"], chars(iset.chars(" \t\n=A%2\x0b"), (1, 2, 3), pre=("A", "AB"), post=("", "CD")), [""]), reach=["file", "kept"]),
        dict(name="near", fn=near, reach=["end"]),
        dict(name="several", fn=several, reach=["end"]),
        dict(name="rebuilt", fn=rebuilt, reach=["end"]),
    ]
    return out
