"""The markup made from an image directive."""
from harness import images, memfs
import vanillaplusjs.build.html.manips.images.metadata as md
from vanillaplusjs.build.html.builder import HTMLBuilder
from vanillaplusjs.build.html.manips.images.manip import ImagesManipulator

BOUNDS = ("pictures named by up to 2 arbitrary characters (as a page can write them), 1 to 3 formats in any order with any "
          "default, 1 to 3 resolutions, any of 3 crop forms, absolute and relative paths, pages at depth 0 and 1, arbitrary "
          "neighbouring text; and directives that cannot be honoured")
OUTSIDE = "longer names; more resolutions"
STUBS = ["Pillow is a model", "the export process pool runs each export on submission", "the disk is an in-memory tree"]
P = memfs.PROJECT + "/"
ASCII = "".join(chr(c) for c in range(1, 128))


def unquote(s, url):
    """Reference percent decoding (UTF-8 of up to two bytes is enough here)."""
    out = ""
    i = 0
    n = len(url)
    while i < n:
        c = url[i]
        if c != "%":
            out = out + c
            i += 1
            continue
        if i + 2 >= n:
            return None
        a, b = hexv(url[i + 1]), hexv(url[i + 2])
        if a is None or b is None:
            return None
        out = out + chr(a * 16 + b)
        i += 3
    return out


def hexv(c):
    if "0" <= c and c <= "9":
        return ord(c) - 48
    if "A" <= c and c <= "F":
        return ord(c) - 55
    if "a" <= c and c <= "f":
        return ord(c) - 87
    return None


# characters that end or change the path part of a url, or the url in a srcset
SPECIAL = "?#\\\"<>`{}^|"


def clean_url(s, url):
    for c in url:
        if "!" <= c and c <= "~":
            if c in SPECIAL:
                return False
        else:
            return False
    return True


def srcset(text):
    out = []
    for part in text.split(", "):
        url, _, w = part.rpartition(" ")
        if w[-1:] != "w":
            return None
        out.append((url, w[:-1]))
    return out


def build(s, disk, ctx, relpath, comment, around=""):
    m = ImagesManipulator(ctx, relpath, "scan")
    toks = [{"type": "Characters", "data": around}, {"type": "Comment", "data": comment}, {"type": "Characters", "data": "end"}]
    b = HTMLBuilder([m])
    for t in toks:
        b.handle_token(dict(t))
    s.check(len(b.consume_tokens()) == 3, "scanning changes the page")
    scan = m.scan_result()
    for f in list(disk.fs.files):
        if f.endswith(".png"):
            disk.fs.put(P + "out/www/" + f[len(P + "src/public/"):] + ".hash", md.calculate_hash(f))
    m = ImagesManipulator(ctx, relpath, "build")
    b = HTMLBuilder([m])
    for t in toks:
        b.handle_token(dict(t))
    return toks, b.consume_tokens(), scan, m.build_result()


def markup(names, formats, tops):
    def fn(s):
        s.intercept(md.hash_image_settings, lambda x: 7)
        name = ""
        for i in range(s.choice("length", names)):
            c = s.char("name%d" % i, ASCII)
            s.assume(not c.isspace())
            s.assume(c != "/")
            s.assume(c != ".")
            name = name + c
        top = s.choice("top", tops)
        fmts = s.choice("formats", formats)
        default = s.choice("default", range(len(fmts))) if len(fmts) > 1 else 0
        relpath, path, at = s.choice("place", [
            ("src/public/index.html", "/%s.png", "src/public/%s.png"), ("src/public/p/index.html", "/p/%s.png", "src/public/p/%s.png"),
            ("src/public/p/index.html", "../%s.png", "src/public/%s.png"), ("src/public/p/index.html", "%s.png", "src/public/p/%s.png"),
        ])
        path = path.replace("%s", name)
        at = at.replace("%s", name)
        # "x" alone starting with "/" is the absolute form; a backslash is an ordinary character
        w = s.choice("width", [4, 10])
        lazy = s.choice("lazy", ["", " cover", ' cover {"pre_top_crop": 2}', ' cover {"pre_top_crop": 2} eager', " cover {} lazy"])
        disk = images.Disk(s, {at: ("PNG", 20, 20)})
        ctx = images.context(formats=fmts, default=fmts[default], top=top, step="1")
        toks, out, scan, res = build(s, disk, ctx, relpath, " [IMAGE: " + path + " " + str(w) + " 4" + lazy + "] ", "x")
        s.check(out[0] == toks[0] and out[-1] == toks[-1], "the neighbours changed")
        els = out[1:-1]
        kinds = [(t["type"], t.get("name")) for t in els]
        want = [("StartTag", "picture")] + [("EmptyTag", "source")] * (len(fmts) - 1) + [("EmptyTag", "img"), ("EndTag", "picture")]
        if kinds != want:
            s.fail("the directive does not become one picture with a source per further format: %r" % (kinds,))
        made = {}
        for p, blob in disk.fs.tree("out/www").items():
            if isinstance(blob, images.Blob):
                made.setdefault(blob.fmt, []).append((p[len("out/www"):], blob))
        s.check(len(made) == len(fmts), "formats")

        def same(text, fmt):
            items = srcset(text)
            mine = list(made[fmt])
            if items is None or len(items) != len(mine):
                s.fail("the pictures listed are not those produced")
            s.check(len({b.size for _, b in mine}) == len(mine), "sizes")
            for url, wd in items:
                s.check(clean_url(s, url), "a url with characters that mean something else there")
                dec = unquote(s, url)
                hit = [b for p, b in mine if p == dec]
                if len(hit) != 1:
                    s.fail("a url that leads to no produced picture")
                s.check(str(hit[0].size[0]) == wd, "announced width")

        rest = [f for i, f in enumerate(fmts) if i != default]
        for tok, f in zip(els[1:-2], rest):
            a = {k: v for (_, k), v in tok["data"].items()}
            if sorted(a) != ["srcset"] and sorted(a) != ["srcset", "type"]:
                s.fail("source attributes")
            same(a["srcset"], f)
        a = {k: v for (_, k), v in els[-2]["data"].items()}
        s.check(a.get("width") == str(w) and a.get("height") == "4", "size of the fallback image")
        same(a["srcset"], fmts[default])
        dec = unquote(s, a["src"])
        hit = [b for p, b in made[fmts[default]] if p == dec]
        s.check(clean_url(s, a["src"]), "a url with characters that mean something else there")
        if len(hit) != 1 or hit[0].size != (w, 4):
            s.fail("the fallback image has not the requested size")
        s.check((a.get("loading") == "lazy") == ("eager" not in lazy), "laziness")
        declared = list(scan.produces)
        for p in list(res.produced) + list(res.reused):
            if p not in declared:
                s.fail("something made was not declared by the scan")
        if len(res.children) != 1 or list(res.children) != list(scan.dependencies):
            s.fail("dependencies of scan and build differ")
        s.check(res.children[0] == at, "the page does not depend on the picture")
        for p, b in [x for l in made.values() for x in l]:
            if "out/www" + p not in list(res.produced):
                s.fail("the result does not list the picture")
        s.reach("lazy" if "eager" not in lazy else "eager")

    return fn


BAD = ["[IMAGE: /a.png 21 4]", "[IMAGE: /a.png 4 21]", "[IMAGE: /none.png 4 4]", '[IMAGE: /a.png 10 4 cover {"pre_left_crop": 11}]',
       '[IMAGE: /a.png 10 4 cover {"pre_top_crop": 17}]', "[IMAGE /a.png 4 4]", "IMAGE: /a.png 4 4", "[IMAGE: /a.png 4 4] x", ""]


def left_alone(s):
    """What cannot be honoured stays as it is and makes nothing."""
    s.intercept(md.hash_image_settings, lambda x: 7)
    disk = images.Disk(s, {"src/public/a.png": ("PNG", 20, 20)})
    ctx = images.context()
    toks, out, scan, res = build(s, disk, ctx, "src/public/index.html", s.choice("text", BAD))
    s.check(out == toks, "a comment that is no usable directive is changed")
    s.check(scan.produces == [] and res.produced == [] and res.reused == [], "something is produced for it")
    s.check([b for b in disk.fs.tree("out/www").values() if isinstance(b, images.Blob)] == [], "something is published for it")
    s.reach("end")


def scenarios(tier):
    quick = tier == "quick"
    return [
        dict(name="names", fn=markup([1] if quick else [1, 2], [("jpeg",)], [1]), reach=["lazy", "eager"]),
        dict(name="formats", fn=markup([0], [("jpeg",), ("jpeg", "webp"), ("png", "jpeg", "webp")], [1, 2, 3]), reach=["lazy", "eager"]),
        dict(name="left-alone", fn=left_alone, reach=["end"]),
    ]
