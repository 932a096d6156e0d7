"""The module made from a list of pictures."""
import json
import os

from harness import images, memfs
import vanillaplusjs.build.handlers.image_glue as glue
import vanillaplusjs.build.handlers.hash as hh
import vanillaplusjs.build.html.manips.images.metadata as md
from harness.H04 import clean_url, unquote
from vanillaplusjs.build.build_file import build_file
from vanillaplusjs.build.scan_file import scan_file

BOUNDS = ("lists of up to 2 (thorough 3) entries with arbitrary one-character (thorough two-character) names for pictures whose file name holds an arbitrary "
          "character, 1 or 2 formats, up to 3 resolutions, 4 crop forms, the list in a folder of any depth up to 1, with or without "
          "a hand-written module beside it and with or without generated placeholders; built once, or again with another list; "
          "malformed entries of 16 kinds")
OUTSIDE = ("a file that is not JSON; an entry named __proto__; longer names")
STUBS = ["Pillow is a model", "the export process pool runs each export on submission", "the disk is an in-memory tree",
         "the digest of a file is an injective function of its contents"]
P = memfs.PROJECT + "/"
ASCII = "".join(chr(c) for c in range(33, 127) if chr(c) not in "/.")
CROPS = [None, {}, {"pre_top_crop": 2}, {"pre_left_crop": 3, "crop_left_percentage": 0.25, "crop_top_percentage": 1}]
FULL = {"pre_top_crop": 0, "pre_left_crop": 0, "pre_right_crop": 0, "pre_bottom_crop": 0, "crop_left_percentage": 0.5,
        "crop_top_percentage": 0.5}


def expected_blobs(disk):
    return {p[len("out/www"):]: b for p, b in disk.fs.tree("out/www").items() if isinstance(b, images.Blob)}


def module(s, disk, path):
    """The object the module exports."""
    f = P + path
    if f not in disk.fs.files:
        s.fail("no module is published")
    text = disk.fs.astext(disk.fs.files[f])
    head, tail = "export default ", ";\n"
    s.check(text[: len(head)] == head and text[-len(tail):] == tail, "the module does not export one value")
    return json.loads(text[len(head): -len(tail)])


def check_module(s, disk, got, entries, sources):
    s.check(len(got) == len(entries), "number of pictures in the module")
    blobs = expected_blobs(disk)
    used = []
    for name, e in entries:
        hit = [v for k, v in got.items() if k == name]
        if len(hit) != 1:
            s.fail("a picture is not listed under its name")
        t = hit[0]["target"]
        st = t["settings"]
        s.check(st["width"] == e["width"] and st["height"] == e["height"] and st["crop"] == "cover", "settings of the picture")
        crop = dict(FULL)
        crop.update(e.get("crop_arguments") or {})
        s.check(st["crop_settings"] == crop, "crop settings of the picture")
        mine = 0
        for fmt, outs in t["outputs"].items():
            seen = []
            for o in outs:
                url = o["url"]
                s.check(clean_url(s, url), "a url with characters that mean something else there")
                dec = unquote(s, url)
                b = [x for p, x in blobs.items() if p == dec]
                if len(b) != 1:
                    s.fail("a url that leads to no published picture")
                b = b[0]
                s.check(b.fmt == fmt, "listed under another format")
                s.check(b.size == (o["width"], o["height"]), "announced size")
                s.check(b.source == sources[e["path"]], "a picture of another source")
                s.check(b.size[0] * e["height"] == b.size[1] * e["width"], "shape of the picture")
                s.check(o["choice"] == "x", "export")
                s.check(b.size not in seen, "listed twice")
                seen.append(b.size)
                used.append(b)
                mine += 1
            s.check((e["width"], e["height"]) in seen, "the requested size is missing")
        s.check(sorted(t["outputs"]) == sorted(s.ctx_formats), "formats")
    for b in blobs.values():
        s.check(any(b is u for u in used), "a published picture is not listed")


def entry(s, tag, path, crops=CROPS, widths=(4, 10)):
    w = s.choice(tag + ".width", widths)
    e = {"path": path, "width": w, "height": 4}
    c = s.choice(tag + ".crop", crops)
    if c is not None:
        e["crop_arguments"] = dict(c)
    if len(crops) > 1 and s.flag(tag + ".plain"):
        e["lazy"] = False
        e["crop_style"] = "cover"
    return e


def publish_hashes(disk):
    for f in list(disk.fs.files):
        if f.endswith(".png"):
            disk.fs.put(P + "out/www/" + f[len(P + "src/public/"):] + ".hash", md.calculate_hash(f))


def run(s, disk, ctx, rel):
    scan = scan_file(ctx, rel)
    for p, t in (scan.placeholders or {}).items():
        disk.fs.put(P + p, t)
    publish_hashes(disk)
    return scan, build_file(ctx, rel)


def setup(s, entries, folder, fmts, top, sources, rel, context=None):
    s.intercept(md.hash_image_settings, lambda x: 7)
    s.ctx_formats = fmts
    disk = images.Disk(s, {"src/public" + p: (t, 20, 20) for p, t in sources.items()})
    ctx = images.context(formats=fmts, default=fmts[0], top=top, step="1")
    return disk, ctx


def lists(n, nlen, crops, tops, formats, beside=True, widths=(4, 10)):
    def fn(s):
        char = s.char("file", ASCII) if nlen else "x"
        pa, pb = "/p" + char + ".png", "/d/q.png"
        sources = {pa: "A", pb: "B"}
        folder = s.choice("folder", ["", "d/"]) if beside else "d/"
        rel = "src/public/" + folder + "l.images.json"
        outp = "out/www/" + folder + "l.images.js"
        srcjs = "src/public/" + folder + "l.images.js"
        fmts = s.choice("formats", formats)
        disk, ctx = setup(s, None, folder, fmts, s.choice("top", tops), sources, rel)
        ctx.auto_generate_images_js_placeholders = beside and s.flag("placeholders")
        mine = beside and s.flag("own module")
        if mine:
            disk.fs.put(P + srcjs, "mine")
        entries = []
        for i in range(n):
            name = s.text("name%d" % i, nlen) if nlen else "n%d" % i
            for other, _ in entries:
                s.assume(name != other)
            entries.append((name, entry(s, "e%d" % i, pa if i == 0 else s.choice("e%d.path" % i, [pa, pb]), crops, widths)))
        disk.fs.put(P + rel, json.dumps(dict(entries)))
        before = [f for f in disk.fs.files if f.startswith(P + "src/")]
        scan, res = run(s, disk, ctx, rel)
        if mine:
            s.check(disk.fs.files[P + srcjs] == "mine", "a hand-written module is replaced")
        else:
            s.check((P + srcjs in disk.fs.files) == ctx.auto_generate_images_js_placeholders, "placeholder")
        for f in disk.fs.files:
            if f.startswith(P + "src/"):
                s.check(f == P + srcjs or any(f == b for b in before), "a file is made beside the sources")
        got = module(s, disk, outp)
        check_module(s, disk, got, entries, sources)
        made = list(res.produced) + list(res.reused)
        for f in (outp, outp + ".hash"):
            s.check(f in made, "the result does not list %s" % f)
        s.check(disk.fs.astext(disk.fs.files[P + outp + ".hash"]) == hh.calculate_hash(P + outp), "the stored digest is not that of the module")
        if P + srcjs in disk.fs.files:
            # what is in the sources never reaches the page
            text = disk.fs.files[P + outp]
            r2 = build_file(ctx, srcjs)
            s.check(list(r2.produced) + list(r2.reused) == [], "the placeholder is published")
            s.check(disk.fs.files[P + outp] is text, "the placeholder replaces the module")
        s.reach("end")

    return fn


def again(s):
    """The list changes; what an outdated output was is removed before it is built again, as the rebuild does."""
    sources = {"/p.png": "A", "/d/q.png": "B"}
    rel, outp = "src/public/l.images.json", "out/www/l.images.js"
    disk, ctx = setup(s, None, "", ("jpeg",), 2, sources, rel)
    produced = []
    for n in (1, 2):
        entries = []
        for name in ("a", "b"):
            if s.flag("%d.%s" % (n, name)):
                entries.append((name, entry(s, "%d.%s." % (n, name), s.choice("%d.%s.path" % (n, name), list(sources)), CROPS[2 * n - 1:2 * n], [4, 10] if n == 2 else [10])))
        disk.fs.put(P + rel, json.dumps(dict(entries)))
        for f in produced:
            if f.startswith("out/") and P + f in disk.fs.files:
                disk.fs.unlink(P + f)
        if n == 2 and s.flag("the first source changed"):
            sources["/p.png"] = "A2"
            disk.source("src/public/p.png", "A2", 20, 20)
        scan, res = run(s, disk, ctx, rel)
        produced = list(res.produced) + list(res.reused)
        check_module(s, disk, module(s, disk, outp), entries, sources)
        s.check(disk.fs.astext(disk.fs.files[P + outp + ".hash"]) == hh.calculate_hash(P + outp), "the stored digest is not that of the module")
    s.reach("end")


BAD = [("path", 5), ("path", "p.png"), ("path", "/none.png"), ("path", "/../../vanillaplusjs.json"), ("path", None), ("width", 0),
       ("width", 21), ("width", "4"), ("width", None), ("height", -1), ("height", 4.5), ("crop_style", "contain"),
       ("crop_arguments", []), ("crop_arguments", {"top": 1}), ("crop_arguments", {"pre_top_crop": 17}), ("all", [1])]


def malformed(s):
    """A list with an entry that cannot be honoured makes nothing and fails nothing."""
    sources = {"/p.png": "A"}
    rel = "src/public/l.images.json"
    disk, ctx = setup(s, None, "", ("jpeg",), 1, sources, rel)
    ctx.auto_generate_images_js_placeholders = s.flag("placeholders")
    good = {"path": "/p.png", "width": 4, "height": 4}
    key, val = s.choice("bad", BAD)
    bad = dict(good)
    if val is None:
        del bad[key]
    else:
        bad[key] = val
    if key == "all":
        bad = val
    data = s.choice("order", [{"good": good, "bad": bad}, {"bad": bad, "good": good}, [bad], {"bad": bad}])
    disk.fs.put(P + rel, json.dumps(data))
    disk.fs.put(P + "vanillaplusjs.json", "{}")
    before = dict(disk.fs.files)
    scan = scan_file(ctx, rel)
    publish_hashes(disk)
    res = build_file(ctx, rel)
    s.check(list(scan.produces) == [] and not scan.placeholders, "the scan announces something")
    s.check(list(res.produced) + list(res.reused) == [], "something is made")
    for f in disk.fs.files:
        if f not in before and not f.endswith(".png.hash"):
            s.fail("%s is made" % s.conc(f))
    s.reach("end")


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="names", fn=lists(1, 1, CROPS[2:3], [1], [("jpeg",)], False, [4]), reach=["end"]),
        dict(name="shapes", fn=lists(1, 0, CROPS, [1, 3], [("jpeg",), ("jpeg", "webp")]), reach=["end"]),
        dict(name="two", fn=lists(2, 0, CROPS[1:3], [2], [("jpeg",), ("jpeg", "webp")], False), reach=["end"]),
        dict(name="again", fn=again, reach=["end"]),
        dict(name="malformed", fn=malformed, reach=["end"]),
    ] + ([] if q else [
        dict(name="two names", fn=lists(2, 1, CROPS[1:2], [2], [("jpeg",)], False, [4]), reach=["end"]),
        dict(name="longer name", fn=lists(1, 2, CROPS[1:2], [1], [("jpeg",)], False, [4]), reach=["end"]),
        dict(name="three", fn=lists(3, 0, CROPS[1:3], [1], [("jpeg",)], False), reach=["end"])])
