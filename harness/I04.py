"""Recorded image targets: found exactly when they were recorded for this request."""
import dataclasses
import json

import vanillaplusjs.build.html.manips.images.metadata as md
from harness import images, memfs
from vanillaplusjs.build.html.manips.images.exporter import export_command
from vanillaplusjs.build.html.manips.images.scanner import scan_command

BOUNDS = ("up to 2 recorded targets per image (processed, reserved or empty), up to 3 requests in a row; every size, crop "
          "and settings field symbolic with 2 or 3 values; image contents and recorded contents any of 128 characters; "
          "two images sharing a name but not an extension; scan, build, change, scan, build again")
OUTSIDE = "digests are taken as injective (SHA-256); more records per image"
STUBS = ["the disk is an in-memory tree", "the settings hash is a symbolic number in lookup scenarios (I03 decides it)",
         "Pillow is a model that records crop, size and format", "the export process pool runs each export on submission"]

ART = "artifacts/a/"
ASCII = "".join(chr(c) for c in range(128))


def target(s, name, wide=True):
    pct = s.choice(name + ".left", [0.5, 0.25]) if wide else 0.5
    pre = md.CropSettingsCover(
        pre_top_crop=s.int(name + ".top", 0, 1) if wide else 0, pre_left_crop=s.int(name + ".pl", 0, 1),
        pre_right_crop=s.int(name + ".pr", 0, 1) if wide else 0, pre_bottom_crop=s.int(name + ".bottom", 0, 1) if wide else 0,
        crop_left_percentage=pct, crop_top_percentage=s.choice(name + ".pt", [0.5, 0]) if wide else 0.5)
    return md.ImageTargetSettings(width=s.int(name + ".w", 1, 3), height=s.int(name + ".h", 1, 3), crop="cover", crop_settings=pre)


def flat(t):
    c = t.crop_settings
    return (t.width, t.height, c.pre_top_crop, c.pre_left_crop, c.pre_right_crop, c.pre_bottom_crop,
            c.crop_left_percentage, c.crop_top_percentage)


def same(a, b):
    r = True
    for x, y in zip(flat(a), flat(b)):
        r = r & (x == y) if r is not True else (x == y)
    return r


def setup(s, **k):
    settings_hash = s.int("settings", 0, 3)
    s.intercept(md.hash_image_settings, lambda x: settings_hash)
    contents = s.char("contents", ASCII)
    disk = images.Disk(s, {"src/public/a.png": (contents, 10, 10)}, **k)
    return disk, settings_hash, contents


def record(s, disk, name, folder, wide=True):
    """Puts a recorded target there; returns a condition: it matches (settings, contents, target)."""
    t = target(s, name, wide)
    kind = s.choice(name + ".kind", ["metadata", "placeholder", "both", "empty"])
    h = s.int(name + ".settings", 0, 3)
    text = s.char(name + ".contents", ASCII)
    tmp = memfs.PROJECT + "/tmp_source"
    if kind in ("metadata", "both"):
        disk.fs.put(tmp, text)
        digest = md.calculate_hash(tmp)
        disk.fs.unlink(tmp)
        m = md.ImageMetadata(
            settings_hash=h, source=md.ImageSource("src/public/a.png", 10, 10, digest),
            target=md.ImageTarget(settings=t, outputs={"jpeg": [md.ImageTargetOutput(1, 1, "a/1/1x1.jpeg", "x")]}))
        disk.fs.put(memfs.PROJECT + "/" + folder + "/metadata.json", json.dumps(md.store_metadata(m)))
    other = t if kind == "placeholder" else target(s, name + ".reserved", False) if kind == "both" else None
    if other is not None:
        disk.fs.put(memfs.PROJECT + "/" + folder + "/placeholder.json",
                    json.dumps({"path": "a.png", **dataclasses.asdict(other)}))
    disk.fs.mkdirs(memfs.PROJECT + "/" + folder)
    if kind == "empty":
        return lambda want, sh, c: False
    if kind == "placeholder":
        return lambda want, sh, c: same(t, want)
    return lambda want, sh, c: same(t, want) & (h == sh) & (text == c)


def lookup(n, wide):
    def fn(s):
        disk, sh, contents = setup(s, folders=["artifacts/a"] if n == 0 else [])
        recs = [record(s, disk, "r%d" % i, ART + str(i + 3), wide) for i in range(n)]
        if s.flag("counter"):
            disk.fs.put(memfs.PROJECT + "/" + ART + "counter.txt", "7")
        want = target(s, "want", wide)
        ctx = images.context()
        if s.flag("built"):
            disk.fs.put(memfs.PROJECT + "/out/www/a.png.hash", md.calculate_hash(memfs.PROJECT + "/src/public/a.png"))
        got = md.get_target(ctx, "a.png", want)
        if got is None:
            for r in recs:
                s.check(r(want, sh, contents) == False, "a recorded target is not found")
            s.reach("none")
        else:
            s.check(got - 3 in range(n), "an id that was not recorded")
            s.check(recs[got - 3](want, sh, contents), "a target recorded for something else is reused")
            s.reach("found")

    return fn


def roundtrip(s):
    """What is stored is what is loaded."""
    where = s.choice("where", ["path", "digest", "relpath", "choice"])

    def txt(field, n=2):
        return s.text(field, n) if field == where else "x" * n

    outs = {}
    first = True
    for f in ("jpeg", "webp")[: s.choice("formats", [1, 2]) if where in ("relpath", "choice") else s.choice("formats", [0, 2])]:
        outs[f] = [md.ImageTargetOutput(s.int("%s%d.w" % (f, i), 0, 4096), s.int("%s%d.h" % (f, i), 0, 4096),
                                        "a/" + txt("relpath" if first and not i else None) + ".x",
                                        txt("choice" if first and not i else None))
                   for i in range(s.choice(f + ".n", [1, 2]))]
        first = False
    m = md.ImageMetadata(
        settings_hash=s.int("hash", 0, 2 ** 64 - 1),
        source=md.ImageSource("src/" + txt("path"), s.int("w", 1, 9999), s.int("h", 1, 9999), txt("digest")),
        target=md.ImageTarget(settings=target(s, "t"), outputs=outs))
    back = md.load_metadata(json.loads(json.dumps(md.store_metadata(m))))
    s.check(back.settings_hash == m.settings_hash, "settings hash")
    a, b = back.source, m.source
    s.check(a.path == b.path, "source path")
    s.check((a.width == b.width) & (a.height == b.height), "source size")
    s.check(a.contents_hash == b.contents_hash, "source contents")
    s.check(same(back.target.settings, m.target.settings), "target settings")
    s.check(sorted(back.target.outputs) == sorted(outs), "formats")
    for f, l in outs.items():
        g = back.target.outputs[f]
        s.check(len(g) == len(l), "number of outputs")
        for x, y in zip(g, l):
            s.check((x.width == y.width) & (x.height == y.height), "output size")
            s.check(x.relpath == y.relpath, "output path")
            s.check(x.choice == y.choice, "output choice")
    s.reach("end")


def requests(n):
    """Targets asked for while scanning: one id each, new ones for new targets only."""

    def fn(s):
        disk, sh, contents = setup(s)
        disk.source("src/public/a.jpg", s.char("contents2", ASCII), 10, 10)
        pre = record(s, disk, "r0", ART + "1", False) if s.flag("recorded") else None
        if pre:
            disk.fs.put(memfs.PROJECT + "/" + ART + "counter.txt", "1")
        ctx = images.context()
        seen = []
        for i in range(n):
            t = target(s, "t%d" % i, False)
            image = s.choice("image%d" % i, ["a.png", "a.jpg"])
            got = md.get_or_reserve_target(ctx, image, t)
            s.check(got > 0, "id")
            if got == 1 and pre:
                c = contents if image == "a.png" else disk.fs.get("src/public/a.jpg")
                s.check(pre(t, sh, c), "a target recorded for something else is reused")
                s.reach("recorded")
            for other, im2, id2 in seen:
                if im2 == image:
                    s.check(same(t, other) == (got == id2), "requests share an id exactly when they are equal")
                elif id2 == got:
                    # sharing is fine only for a processed target of equal contents
                    s.check(pre is not None and got == 1 and disk.fs.get(ART + "1/metadata.json") is not None,
                            "two images share a reserved target")
            s.check(disk.fs.get(ART + str(got) + "/placeholder.json") is not None
                    or disk.fs.get(ART + str(got) + "/metadata.json") is not None, "nothing is reserved")
            seen.append((t, image, got))
        s.reach("end")

    return fn


FORMS = [(4, 0), (8, 0), (4, 2)]


def histories(s):
    """scan, build, possibly change things, scan and build again: the build always finds what was scanned,
    and what it publishes shows the current image."""
    disk = images.Disk(s, {"src/public/a.png": (s.char("c1", ASCII), 20, 20), "src/public/a.jpg": (s.char("c2", ASCII), 20, 20)})
    fs = disk.fs
    P = memfs.PROJECT + "/"
    page = P + "src/public/index.html"

    def hashes():
        for n in ("a.png", "a.jpg"):
            fs.put(P + "out/www/" + n + ".hash", md.calculate_hash(P + "src/public/" + n))

    def run(tag, ctx):
        cmds = []
        for i in range(2 if tag == "first" else 1):
            if i and not s.flag(tag + ".two"):
                break
            w, c = s.choice("%s.form%d" % (tag, i), FORMS)
            cmds.append(images.command("/" + s.choice("%s.image%d" % (tag, i), ["a.png", "a.jpg"]), w, 4, {"pre_top_crop": c}))
        scans = [scan_command(ctx, page, c) for c in cmds]
        hashes()
        for c, sc in zip(cmds, scans):
            m, r = export_command(ctx, page, c)
            used = set(r.produced) | set(r.reused)
            if not used <= set(sc.produces):
                s.fail("the build made or reused something the scan did not declare")
            if r.children != sc.dependencies:
                s.fail("dependencies differ between scan and build")
            outs = [o for l in m.target.outputs.values() for o in l]
            s.check(len(outs) == 1, "number of outputs")
            src = fs.get("src/public" + c.path)
            for o in outs:
                for top in ("out/www/", "artifacts/"):
                    b = fs.get(top + o.relpath)
                    if b is None:
                        s.fail("an announced picture does not exist")
                    s.check(b.source == src, "the picture shows something else than the current image")
                    s.check(b.size == (c.width, c.height), "size")
                    x, y, x2, y2 = b.rect
                    s.check(y >= c.crop_arguments["pre_top_crop"] and (x2 - x) * c.height == (y2 - y) * c.width, "crop")
        return cmds

    ctx = images.context(top=1)
    run("first", ctx)
    what = s.choice("then", ["change", "clean", "settings", "nothing"])
    if what == "change":
        disk.source("src/public/a.png", s.char("c3", ASCII), 20, 20)
    elif what == "clean":
        fs.rmtree(P + "out")
    elif what == "settings":
        ctx = images.context(top=1, step="2")
    else:
        for f in list(fs.files):
            if f.startswith(P + "out/www/a/"):
                fs.unlink(f)
    if what == "change" or what == "settings":
        # a rebuild first removes what the page had published
        for f in list(fs.files):
            if f.startswith(P + "out/www/a/"):
                fs.unlink(f)
    run("second", ctx)
    s.reach(what)


def scenarios(tier):
    quick = tier == "quick"
    out = [
        dict(name="lookup-0", fn=lookup(0, True), reach=["none"]),
        dict(name="lookup-1", fn=lookup(1, True), reach=["none", "found"]),
        dict(name="lookup-2", fn=lookup(2, False), reach=["none", "found"]),
        dict(name="roundtrip", fn=roundtrip, reach=["end"]),
        dict(name="requests", fn=requests(2 if quick else 3), reach=["end", "recorded"]),
        dict(name="histories", fn=histories, reach=["change", "clean", "settings", "nothing"]),
    ]
    return out
