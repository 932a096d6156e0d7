"""Which export of a picture is published, and what it shows."""
from decimal import Decimal

from harness import images, memfs
from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
from vanillaplusjs.build.html.manips.images.exporter import export_command
from vanillaplusjs.build.html.manips.images.scanner import scan_command
import vanillaplusjs.build.html.manips.images.metadata as md
from vanillaplusjs.build.html.manips.images.settings import ImageExport, ImageFormat, ImageSettings

BOUNDS = ("up to 3 exports of one format and 2 of another, preferences 1, 2, 3, 5, encoded sizes and the minimum size any number up "
          "to 10^6 (symbolic), area limits any number up to 10^4 (symbolic), 1 to 3 resolutions; pictures of any size from 24 "
          "to 40 cropped to 8x4 with any minimum crops up to 4")
OUTSIDE = "more exports per format; what the encoders themselves do"
STUBS = ["Pillow is a model that records crop, size, format and options; encoded sizes are symbolic",
         "the export process pool runs each export on submission", "the disk is an in-memory tree"]

P = memfs.PROJECT + "/"


def run(s, fmts, crop, width, height, dims, step, top, measured=True):
    sizes = {}

    def nbytes(fmt, kwargs, size):
        k = (fmt, kwargs["name"], size)
        if k not in sizes:
            sizes[k] = s.int("bytes.%s.%s.%dx%d" % (fmt, kwargs["name"], size[0], size[1]), 1, 10 ** 6)
        return sizes[k]

    disk = images.Disk(s, {"src/public/a.png": ("PNG", dims[0], dims[1])}, nbytes=nbytes if measured else None)
    fs = disk.fs
    s.intercept(md.hash_image_settings, lambda x: 77)
    ctx = images.context()
    ctx.image_settings = ImageSettings(formats=fmts, default_format="jpeg", maximum_resolution=top, resolution_step=Decimal(step))
    cmd = images.command("/a.png", width, height, crop)
    page = P + "src/public/index.html"
    scan_command(ctx, page, cmd)
    fs.put(P + "out/www/a.png.hash", md.calculate_hash(P + "src/public/a.png"))
    meta, res = export_command(ctx, page, cmd)
    return fs, sizes, meta, res


def exports(counts, step, top, wide):
    def fn(s):
        fmts = {}
        for f, n in counts.items():
            ex = {}
            prefs = s.choice(f + ".prefs", [(1, 1, 1), (1, 2, 5), (5, 1, 2)] if wide else [(1, 3, 2)])
            for i in range(n):
                kind = s.choice("%s%d.limits" % (f, i), [0, 1, 2, 3] if wide and not i else [0, 1])
                lo = s.int("%s%d.min" % (f, i), 0, 10 ** 4) if kind & 1 else None
                hi = s.int("%s%d.max" % (f, i), 0, 10 ** 4) if kind & 2 else None
                ex["x%d" % i] = ImageExport(lo, hi, prefs[i], {"name": "x%d" % i})
            fmts[f] = ImageFormat(name=f, exports=ex, minimum_unit_size_bytes=s.int(f + ".minimum", 0, 10 ** 6))
        fs, size, meta, res = run(s, fmts, {}, 8, 4, (32, 16), step, top)
        published = {}
        for path, blob in fs.tree("out/www/a").items():
            published[(blob.fmt, blob.size)] = (path, blob)
        n = 0
        for f, fmt in fmts.items():
            outs = meta.target.outputs.get(f, [])
            k = Decimal(1)
            while 8 * k <= 32 and k <= top:
                wh = (int(8 * k), int(4 * k))
                k += Decimal(step)
                mine = [o for o in outs if (o.width, o.height) == wh]
                names = [e for e, x in fmt.exports.items() if (f, e, wh) in size]
                for e, x in fmt.exports.items():
                    area = wh[0] * wh[1]
                    fits = (True if x.min_area_px2 is None else area >= x.min_area_px2)
                    fits2 = (True if x.max_area_px2 is None else area <= x.max_area_px2)
                    s.check(fits if e in names else True, "an export is made for a size it is not meant for")
                    s.check(fits2 if e in names else True, "an export is made for a size it is not meant for")
                    if e not in names:
                        s.check((fits if fits is True else fits == True) & fits2 == False if fits is not True else fits2 == False,
                                "an export that applies is not tried")
                if not names:
                    s.check(mine == [] and (f, wh) not in published, "a picture without an applicable export")
                    s.reach("not applicable")
                    continue
                s.check(len(mine) == 1, "one output per size and format")
                o = mine[0]
                if (f, wh) not in published:
                    s.fail("the announced picture is not published")
                path, blob = published[(f, wh)]
                n += 1
                s.check(path == "out/www/" + o.relpath, "the announced path is another one")
                s.check(path in res.produced and "artifacts/" + o.relpath in res.produced, "the result does not list the picture")
                s.check(blob.kwargs["name"] == o.choice, "the published export is not the announced one")
                mins = fmt.minimum_unit_size_bytes
                best = fmt.exports[o.choice].preference
                mine_size = size[(f, o.choice, wh)]
                for e in names:
                    other = size[(f, e, wh)]
                    p = fmt.exports[e].preference
                    # max(a, m) / best <= max(b, m) / p
                    a1 = mine_size * p <= other * best
                    a2 = mine_size * p <= mins * best
                    b1 = mins * p <= other * best
                    b2 = mins * p <= mins * best
                    s.check((a1 | a2) & (b1 | b2), "a preferred export is passed over")
                if len(names) > 1:
                    s.reach("chosen")
                s.check(fs.get("artifacts/" + o.relpath) is blob, "artifact and published picture differ")
        s.check(n == len(published), "more is published than announced")
        left = [p for p in fs.tree("artifacts") if "-" in p]
        s.check(left == [], "rejected exports are left behind")

    return fn


DEFAULTS = dict(pre_top_crop=0, pre_left_crop=0, pre_right_crop=0, pre_bottom_crop=0,
                crop_left_percentage=0.5, crop_top_percentage=0.5)


def content(pre, left, top):
    """What the published picture shows."""

    def fn(s):
        dims = (s.int("w", 24, 40), s.int("h", 24, 40))
        crop = {k: s.int(k, 0, 4) for k in pre}
        if left is not None:
            crop["crop_left_percentage"] = left
        if top is not None:
            crop["crop_top_percentage"] = top
        fmts = {"jpeg": ImageFormat("jpeg", {"x": ImageExport(None, None, 1, {"name": "x", "q": 3})}, 0)}
        asked = []

        def recorded(source_width, source_height, dest_width, dest_height, **k):
            r = cover_fit(source_width, source_height, dest_width, dest_height, **k)
            asked.append(((dest_width, dest_height), source_width, source_height, k, r))
            return r

        s.intercept(cover_fit, recorded)
        fs, size, meta, res = run(s, fmts, crop, 8, 4, dims, "2", 3, False)
        outs = meta.target.outputs["jpeg"]
        if len(outs) == 1:
            w = dims[0] - crop.get("pre_left_crop", 0) - crop.get("pre_right_crop", 0)
            h = dims[1] - crop.get("pre_top_crop", 0) - crop.get("pre_bottom_crop", 0)
            s.check((w < 24) | (h < 12), "a size that fits is missing")
            s.reach("one")
        else:
            s.check([(o.width, o.height) for o in outs] == [(8, 4), (24, 12)], "sizes")
            s.reach("two")
        for o in outs:
            b = fs.get("out/www/" + o.relpath)
            s.check((b.size[0] == o.width) & (b.size[1] == o.height), "size")
            s.check(b.kwargs == {"name": "x", "q": 3} and b.fmt == "jpeg", "format options")
            mine = [a for a in asked if a[0] == (o.width, o.height)]
            if not mine:
                s.fail("the picture is not fitted")
            _, sw, sh, k, (x, y, w, h) = mine[-1]
            s.check((sw == dims[0]) & (sh == dims[1]), "fitted for another source size")
            for name, default in DEFAULTS.items():
                s.check(k.get(name, default) == crop.get(name, default), "crop setting " + name)
            s.check((w >= o.width) & (h >= o.height), "scaled up")
            r = b.rect
            s.check((r[0] == x) & (r[1] == y) & (r[2] == x + w) & (r[3] == y + h), "the picture shows another part of the source")
        s.check(meta.source.width == dims[0], "recorded source width")
        s.check(meta.source.height == dims[1], "recorded source height")
        s.reach("end")

    return fn


def scenarios(tier):
    quick = tier == "quick"
    out = [
        dict(name="exports", fn=exports({"jpeg": 2 if quick else 3}, "1", 1, True), reach=["chosen", "not applicable"]),
        dict(name="formats", fn=exports({"jpeg": 2, "webp": 1 if quick else 2}, "1", 1, False), reach=["chosen", "not applicable"]),
        dict(name="sizes", fn=exports({"jpeg": 2}, "1.5", 4, False), reach=["chosen", "not applicable"]),
        dict(name="content-horizontal", fn=content(("pre_left_crop", "pre_right_crop"), 0.25, None), reach=["end", "one", "two"]),
        dict(name="content-vertical", fn=content(("pre_top_crop", "pre_bottom_crop"), None, 1), reach=["end"]),
    ]
    return out
