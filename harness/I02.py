"""Sizes generated for an image target."""
from decimal import Decimal

from vanillaplusjs.build.build_context import BuildContext
from vanillaplusjs.build.html.manips.images.resolutions import yield_resolutions, yield_sizes
from vanillaplusjs.build.html.manips.images.settings import ImageSettings

BOUNDS = ("source and target sides 1..4096 (symbolic), resolution step any of 0.25, 0.5, 0.75, 1, 1.5, 2 (quick: 0.5, 0.75, 1), "
          "maximum factor 1..7 (symbolic), up to 28 sizes")
OUTSIDE = "steps below 0.25, larger images"
STUBS = ["decimal arithmetic is exact (the products stay far below 28 digits)"]

HI = 4096


def sizes(step, maxres):
    def fn(s):
        sw, sh = s.int("src_width", 1, HI), s.int("src_height", 1, HI)
        dw, dh = s.int("dst_width", 1, HI), s.int("dst_height", 1, HI)
        top = s.int("maximum", 1, maxres)
        ctx = BuildContext("x", dev=False, symlinks=False)
        ctx.image_settings = ImageSettings(
            formats={}, default_format="jpeg", maximum_resolution=top, resolution_step=Decimal(step))
        out = list(yield_sizes(ctx, sw, sh, dw, dh))
        fits = (sw >= dw) & (sh >= dh)
        if not out:
            s.check(fits == False, "no size although the source is large enough")
            s.reach("none")
            return
        s.check(fits, "a size although the source is too small")
        s.check((out[0][0] == dw) & (out[0][1] == dh), "the first size is not the requested one")
        for w, h in out:
            s.check((w <= sw) & (h <= sh), "upscaled")
            s.check((w <= dw * top) & (h <= dh * top), "beyond the maximum factor")
            # w/dw and h/dh differ by rounding only: both floors of the same factor
            s.check(((w + 1) * dh > h * dw) & ((h + 1) * dw > w * dh), "aspect ratio changed")
        for (a, b), (c, d) in zip(out, out[1:]):
            s.check((a <= c) & (b <= d) & ((a < c) | (b < d)), "sizes not strictly increasing")
        # nothing that fits is missing: the next factor is beyond the source or the maximum
        n = len(list(yield_resolutions(ctx, sw, sh, dw, dh)))
        k = 1 + n * Decimal(step)
        s.check((dw * k > sw) | (dh * k > sh) | (k > top), "a size that fits is missing")
        if len(out) > 1:
            s.reach("several")
        s.reach("end")

    return fn


def scenarios(tier):
    out = []
    for step in ("0.5", "0.75", "1") if tier == "quick" else ("0.25", "0.5", "0.75", "1", "1.5", "2"):
        out.append(dict(name="step-" + step, fn=sizes(step, 7), reach=["end", "several", "none"]))
    return out
