"""cover_fit: geometry of the crop, all sizes and crop settings."""
from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit

TOL = 1e-6
PCTS = (0.0, 0.25, 0.5, 1.0)


def scen(m, pre, pct):
    def fn(s):
        sw, sh = s.int("sw", 1, m), s.int("sh", 1, m)
        dw, dh = s.int("dw", 1, m), s.int("dh", 1, m)
        kw = {}
        l = t = r = b = 0
        if pre:
            l, t = s.int("l", 0, m), s.int("t", 0, m)
            r, b = s.int("r", 0, m), s.int("b", 0, m)
            kw.update(pre_left_crop=l, pre_top_crop=t, pre_right_crop=r, pre_bottom_crop=b)
        px = py = 0.5
        if pct == "choice":
            px, py = s.choice("px", PCTS), s.choice("py", PCTS)
            kw.update(crop_left_percentage=px, crop_top_percentage=py)
        elif pct:
            px, py = s.real("px"), s.real("py")
            s.assume(px >= 0)
            s.assume(px <= 1)
            s.assume(py >= 0)
            s.assume(py <= 1)
            kw.update(crop_left_percentage=px, crop_top_percentage=py)
        w, h = sw - l - r, sh - t - b
        try:
            x, y, cw, ch = cover_fit(sw, sh, dw, dh, **kw)
        except ValueError:
            s.check((w <= 0) | (h <= 0), "a possible crop is rejected")
            s.reach("rejected")
            return
        s.check(w >= 1, "nothing is left horizontally but the crop is accepted")
        s.check(h >= 1, "nothing is left vertically but the crop is accepted")
        s.reach("accepted")
        s.check(x >= l, "crop starts left of the requested minimum crop")
        s.check(y >= t, "crop starts above the requested minimum crop")
        s.check(x + cw <= sw - r, "crop ends right of the requested minimum crop")
        s.check(y + ch <= sh - b, "crop ends below the requested minimum crop")
        s.check(cw >= 0, "negative width")
        s.check(ch >= 0, "negative height")
        if w * dh >= dw * h:
            # at least as wide as the target: full height, width cropped
            s.check(ch == h, "the crop is not as large as possible")
            s.check(2 * cw * dh <= 2 * dw * h + dh, "crop too wide for the target's aspect ratio")
            s.check(2 * cw * dh >= 2 * dw * h - dh, "crop too narrow for the target's aspect ratio")
            s.reach("full height")
        else:
            s.check(cw == w, "the crop is not as large as possible")
            s.check(2 * ch * dw <= 2 * dh * w + dw, "crop too tall for the target's aspect ratio")
            s.check(2 * ch * dw >= 2 * dh * w - dw, "crop too short for the target's aspect ratio")
            s.reach("full width")
        if w >= dw:
            if h >= dh:
                s.check(cw >= 1, "empty crop")
                s.check(ch >= 1, "empty crop")
                s.check(cw >= dw, "the crop is smaller than the target although the image is not")
                s.check(ch >= dh, "the crop is smaller than the target although the image is not")
        ox, oy = (x - l), (y - t)
        s.check(ox - (w - cw) * px <= TOL, "too much cropped from the left")
        s.check((w - cw) * px - ox <= 1 + TOL, "too little cropped from the left")
        s.check(oy - (h - ch) * py <= TOL, "too much cropped from the top")
        s.check((h - ch) * py - oy <= 1 + TOL, "too little cropped from the top")

    return fn


def scenarios(tier):
    m = 4096 if tier == "quick" else 65535
    return [
        dict(name="plain", fn=scen(m, False, False), reach=["accepted", "full height", "full width"]),
        dict(name="pre", fn=scen(m, True, False), reach=["accepted", "rejected", "full height", "full width"]),
        dict(name="percent", fn=scen(m, False, True), reach=["accepted", "full height", "full width"]),
        dict(name="pre-percent", fn=scen(m, True, "choice"), reach=["accepted", "rejected", "full height", "full width"]),
    ]


BOUNDS = "source and target sizes 1..4096 (thorough 1..65535), minimum crops 0..4096 (65535), percentages any real in [0,1] (with minimum crops: 0, 1/4, 1/2, 1)"
OUTSIDE = ("larger images; float and Decimal arithmetic is modelled as exact rationals: for sizes in these bounds "
           "distinct quotients stay distinct as doubles and a rounded product differs only at exact ties, where both "
           "neighbours are admitted; percentages tolerate 1e-6 pixel")
ASSUMPTIONS = [OUTSIDE]
