"""Image commands: what is parsed is what was written."""
import os

from PIL import Image

import vanillaplusjs.build.handlers.image_glue as glue
from vanillaplusjs.build.build_context import BuildContext
from vanillaplusjs.build.html.manips.images.command import ImageCommand, parse_command

WS = " \t\n\r\x0b\x0c"
BOUNDS = ("commands of the documented grammar with paths of up to 3 arbitrary non-space characters, numbers of up to 2 digits, "
          "one or two arbitrary white space characters between parts; and the same with up to 2 (thorough: 3) arbitrary "
          "characters put in any place; paths with up to 4 (thorough 6) characters among / . a Z ~ and space after one of 8 beginnings in pages at three depths")
OUTSIDE = "paths that start with two slashes or leave the project; longer paths and numbers; deeper JSON in the crop arguments"


def number(text):
    """Reference reading of an integer in decimal notation; None if it is not one."""
    t = text[1:] if text[:1] in ("+", "-") else text
    if not t:
        return None
    v = 0
    last = "_"
    for c in t:
        if c == "_":
            if last == "_":
                return None
        elif "0" <= c and c <= "9":
            v = v * 10 + (ord(c) - 48)
        else:
            return None
        last = c
    if last == "_":
        return None
    return -v if text[:1] == "-" else v


def gap(s, name, more=True):
    t = s.char(name, WS)
    if more and s.flag(name + "+"):
        t = t + s.char(name + "'", WS)
    return t


def path_of(s, n):
    t = ""
    for i in range(n):
        c = s.char("path%d" % i)
        s.assume(not c.isspace())
        t = t + c
    return t


def digits(s, name):
    t = s.char(name + ".0", "0123456789")
    if s.flag(name + ".long"):
        t = t + s.char(name + ".1", "0123456789")
    return t


CROPS = [
    (None, {}), ("{}", {}),
    ('{"pre_top_crop": #}', "pre_top_crop"), ('{ "crop_left_percentage":0.25 }', {"crop_left_percentage": 0.25}),
    ('{"pre_left_crop":1,  "pre_right_crop":\t#}', "pre_right_crop"),
]


def grammar(npath):
    def fn(s):
        path = path_of(s, npath)
        w, h = digits(s, "w"), digits(s, "h")
        text = path + gap(s, "g1") + w + gap(s, "g2", False) + h
        style = s.flag("style")
        crop, lazy = {}, None
        if style:
            text = text + gap(s, "g3", False) + "cover"
            tmpl, crop = s.choice("crop", CROPS)
            if tmpl is not None:
                d = s.char("d", "0123456789")
                text = text + gap(s, "g4", False) + tmpl.replace("#", "@").replace("@", d)
                if isinstance(crop, str):
                    key = crop
                    crop = {key: ord(d) - 48}
                    if "left" in tmpl:
                        crop["pre_left_crop"] = 1
                lazy = s.choice("lazy", [None, "lazy", "eager"])
                if lazy:
                    text = text + gap(s, "g5") + lazy
        if s.flag("trailing"):
            text = text + gap(s, "g6")
        try:
            cmd = parse_command(text)
        except ValueError:
            s.check((number(w) == 0) | (number(h) == 0), "a well formed command is rejected")
            return
        s.check(cmd.path == path, "path")
        s.check(cmd.width == number(w), "width")
        s.check(cmd.height == number(h), "height")
        s.check(cmd.crop_style == "cover", "crop style")
        s.check(sorted(cmd.crop_arguments) == sorted(crop), "crop argument names")
        for k in crop:
            s.check(cmd.crop_arguments[k] == crop[k], "crop argument " + k)
        s.check(cmd.lazy == (lazy != "eager"), "laziness")
        s.reach("lazy" if lazy == "lazy" else "eager" if lazy else "default")

    return fn


def isws(c):
    return c.isspace()


def words(s, text, n):
    """Reference splitting into at most n + 1 parts; every character's kind is decided."""
    out, cur, i = [], "", 0
    k = len(text)
    while i < k:
        if isws(text[i]):
            i += 1
            continue
        if len(out) == n:
            out.append(text[i:])
            break
        j = i
        while j < k and not isws(text[j]):
            j += 1
        out.append(text[i:j])
        i = j
    return out


def verdict(s, text, tail):
    """Reference for commands whose crop arguments, if any, are the given object."""
    parts = words(s, text, 4)
    if len(parts) < 3:
        return None
    w, h = number(parts[1]), number(parts[2])
    if w is None or h is None or w <= 0 or h <= 0:
        return None
    if len(parts) > 3 and parts[3] != "cover":
        return None
    lazy = True
    if len(parts) > 4:
        if parts[4][: len(tail)] != tail:
            return None
        rest = parts[4][len(tail):]
        if rest:
            if not isws(rest[0]):
                return None
            r = words(s, rest, 9)
            if len(r) > 1:
                return None
            if r:
                word = r[0]
                if word != "lazy" and word != "eager":
                    return None
                lazy = word == "lazy"
    return parts[0], w, h, lazy


TEXTS = ["p 1 2", "p 1 2 cover", "p 1 2 cover {}", "p 1 2 cover {} lazy", "p 1 2 cover {} eager"]
ASCII = "".join(chr(c) for c in range(128))


def broken(n, texts, replace):
    def fn(s):
        base = s.choice("text", texts)
        at = s.choice("at", list(range(len(base) + 1)))
        over = s.choice("over", [0, 1]) if replace else 0
        s.assume(at + over <= len(base))
        x = s.text("x", n, ASCII)
        # the crop arguments themselves are left alone
        i = base.find("{")
        if i >= 0:
            s.assume(at <= i or at >= i + 2)
            s.assume(at + over <= i or at >= i + 2)
        for c in x:
            s.assume(c != "{")
            s.assume(c != "}")
        text = base[:at] + x + base[at + over:]
        want = verdict(s, text, "{}")
        try:
            cmd = parse_command(text)
        except ValueError:
            s.check(want is None, "a well formed command is rejected")
            s.reach("rejected")
            return
        s.check(want is not None, "a malformed command is accepted")
        s.check(cmd.path == want[0], "path")
        s.check(cmd.width == want[1], "width")
        s.check(cmd.height == want[2], "height")
        s.check(cmd.lazy == want[3], "laziness")
        s.check(cmd.crop_arguments == {}, "crop arguments")
        s.reach("accepted")

    return fn


KEYS = ("pre_left_crop", "pre_top_crop", "pre_right_crop", "pre_bottom_crop")


class Pic:
    def __init__(self, w, h):
        self.width, self.height = w, h

    def close(self):
        pass


def script(s):
    """Entries of an images.json file are accepted exactly when they can be produced."""
    sw, sh = s.int("sw", 1, 4096), s.int("sh", 1, 4096)
    w, h = s.int("w", -3, 5000), s.int("h", -3, 5000)
    there = s.flag("there")
    entry = {"path": s.choice("path", ["/a.jpg", "a.jpg"]), "width": w, "height": h}
    crop = {}
    for k in KEYS:
        if s.flag(k + "?"):
            crop[k] = s.int(k, -2, 4096)
    left = s.choice("left", [None, -0.5, 0, 0.5, 1, 1.5])
    if left is not None:
        crop["crop_left_percentage"] = left
    if s.flag("unknown"):
        crop["min_crop"] = 1
    if crop or s.flag("empty"):
        entry["crop_arguments"] = crop
    if s.flag("style?"):
        entry["crop_style"] = s.choice("style", ["cover", "contain"])
    s.intercept(os.path.exists, lambda p: there)
    s.intercept(Image.open, lambda p: Pic(sw, sh))
    ctx = BuildContext("x", dev=False, symlinks=False)
    got = glue.sanity_check_images_json(ctx, {"one": entry}, "src/public/a.images.json")
    if not there or entry["path"] != "/a.jpg" or "min_crop" in crop or entry.get("crop_style", "cover") != "cover":
        s.check(got == False, "an entry that cannot be produced is accepted")
        return
    if left is not None and (left < 0 or left > 1):
        s.check(got == False, "a percentage out of range is accepted")
        return
    l, t, r, b = (crop.get(k, 0) for k in KEYS)
    good = (w > 0) & (h > 0) & (w <= sw - l - r) & (h <= sh - t - b) & (l >= 0) & (t >= 0) & (r >= 0) & (b >= 0)
    if got:
        s.check(good, "an entry that cannot be produced is accepted")
        s.reach("accepted")
    else:
        s.check(good == False, "a possible entry is rejected")
        s.reach("rejected")


def where(n):
    """Paths from the public folder and beside the page."""
    def fn(s):
        page = s.choice("page", ["src/public/index.html", "src/public/blog/post.html", "src/public/a/b/c.html"])
        pre = s.choice("before", ["", "/", "../", "./", "img/", "/img/", "/img/../", "../../"])
        path = pre + s.text("x", s.choice("length", list(range(n + 1))), "/." + "aZ~ ")
        # another file system root
        s.assume(not path.startswith("//"))
        s.assume(path != "")
        ctx = BuildContext("/site", dev=False, symlinks=False)
        cmd = ImageCommand(path, 1, 1, "cover", {}, True)
        got = cmd.source_path_relative_to_root(ctx, "/site/" + page)
        at = ["src", "public"] if path[0] == "/" else page.split("/")[:-1]
        cur = ""
        for c in [path[i] for i in range(len(path))] + ["/"]:
            if c != "/":
                cur = cur + c
                continue
            if cur == "..":
                # beyond the project is not looked at
                s.assume(len(at) > 0)
                at = at[:-1]
            elif cur != "" and cur != ".":
                at = at + [cur]
            cur = ""
        want = "/".join(at) if at else "."
        s.check(got == want, "another place")
        s.reach("absolute" if path[0] == "/" else "relative")

    return fn


def scenarios(tier):
    quick = tier == "quick"
    return [
        dict(name="grammar", fn=grammar(1 if quick else 3), reach=["lazy", "eager", "default"]),
        dict(name="insert", fn=broken(1, TEXTS, False), reach=["accepted", "rejected"]),
        dict(name="replace", fn=broken(1, TEXTS, True), reach=["accepted", "rejected"]),
        dict(name="insert2", fn=broken(2 if quick else 3, TEXTS[:1] if quick else TEXTS[::2], False), reach=["accepted", "rejected"]),
        dict(name="where", fn=where(4 if quick else 6), reach=["absolute", "relative"]),
        dict(name="script", fn=script, reach=["accepted", "rejected"]),
    ]
