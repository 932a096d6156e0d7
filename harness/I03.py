"""The hash over the image settings."""
from decimal import Decimal

import vanillaplusjs.build.html.manips.images.metadata as md
from vanillaplusjs.build.html.manips.images.settings import ImageExport, ImageFormat, ImageSettings

BOUNDS = ("settings with 2 formats of up to 2 exports of up to 3 options; one place differs: any number (0 to 2^31, both sides "
          "symbolic, or unset), any character of any text (both sides symbolic), an option, export or format added; every order of the keys")
OUTSIDE = ("settings that differ in several places at once: the 64-bit polynomial cannot separate all of them (nor an option whose "
           "type alone changes)")

TOP = 2 ** 31


def base():
    return {
        "jpeg": ({"100": [None, 90000, 2, {"quality": 95, "optimize": True, "progressive": True}],
                  "85": [10000, None, 4, {"quality": 85, "optimize": True}]}, 85000),
        "webp": ({"lossless": [None, 160000, 8, {"quality": 100, "method": 6, "lossless": True}]}, 1000),
    }


def build(spec, default="jpeg", top=7, step=Decimal("0.5"), order=False):
    def it(d):
        l = list(d.items())
        return reversed(l) if order else l

    return ImageSettings(
        formats={f: ImageFormat(f, {e: ImageExport(x[0], x[1], x[2], dict(it(x[3]))) for e, x in it(ex)}, minimum)
                 for f, (ex, minimum) in it(spec)},
        default_format=default, maximum_resolution=top, resolution_step=step)


H = md.hash_image_settings
NUMBERS = [("jpeg", "100", 1), ("jpeg", "85", 0), ("jpeg", "85", 2), ("webp", "lossless", 2), ("jpeg", "100", "quality"),
           ("webp", "lossless", "method"), ("jpeg", None, None), ("webp", None, None), "maximum"]


def put(spec, place, v):
    f, e, k = place
    if e is None:
        spec[f] = (spec[f][0], v)
    elif isinstance(k, str):
        spec[f][0][e][3][k] = v
    else:
        spec[f][0][e][k] = v


def numbers(s):
    place = s.choice("place", NUMBERS)
    a, b = s.int("a", 0, TOP), s.int("b", 0, TOP)
    unset = place != "maximum" and place[2] in (0, 1) and s.flag("unset")
    if not unset:
        s.assume(a != b)
    if place == "maximum":
        ha, hb = H(build(base(), top=a)), H(build(base(), top=b))
    else:
        x, y = base(), base()
        put(x, place, a)
        put(y, place, None if unset else b)
        ha, hb = H(build(x)), H(build(y))
    s.check(ha != hb, "settings that differ in one number have the same hash")
    s.reach("end")


def texts(s):
    a, b = s.char("a"), s.char("b")
    s.assume(a != b)
    pre, post = s.choice("around", [("", ""), ("q", ""), ("", "x"), ("ab", "cd")])
    place = s.choice("place", ["option name", "option value", "export name", "format name", "default"])
    x, y = base(), base()
    d = "jpeg"
    ta, tb = pre + a + post, pre + b + post
    for spec, t in ((x, ta), (y, tb)):
        if place == "option name":
            spec["webp"][0]["lossless"][3] = {t: 1}
        elif place == "option value":
            spec["webp"][0]["lossless"][3]["mode"] = t
        elif place == "export name":
            spec["webp"] = ({t: spec["webp"][0]["lossless"]}, 5)
        elif place == "format name":
            webp = spec["webp"]
            spec.clear()
            spec[t] = webp
            d = "zz"
    if place == "default":
        ha, hb = H(build(x, ta)), H(build(y, tb))
    else:
        ha, hb = H(build(x, d)), H(build(y, d))
    s.check(ha != hb, "settings that differ in one character have the same hash")
    s.reach("end")


def added(s):
    what = s.choice("what", ["option", "text option", "export", "format", "longer text"])
    x, y = base(), base()
    n = s.int("n", 0, TOP)
    name = s.char("name")
    if what == "option":
        y["webp"][0]["lossless"][3][name] = n
    elif what == "text option":
        y["webp"][0]["lossless"][3][name] = s.char("value")
    elif what == "export":
        y["webp"][0][name] = [None, n, 1, {}]
    elif what == "format":
        y[name] = ({}, n)
    else:
        x["webp"][0]["lossless"][3]["mode"] = "x"
        y["webp"][0]["lossless"][3]["mode"] = s.choice("at", ["x" + name, name + "x"])
    s.check(H(build(x)) != H(build(y)), "something added does not change the hash")
    s.reach(what)


def steps(s):
    all_ = [Decimal(k) for k in ("0.5", "0.25", "0.75", "1", "1.5", "2", "0.125")]
    a, b = s.choice("a", all_), s.choice("b", all_)
    x, y = base(), base()
    v = s.choice("value", [None, (True, False), (1.5, 2.5), (0.5, 0.25)])
    if v is None:
        s.assume(a != b)
        s.check(H(build(x, step=a)) != H(build(y, step=b)), "another step, same hash")
    else:
        s.assume(a == b)
        for spec, t in ((x, v[0]), (y, v[1])):
            spec["webp"][0]["lossless"][3]["k"] = t
        s.check(H(build(x)) != H(build(y)), "another option value, same hash")
    s.reach("end")


def orders(s):
    """Equal settings hash equally whatever the order of their keys."""
    x = base()
    for i, place in enumerate(NUMBERS[:6]):
        put(x, place, s.int("n%d" % i, 0, TOP))
    c = s.char("c")
    x["webp"][0]["lossless"][3][c] = s.int("v", 0, TOP)
    x["webp"][0]["x" + c] = [1, 2, 3, {}]
    a, b = H(build(x)), H(build(x, order=True))
    s.check(a == b, "the order of the keys changes the hash")
    s.check(a == H(build(x)), "the hash is not stable")
    s.check((a >= 0) & (a < 2 ** 64), "the hash is no 64-bit number")
    s.reach("end")


def scenarios(tier):
    return [
        dict(name="numbers", fn=numbers, reach=["end"]),
        dict(name="texts", fn=texts, reach=["end"]),
        dict(name="added", fn=added, reach=["option", "text option", "export", "format", "longer text"]),
        dict(name="steps", fn=steps, reach=["end"]),
        dict(name="orders", fn=orders, reach=["end"]),
    ]
