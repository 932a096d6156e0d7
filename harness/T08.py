"""Icons: the classes, the recoloured pictures and the dependencies of an icon directive."""
import hashlib
import json

import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.handlers.hash as hh
import vanillaplusjs.build.scan_file as sf
from harness import cssref, images, memfs
from harness.T06 import tidy
from harness.T07 import Hash
from symx import iset
from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
from vanillaplusjs.constants import PROCESSOR_VERSION
from urllib.parse import quote

BOUNDS = ("up to 3 declarations out of 20 in :root, every 3 or 6 digit colour and every named colour; directives with every combination of 4 initial colours, 9 colour lists, 8 size lists, 14 button "
          "arguments; 10 notations; 14 configurations; icon names with up to 2 arbitrary characters; pictures of up to 3 pieces and an arbitrary character")
OUTSIDE = ("a second :root rule; colours written otherwise than as 3 or 6 digits or as names; settings that are not of the documented types; what comes after the arguments of a directive; colours in pictures in another notation "
           "than a quoted upper case six digit one; names that need escapes or have special characters of urls")
STUBS = ["the disk is an in-memory tree", "sha256 is a stand-in that numbers contents in one scenario"]
P = memfs.PROJECT + "/"
MAIN = "src/public/css/main.css"
SHEET = "src/public/css/d/s.css"
HEX = "0123456789abcdefABCDEF"
# https://www.w3.org/TR/css-color-4/#named-colors
NAMED = """aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4 black 000000 blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a
burlywood deb887 cadetblue 5f9ea0 chartreuse 7fff00 chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b
darkgray a9a9a9 darkgreen 006400 darkgrey a9a9a9 darkkhaki bdb76b darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000 darksalmon e9967a darkseagreen 8fbc8f
darkslateblue 483d8b darkslategray 2f4f4f darkslategrey 2f4f4f darkturquoise 00ced1 darkviolet 9400d3 deeppink ff1493 deepskyblue 00bfff dimgray 696969 dimgrey 696969 dodgerblue 1e90ff firebrick b22222
floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc ghostwhite f8f8ff gold ffd700 goldenrod daa520 gray 808080 green 008000 greenyellow adff2f grey 808080 honeydew f0fff0 hotpink ff69b4
indianred cd5c5c indigo 4b0082 ivory fffff0 khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6 lightcoral f08080 lightcyan e0ffff
lightgoldenrodyellow fafad2 lightgray d3d3d3 lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899 lightslategrey 778899
lightsteelblue b0c4de lightyellow ffffe0 lime 00ff00 limegreen 32cd32 linen faf0e6 magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3 mediumpurple 9370db
mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc mediumvioletred c71585 midnightblue 191970 mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5
navajowhite ffdead navy 000080 oldlace fdf5e6 olive 808000 olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6 palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee
palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple 800080 rebeccapurple 663399 red ff0000 rosybrown bc8f8f royalblue 4169e1
saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 seashell fff5ee sienna a0522d silver c0c0c0 skyblue 87ceeb slateblue 6a5acd slategray 708090 slategrey 708090 snow fffafa
springgreen 00ff7f steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347 turquoise 40e0d0 violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 yellow ffff00
yellowgreen 9acd32""".split()
NAMED = dict(zip(NAMED[::2], ["#" + x.upper() for x in NAMED[1::2]]))

ROOT = [("--col-primary: #333;", ("primary", "#333333")), ("--col-primary-dark:red;", ("primary-dark", "#FF0000")), ("--col-disabled : #aBcDeF ;", ("disabled", "#ABCDEF")),
        ("--icon-size-s: 1rem;", "s"), ("--icon-size-l: calc(1rem + 2px);", "l")]
MORE = [("", None), ("--col-x: #0f8;", ("x", "#00FF88")), ("--col-primary: #112233;", ("primary", "#112233")), ("--col-X:SandyBrown;", ("X", "#F4A460")), ("--col-1: BLUE;", ("1", "#0000FF")),
        ("--col-y: rgb(1, 2, 3);", None), ("--col-y: #1234;", None), ("--col-y: none;", None), ("--font: Arial, sans-serif;", None), ("/* --col-c: #000; */", None), ("--icon-size-m: 1px;", "m"),
        ("--icon-size-s: 2px;", "s"), ("color: red; ", None), ("--shadow: 0 0 1px rgba(0, 0, 0, 0.5) , 1px;", None), ("--icons-size-q: 1px;", None), ("--col: red;", None), (";;", None),
        ("--q: { --col-z: red; };", None), ("--q: a(b; --col-z: red);", None), ("--col-é: gray;", ("é", "#808080"))]


def settings(items):
    cols, sizes = {}, []
    for text, what in items:
        if what is None:
            continue
        if type(what) is tuple:
            cols[what[0]] = what[1]
        elif what not in sizes:
            sizes.append(what)
    return cols, sizes


def sheet_of(items):
    return ":root {\n" + "\n".join(t for t, _ in items) + "\n}\n"


def url(icon, color, version):
    return 'url("/img/icons/' + icon + "/" + color + ".svg?v=" + version(color) + "&pv=" + PROCESSOR_VERSION + '")'


def rules(icon, colors, sizes, buttons, version):
    out = ""

    def common(z):
        return ("background: no-repeat center center; display: inline-block; vertical-align: middle; content: ''; width: var(--icon-size-" + z + "); height: var(--icon-size-" + z
                + "); background-size: 100% 100%; background-image: ")

    for z in sizes:
        for c in colors:
            out = out + ".icon-" + icon + "-" + z + "-" + c + " {" + common(z) + url(icon, c, version) + "}"
    for z in sizes:
        for iden, (active, hover, disabled) in buttons:
            b = ".icon-btn-" + icon + "-" + z + ("-" + iden if iden else "")
            out = out + b + ("{-webkit-appearance: none; appearance: none; background: transparent; border: none; border-radius: 0; box-shadow: none; outline: none; padding: 0; margin: 0;"
                             "text-align: center; display: inline-block; cursor: pointer}")
            out = out + b + ":disabled { cursor: not-allowed }"
            out = out + b + " .icon-btn--icon {" + common(z) + url(icon, active, version) + "}"
            out = out + b + ":hover .icon-btn--icon { background-image: " + url(icon, hover, version) + "}"
            out = out + b + ":disabled .icon-btn--icon { background-image: " + url(icon, disabled, version) + "}"
    return out


def chosen(cols, sizes, initial, colors, wanted_sizes, buttons):
    """What a directive asks for, or None if it is left alone."""
    if initial not in cols:
        return None
    cs = list(cols) if colors is None else [c for k, c in enumerate(colors) if c in cols and c not in colors[:k]]
    zs = list(sizes) if wanted_sizes is None else [z for k, z in enumerate(wanted_sizes) if z in sizes and z not in wanted_sizes[:k]]
    if not cs or not zs:
        return None
    return cs, zs, [(i, b) for i, b in buttons if all(c in cols for c in b)]


def recolour(svg, a, b):
    """Every quoted a becomes a quoted b."""
    a, b = '"' + a + '"', '"' + b + '"'
    out = ""
    i = 0
    while i < len(svg):
        if i + len(a) <= len(svg) and svg[i:i + len(a)] == a:
            out = out + b
            i += len(a)
        else:
            out = out + svg[i:i + 1]
            i += 1
    return out


PLAIN = '<svg><path stroke="#333333"/></svg>'


class Site:
    def __init__(self, s, items, config=None):
        self.s = s
        self.ctx = images.context()
        self.ctx.default_css_file = MAIN
        self.fs = memfs.FS(s)
        self.fs.put(P + "vanillaplusjs.json", json.dumps(config or {}))
        self.fs.put(P + MAIN, sheet_of(items))
        self.ctx.icon_settings = load_icon_settings(self.ctx)
        self.cols, self.sizes = settings(items)

    def picture(self, icon, svg):
        self.fs.put(P + "src/public/img/icons/" + icon + ".svg", svg)

    def build(self, rel, before, directives, refused=()):
        """directives: (text, icon, svg, what it asks for with its initial colour, or None)"""
        s, fs = self.s, self.fs
        text = before
        for d in directives:
            text = text + "a { b: c }\n" + d[0] + "\n"
        text = text + "z { y: x }"
        fs.put(P + rel, text)
        kept = dict(fs.files)
        scan = sf.scan_file(self.ctx, rel)
        if fs.files != kept:
            s.fail("scanning changes files")
        res = bf.build_file(self.ctx, rel)
        want = before
        files, needs = [], []
        for d, icon, svg, ask in directives:
            want = want + "a { b: c }"
            if ask is None:
                continue
            (cs, zs, bs), initial = ask
            if rel != MAIN:
                needs.append(MAIN)
            needs.append("src/public/img/icons/" + icon + ".svg")
            for c in cs + [x for _, b in bs for x in b]:
                out = "out/www/img/icons/" + icon + "/" + c + ".svg"
                if any(out == f for f, _ in files):
                    continue
                files.append((out, recolour(svg, self.cols[initial], self.cols[c])))
                needs.append(out + ".hash")
                if P + out not in fs.files:
                    s.fail("%s is missing" % (out,))
                if P + out + ".hash" not in fs.files:
                    s.fail("%s has no hash" % (out,))
            want = want + rules(icon, cs, zs, bs, lambda c: quote(fs.text("out/www/img/icons/" + icon + "/" + c + ".svg.hash"), safe=""))
        want = want + "z { y: x }"
        for out, svg in files:
            s.check(fs.text(out) == svg, "the picture has other colours")
            s.check(fs.text(out + ".hash") == hh.calculate_hash(P + out), "the version is not the one of the picture")
        got = fs.text("out/www/" + rel[len("src/public/"):])
        s.check(cssref.same(tidy(cssref.tokens(got)), tidy(cssref.tokens(want))), "the sheet has other classes")
        outputs = [x for f, _ in files for x in (f, f + ".hash")] + ["out/www/" + rel[len("src/public/"):], "out/www/" + rel[len("src/public/"):] + ".hash"]
        for k in fs.files:
            if k not in kept and not has(outputs, fs.rel(k)):
                s.fail("there is %s" % (fs.rel(k),))
        for what, a, b in (("scan dependencies", scan.dependencies, needs), ("scan outputs", scan.produces, outputs), ("dependencies", res.children, needs),
                           ("outputs", list(res.produced) + list(res.reused), outputs)):
            if not same(a, b):
                s.fail("%s are not those of the icons" % what)
        return res, kept, outputs


def has(a, x):
    return any(len(x) == len(y) and x == y for y in a)


def same(a, b):
    a = list(a)
    return all(has(b, x) for x in a) and all(has(a, x) for x in b) and not any(has(a[:k], a[k]) for k in range(len(a)))


def text_of(initial, colors, sizes, button, icon="i"):
    def lst(v, all_):
        return all_ if v is None else json.dumps(v)
    return "/*! PREPROCESSOR: icon " + icon + " " + initial + " " + lst(colors, "all-colors") + " " + lst(sizes, "all-sizes") + (" " + button if button else "") + " */"


DEFAULT = ("primary", "primary-dark", "disabled")


def roots(more):
    def fn(s):
        items = list(ROOT)
        for k, opts in enumerate(more):
            items.insert(s.choice("at%d" % k, [0, len(items)]), s.choice("item%d" % k, opts))
        drop = s.choice("without", [None, "primary-dark", "disabled", "sizes"])
        if drop == "sizes":
            items = [i for i in items if not (type(i[1]) is str)]
        elif drop:
            items = [i for i in items if not (type(i[1]) is tuple and i[1][0] == drop)]
        if s.flag("unfinished") and items[-1][0].endswith(";"):
            items[-1] = (items[-1][0][:-1], items[-1][1])
        site = Site(s, items)
        svg = PLAIN.replace("#333333", site.cols["primary"])
        site.picture("i", svg)
        ask = chosen(site.cols, site.sizes, "primary", None, None, [("", DEFAULT)])
        site.build(MAIN, sheet_of(items), [(text_of("primary", None, None, ""), "i", svg, ask and (ask, "primary"))])
        s.reach("built" if ask else "left alone")

    return fn


BUTTONS = {
    "": [("", DEFAULT)], "default": [("", DEFAULT)], "btn": [("", DEFAULT)], "no-btn": [], "{}": [],
    '{"default": ["primary", "disabled", "x"]}': [("", ("primary", "disabled", "x"))],
    "{'b': ['x', 'x', 'x']}": [("b", ("x", "x", "x"))],
    '{"default": ["x","primary","x"], "b": ["disabled","primary","x"]}': [("", ("x", "primary", "x")), ("b", ("disabled", "primary", "x"))],
    '{"b": ["disabled","primary","x"], "c-2": ["x","primary-dark","primary"]}': [("b", ("disabled", "primary", "x")), ("c-2", ("x", "primary-dark", "primary"))],
    '{"default": ["nope","primary","x"]}': [], '{"default": ["primary","nope","x"], "b": ["x","x","x"]}': [("b", ("x", "x", "x"))],
    '{"b": ["x","x","nope"], "c": ["x","x","x"]}': [("c", ("x", "x", "x"))], '{"b": ["x","x","nope"]}': [],
    '{"b": ["x","x","x",], }': [("b", ("x", "x", "x"))],
}


def directives(initials, colors, sizes, buttons):
    def fn(s):
        items = ROOT + [("--col-x: #0f8;", ("x", "#00FF88"))]
        initial, cs, zs, b = s.choice("initial", initials), s.choice("colors", colors), s.choice("sizes", sizes), s.choice("button", buttons)
        rel = s.choice("sheet", [MAIN, SHEET])
        site = Site(s, items)
        svg = PLAIN + '"#ABCDEF"'
        site.picture("i", svg)
        ask = chosen(site.cols, site.sizes, initial, cs, zs, BUTTONS[b])
        site.build(rel, sheet_of(items) if rel == MAIN else "", [(text_of(initial, cs, zs, b), "i", svg, ask and (ask, initial))])
        s.reach("built" if ask else "left alone")

    return fn


def two(s):
    """Two directives, the same icon or two, and pictures that another sheet has made before."""
    items = ROOT + [("--col-x: #0f8;", ("x", "#00FF88"))]
    site = Site(s, items)
    args = []
    for k in range(2):
        icon, cs = s.choice("icon%d" % k, ["i", "j"]), s.choice("colors%d" % k, [None, ["primary"], ["x", "primary"]])
        b = s.choice("button%d" % k, ["", "no-btn"])
        args.append((text_of("primary", cs, None, b, icon), icon, PLAIN, (chosen(site.cols, site.sizes, "primary", cs, None, BUTTONS[b]), "primary")))
    site.picture("i", PLAIN)
    site.picture("j", PLAIN)
    res, kept, outputs = site.build(MAIN, sheet_of(items), args)
    made = [x for x in outputs if P + x not in kept]
    if not same(res.produced, made):
        s.fail("what was not there before is not what was produced")
    if s.flag("other sheet"):
        res, kept, outputs = site.build(SHEET, "", args[:1])
        made = [x for x in outputs if P + x not in kept]
        if not same(res.produced, made):
            s.fail("what was not there before is not what was produced for the other sheet")
    s.reach("built")


def colours(n):
    def fn(s):
        v = s.text("digits", n, HEX)
        up = v if n == 6 else v[0] + v[0] + v[1] + v[1] + v[2] + v[2]
        up = "#" + up.upper()
        items = [("--col-primary: #333;", ("primary", "#333333")), ("--icon-size-s: 1rem;", "s"), ("--col-x: #" + v + ";", ("x", up))]
        Hash.seen = []
        s.intercept(hashlib.sha256, Hash)
        site = Site(s, items[:2] + [("--col-x: #" + v + ";", ("x", up))])
        site.picture("i", PLAIN)
        ask = chosen(site.cols, site.sizes, "primary", ["x"], None, [])
        s.observe("colour", site.ctx.icon_settings.color_map["x"].to_hex())
        site.build(SHEET, "", [(text_of("primary", ["x"], None, "no-btn"), "i", PLAIN, (ask, "primary"))])
        s.reach("built")

    return fn


def named(names):
    def fn(s):
        n = s.choice("name", names)
        items = [("--col-x: " + s.choice("case", [n, n.upper(), n.title()]) + ";", ("x", NAMED[n])), ("--icon-size-s: 1rem;", "s")]
        site = Site(s, items)
        svg = '<a b="' + NAMED[n] + '"/>'
        site.picture("i", svg)
        site.build(SHEET, "", [(text_of("x", None, None, "", ), "i", svg, ((["x"], ["s"], []), "x"))])
        s.check(site.ctx.icon_settings.color_map["x"].to_hex() == NAMED[n], "a named colour has another value")
        s.reach("built")

    return fn


def notations(s):
    """Other ways to write a directive, and comments that are none."""
    items = list(ROOT)
    site = Site(s, items)
    site.picture("i", PLAIN)
    std = [["primary", "disabled"], ["s"], []]
    none = ["/* PREPROCESSOR: icon i primary all-colors all-sizes */", "/*! PREPROCESSOR icon i primary all-colors all-sizes */", "/*! PREPROCESSOR: icons i primary all-colors all-sizes */",
            "/*! x PREPROCESSOR: icon i primary all-colors all-sizes */", "/*! PREPROCESSOR: iconi primary all-colors all-sizes */"]
    yes = ['/*! PREPROCESSOR: icon i primary ["primary", "disabled"] ["s"] no-btn*/', "/*!PREPROCESSOR : icon   i primary\t['primary','disabled'] [ 's' ]no-btn */",
           '/*!\nPREPROCESSOR: icon\ni primary\n["primary",\n"disabled"]\n["s"]\nno-btn\n*/', '/*! PREPROCESSOR: icon i primary // the "first"\n ["primary", // [x]\n "disabled"] ["s"] // sizes\n no-btn // none */',
           '/*! PREPROCESSOR: icon i primary["primary","disabled",]["s",]no-btn */', '/*! PREPROCESSOR: icon i primary ["primary" , "disabled"]["s"]{} */',
           '/* ! PREPROCESSOR: icon i primary ["primary", "dis\\61 bled"] ["s"] no-btn */']
    bad = ["i", "i primary", "i primary all-colors", "i primary all-sizes all-colors", "i primary all-colors all-sizes nobtn", "1 primary all-colors all-sizes", 'i "primary" all-colors all-sizes', "i primary [primary] all-sizes",
           'i primary ["primary" "x"] all-sizes', 'i primary ["primary", all-sizes', "i primary all-colors all-sizes [\"x\"]", 'i primary all-colors all-sizes {"b": ["primary","primary"]}',
           'i primary all-colors all-sizes {"b": ["primary","primary","primary","primary"]}', 'i primary all-colors all-sizes {"b"}', 'i primary all-colors all-sizes {b: ["primary","primary","primary"]}',
           'i primary all-colors all-sizes {"b": "primary"}', 'i primary all-colors all-sizes {"b": ["primary","primary","primary"]', 'i primary [,] all-sizes', 'i primary all-colors 3', "i primary all-colors - ", "true primary all-colors all-sizes",
           'i primary all-colors all-sizes {"a": ["primary","primary","primary"] "b": ["primary","primary","primary"]}', 'i primary all-colors all-sizes {"a" ["primary","primary","primary"]}', "i primary ['primary\n'] all-sizes"]
    kind = s.choice("kind", ["yes", "none", "bad"])
    if kind == "yes":
        site.build(SHEET, "", [(s.choice("text", yes), "i", PLAIN, (std, "primary"))])
    elif kind == "none":
        site.build(SHEET, "", [(s.choice("text", none), "i", PLAIN, None)])
    else:
        site.fs.put(P + SHEET, "a { b: c }\n/*! PREPROCESSOR: icon " + s.choice("text", bad) + " */")
        for fn in (sf.scan_file, bf.build_file):
            kept = dict(site.fs.files)
            try:
                res = fn(site.ctx, SHEET)
            except ValueError:
                continue
            # left alone
            if any("icons" in site.fs.rel(k) and k not in kept for k in site.fs.files):
                s.fail("a malformed directive makes pictures")
            if fn is bf.build_file:
                s.check(cssref.same(tidy(cssref.tokens(site.fs.text("out/www/css/d/s.css"))), tidy(cssref.tokens("a { b: c }"))), "a malformed directive makes classes")
    s.reach(kind)


CONFIGS = [
    (None, ("",) + DEFAULT), ({}, ("",) + DEFAULT), ({"default_button": None},), ({"default_button": {}}, ("",) + DEFAULT), ({"default_button": {"active_color": "x"}}, ("", "x") + DEFAULT[1:]),
    ({"default_button": {"hover_color": "x"}}, ("", "primary", "x", "disabled")), ({"default_button": {"disabled_color": "x", "active_color": "x"}}, ("", "x", "primary-dark", "x")), ({"default_button": {"active_color": "nope"}},),
    ({"button_by_identifier": {"b": {"active_color": "x"}}}, ("",) + DEFAULT, ("b", "x") + DEFAULT[1:]), ({"button_by_identifier": {"b": {}, "c": {"hover_color": "x"}}}, ("",) + DEFAULT, ("b",) + DEFAULT, ("c", "primary", "x", "disabled")),
    ({"default_button": {"active_color": "x"}, "button_by_identifier": {"b": {"disabled_color": "x"}}}, ("", "x") + DEFAULT[1:], ("b", "x", "primary-dark", "x")),
    ({"default_button": None, "button_by_identifier": {"b": {"active_color": "x", "hover_color": "x", "disabled_color": "x"}}}, ("b", "x", "x", "x")),
    ({"button_by_identifier": None}, ("",) + DEFAULT), ({"button_by_identifier": {"b": {"active_color": "nope"}, "c": {"active_color": "x"}}}, ("",) + DEFAULT, ("c", "x") + DEFAULT[1:]),
]


def configured(s):
    items = ROOT + [("--col-x: #0f8;", ("x", "#00FF88"))]
    k = s.choice("config", list(range(len(CONFIGS))))
    conf, buttons = CONFIGS[k][0], [(b[0], tuple(b[1:])) for b in CONFIGS[k][1:]]
    site = Site(s, items, {} if conf is None else {"icons": conf})
    site.picture("i", PLAIN)
    b = s.choice("button", ["", "default", "no-btn", "{'b': ['x', 'x', 'x']}"])
    cs = s.choice("colors", [None, ["x"], ["primary"]])
    ask = chosen(site.cols, site.sizes, "primary", cs, None, buttons if b in ("", "default") else BUTTONS[b])
    site.build(SHEET, "", [(text_of("primary", cs, None, b), "i", PLAIN, (ask, "primary"))])
    s.reach("built")


NAME1 = iset.chars("abcxyzABCXYZ_é☃")
NAME = iset.chars("abcxyzABCXYZ_é☃09-")


def names(n):
    def fn(s):
        icon = s.text("first", 1, NAME1) + s.text("name", n, NAME)
        c1 = s.char("c", NAME)
        col, size = "q" + c1, "w" + c1
        Hash.seen = []
        s.intercept(hashlib.sha256, Hash)
        items = [("--col-p: #333;", ("p", "#333333")), ("--icon-size-" + size + ": 1rem;", None), ("--col-" + col + ": red;", None)]
        site = Site(s, items)
        site.cols[col] = "#FF0000"
        site.sizes.append(size)
        site.picture(icon, PLAIN)
        ask = ([col], [size], [])
        site.build(SHEET, "", [("/*! PREPROCESSOR: icon " + icon + " p [\"" + col + "\"] all-sizes no-btn */", icon, PLAIN, (ask, "p"))])
        s.reach("built")

    return fn


def pictures(pieces):
    def fn(s):
        Hash.seen = []
        s.intercept(hashlib.sha256, Hash)
        site = Site(s, ROOT)
        svg = ""
        for k, opts in enumerate(pieces):
            p = s.choice("piece%d" % k, opts)
            svg = svg + (s.char("c%d" % k, iset.chars('"#3<a\n& é')) if p is None else p)
        site.picture("i", svg)
        site.build(SHEET, "", [(text_of("primary", ["disabled"], ["s"], "no-btn"), "i", svg, (([("disabled")], ["s"], []), "primary"))])
        s.reach("built")

    return fn


def scenarios(tier):
    q = tier == "quick"
    initials = ["primary", "disabled", "nope"] + ([] if q else ["x"])
    cols = [None, ["primary"], ["disabled", "primary"], ["x", "x"], ["nope"]] + ([] if q else [["nope", "x"], [], ["primary", "x", "primary"], ["Primary"]])
    sizes = [None, ["s"], ["l", "s"], ["nope"]] + ([] if q else [["nope", "l"], [], ["s", "s"], ["S"]])
    buttons = list(BUTTONS)
    pieces = ['"#333333"', '"#333333', "'#333333'", "#333333", '"#FFFFFF"', '"#33333"', None]
    return [
        dict(name="roots", fn=roots([MORE] if q else [MORE, MORE]), reach=["built", "left alone"]),
        dict(name="directives", fn=directives(initials if not q else ["primary", "nope"], cols, sizes if not q else [None, ["l", "s"], ["nope"]], ["", "no-btn", buttons[7]] if q else buttons), reach=["built", "left alone"]),
        dict(name="buttons", fn=directives(["primary"], [["x"], None], [["s"], ["l", "s"]], buttons), reach=["built"]),
        dict(name="two", fn=two, reach=["built"]),
        dict(name="digits", fn=colours(6), reach=["built"]),
        dict(name="short digits", fn=colours(3), reach=["built"]),
        dict(name="named colours", fn=named(list(NAMED)), reach=["built"]),
        dict(name="notations", fn=notations, reach=["yes", "none", "bad"]),
        dict(name="configurations", fn=configured, reach=["built"]),
        dict(name="names", fn=names(1 if q else 2), reach=["built"]),
        dict(name="pictures", fn=pictures([pieces, pieces] if q else [pieces, pieces, pieces]), reach=["built"]),
    ]
