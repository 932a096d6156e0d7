"""A build runs with what the configuration states."""
import json
import os
import sys
from decimal import Decimal

import pytypeutils as tus

import vanillaplusjs.constants
import vanillaplusjs.runners.build as rb
from vanillaplusjs.build.build_context import load_external_files, load_js_constants
from vanillaplusjs.build.graph import FileDependencyGraph
from vanillaplusjs.build.html.manips.images.settings import load_image_settings
from harness import memfs

BOUNDS = ("image settings with up to 2 formats of up to 2 exports: any number from -2^31 to 2^31, limits unset or absent, any names of up to 2 characters, any step from a "
          "list; up to 2 external files with arbitrary texts of up to 2 characters; up to 2 constants per mode with texts of up to 2 arbitrary characters, "
          "numbers, and variables of the environment; every combination of command line options, stored graphs and settings; any version of up to 7 characters; "
          "one setting missing or of another type at a time")
OUTSIDE = "how json reads the text of the file; icon settings (T08); several wrong settings at once; wrong types within external files"
STUBS = ["the library that tells types apart (pytypeutils) is replaced by isinstance while exploring", "the disk is an in-memory tree", "the rebuild itself is replaced by one that notes what it is given", "tests for symbolic link support give either answer"]
P = memfs.PROJECT + "/"
MAX = 2 ** 31


def check_types(**kinds):
    for key, (value, kind) in kinds.items():
        if not isinstance(value, kind):
            raise ValueError("%s is not of the right kind" % key)


def types(s):
    """The library that tells types apart is not encoded; it runs in the replays."""
    if s.symbolic:
        s.intercept(tus.check, check_types)


def limit(s, d, key, name):
    k = s.choice(name, ["set", "null", "absent"])
    if k == "set":
        d[key] = s.int(name + " value", -MAX, MAX)
    elif k == "null":
        d[key] = None


def image_settings(s, nf, ne):
    d = {"formats": {}, "default_format": None, "maximum_resolution": s.int("maximum", -MAX, MAX),
         "resolution_step": s.choice("step", [1, "0.5", 0.25, "1", "0.1", 3])}
    for i in range(nf):
        name = ("f%d" % i) + s.text("format%d" % i, 1)
        ex = {}
        for k in range(ne):
            e = {"preference": s.int("preference%d%d" % (i, k), -MAX, MAX)}
            limit(s, e, "min_area_px2", "min%d%d" % (i, k))
            limit(s, e, "max_area_px2", "max%d%d" % (i, k))
            if s.flag("options%d%d" % (i, k)):
                e["formatter_kwargs"] = {"quality": s.int("quality%d%d" % (i, k), 0, 100), "x": s.flag("x%d%d" % (i, k))}
            ex["e%d" % k] = e
        d["formats"][name] = {"exports": ex, "minimum_unit_size_bytes": s.int("unit%d" % i, -MAX, MAX)}
        if i == nf - 1:
            d["default_format"] = name
    return d


def same_images(s, got, d):
    done = []
    s.check(got.default_format == d["default_format"], "the default format")
    s.check(got.maximum_resolution == d["maximum_resolution"], "the maximum resolution")
    if got.resolution_step != Decimal(d["resolution_step"]):
        s.fail("the step is %r instead of %r" % (got.resolution_step, d["resolution_step"]))
    s.check(len(got.formats) == len(d["formats"]), "the number of formats")
    for name, f in d["formats"].items():
        if name not in got.formats:
            s.fail("a format is missing")
        g = got.formats[name]
        s.check(g.name == name, "the name of a format")
        s.check(g.minimum_unit_size_bytes == f["minimum_unit_size_bytes"], "the unit size")
        if list(g.exports) != list(f["exports"]):
            s.fail("the exports are %r" % list(g.exports))
        for en, e in f["exports"].items():
            x = g.exports[en]
            s.check(x.preference == e["preference"], "a preference")
            lo, hi = e.get("min_area_px2"), e.get("max_area_px2")
            area = s.int("area %s %s" % (en, len(done)), 1, MAX)
            want = ((True if lo is None else area >= lo) & (True if hi is None else area <= hi))
            s.check(x.applies_to(area, 1) == want, "a limit")
            done.append(en)
            o = e.get("formatter_kwargs", {})
            if sorted(x.formatter_kwargs) != sorted(o):
                s.fail("the options are %r" % sorted(x.formatter_kwargs))
            for k in o:
                s.check(x.formatter_kwargs[k] == o[k], "an option")


def images(nf, ne):
    def fn(s):
        types(s)
        d = image_settings(s, nf, ne)
        got = load_image_settings(d)
        same_images(s, got, d)
        s.reach("end")

    return fn


WRONG = [None, "x", 1.5, [], {}]


def broken_images(s):
    """A setting that is missing or of another kind is an error, not another setting."""
    types(s)
    d = {"formats": {"jpeg": {"exports": {"a": {"preference": 1}}, "minimum_unit_size_bytes": 1}}, "default_format": "jpeg", "maximum_resolution": 3, "resolution_step": 1}
    f = d["formats"]["jpeg"]
    e = f["exports"]["a"]
    where, key, ok = s.choice("setting", [(d, "formats", [{}]), (d, "default_format", ["x"]), (d, "maximum_resolution", []), (d, "resolution_step", [1.5]),
                                          (f, "exports", [{}]), (f, "minimum_unit_size_bytes", []), (e, "preference", []), (e, "min_area_px2", [None]),
                                          (e, "max_area_px2", [None]), (e, "formatter_kwargs", [{}])])
    how = s.choice("how", ["absent", "unknown default", "step"] + list(range(len(WRONG))))
    if how == "absent":
        s.assume(key not in ("min_area_px2", "max_area_px2", "formatter_kwargs"))
        del where[key]
    elif how == "unknown default":
        t = s.text("default", s.choice("length", [0, 1, 2, 4]))
        s.assume(t != "jpeg")
        d["default_format"] = t
    elif how == "step":
        d["resolution_step"] = s.choice("step", [0, -1, "0", "-0.5", "0.0"])
    else:
        s.assume(not any(type(WRONG[how]) is type(x) and WRONG[how] == x for x in ok) and key not in ("default_format", "formats"))
        s.assume(not (key == "resolution_step" and WRONG[how] == "x"))
        where[key] = WRONG[how]
    try:
        load_image_settings(d)
    except (ValueError, TypeError, KeyError):
        s.reach("error")
        return
    s.fail("wrong settings are accepted")


def external(s):
    d, want = {}, {}
    for i in range(s.choice("files", [0, 1, 2])):
        key = "src/public/%d" % i + s.text("key%d" % i, s.choice("length%d" % i, [0, 1, 2]))
        e = {"url": s.text("url%d" % i, s.choice("urls%d" % i, [0, 2])), "integrity": s.text("integrity%d" % i, 2)}
        at = key
        if s.flag("relpath%d" % i):
            at = e["relpath"] = "src/public/r%d" % i + s.text("rel%d" % i, 1)
        d[key] = e
        want[at] = e
    got = load_external_files(d)
    s.check(len(got) == len(want), "the number of files")
    for at, e in want.items():
        if at not in got:
            s.fail("a file is missing")
        s.check(got[at].relpath == at, "the path")
        s.check(got[at].url == e["url"], "the address")
        s.check(got[at].integrity == e["integrity"], "the integrity")
    s.reach("end")


def constants(s):
    """Every value ends up where it was put; those of the environment are looked up."""
    name, value = "VP_" + s.choice("variable", ["", "A", "B"]), s.text("value", s.choice("length", [0, 2]), "ab://env")
    os.environ["VP_A"] = "one"
    os.environ["VP_B"] = "env://VP_A"
    s.cleanup.append(lambda: [os.environ.pop(k, None) for k in ("VP_A", "VP_B")])
    d = {"relpath": "src/public/js/" + s.text("rel", s.choice("name", [1, 2])), "shared": {}, "dev": {}, "prod": {}}
    want = {"shared": {}, "dev": {}, "prod": {}}
    missing = False
    for k in ("shared", "dev", "prod"):
        for key in ("X", "Y")[: s.choice("constants of " + k, [0, 2] if k == "dev" else [1])]:
            kind = s.choice(k + key, ["text", "number", "env", "null"])
            if kind == "text":
                v = s.choice("before " + k + key, ["", "env:/", " env://", "ENV://"]) + value
                s.assume(not v.startswith("env://"))
                w = v
            elif kind == "number":
                v = w = s.int("number " + k + key, -5, 5)
            elif kind == "null":
                v = w = None
            else:
                v = "env://" + name
                if name == "VP_":
                    missing = True
                w = os.environ.get(name)
            d[k][key] = v
            want[k][key] = w
    try:
        got = load_js_constants(d)
    except KeyError:
        s.check(missing, "a constant is not accepted")
        s.reach("missing")
        return
    if missing:
        s.fail("a variable that is not set is made up")
    s.check(got.relpath == d["relpath"], "the path of the file")
    for k in want:
        g = getattr(got, k)
        if sorted(g) != sorted(want[k]):
            s.fail("the constants of %s are %r" % (k, sorted(g)))
        for key, w in want[k].items():
            if w is None:
                if g[key] is not None:
                    s.fail("null becomes %r" % (g[key],))
            else:
                s.check(g[key] == w, "a constant has another value")
    s.reach("end")


class Seen:
    def __init__(self):
        self.calls = []

    async def rebuild(self, context, *graphs):
        self.calls.append((context,) + graphs)


GRAPHS = ["dependency_graph.json", "output_graph.json", "placeholder_graph.json"]


def setup(s, config, graphs):
    types(s)
    fs = memfs.FS(s)
    fs.mkdirs(P + "src/public")
    fs.put(P + "vanillaplusjs.json", json.dumps(config))
    if any(graphs):
        fs.mkdirs(P + "out")
    for name, there in zip(GRAPHS, graphs):
        if there:
            g = FileDependencyGraph()
            g.add_file("src/public/" + name, 1, 2, 3)
            with open(P + "out/" + name, "w") as f:
                g.store(f)
    seen = Seen()
    s.intercept(rb.cold_incremental_rebuild, seen.rebuild)
    return fs, seen


def config(s, host):
    return {"version": vanillaplusjs.constants.CONFIGURATION_VERSION, "host": host,
            "images": {"formats": {"png": {"exports": {"a": {"preference": 3}}, "minimum_unit_size_bytes": 7}}, "default_format": "png", "maximum_resolution": s.int("maximum", 1, 9), "resolution_step": "0.5"},
            "auto_generate_images_js_placeholders": s.flag("placeholders"),
            "external_files": {"src/public/a.js": {"url": "https://a/", "integrity": "sha384-x"}},
            "js_constants": {"relpath": "src/public/js/c.js", "shared": {"S": 1}, "dev": {"D": "d"}, "prod": {"P": "p"}}}


def run(s):
    """Command line, configuration and stored graphs all reach the rebuild."""
    host = None if s.flag("no host") else s.text("host", s.choice("length", [0, 2]))
    c = config(s, host)
    if s.flag("icons"):
        c["icons"] = {"default_button": {"active_color": "act"}}
    graphs = [s.flag(n) for n in GRAPHS]
    fs, seen = setup(s, c, graphs)
    supported = s.flag("supported")
    s.intercept(rb.detect_symlink_support, lambda: supported)
    args = ["--folder", memfs.PROJECT]
    dev = s.flag("dev")
    if dev:
        args.append("--dev")
    links = s.choice("links", [None, "--symlinks", "--no-symlinks"])
    if links:
        args.append(links)
    delay = s.choice("delay", [None, ["a"], ["a", "b c"]])
    if delay:
        args += ["--delay-files"] + delay
    before = dict(fs.files)
    rb.main(args)
    if len(seen.calls) != 1:
        s.fail("the rebuild ran %d times" % len(seen.calls))
    ctx = seen.calls[0][0]
    if ctx.folder != memfs.PROJECT or ctx.dev != dev or ctx.symlinks != (supported if links is None else links == "--symlinks"):
        s.fail("folder, mode or links: %r %r %r" % (ctx.folder, ctx.dev, ctx.symlinks))
    if list(ctx.delay_files) != (delay or []):
        s.fail("files to delay: %r" % (ctx.delay_files,))
    if host is None:
        if ctx.host is not None:
            s.fail("a host was made up")
    else:
        s.check(ctx.host == host, "another host")
    same_images(s, ctx.image_settings, c["images"])
    s.check(ctx.auto_generate_images_js_placeholders == c["auto_generate_images_js_placeholders"], "placeholders")
    e = ctx.external_files
    if list(e) != ["src/public/a.js"] or e["src/public/a.js"].url != "https://a/" or e["src/public/a.js"].integrity != "sha384-x":
        s.fail("external files: %r" % e)
    j = ctx.js_constants
    if (j.relpath, j.shared, j.dev, j.prod) != ("src/public/js/c.js", {"S": 1}, {"D": "d"}, {"P": "p"}):
        s.fail("constants: %r" % j)
    b = ctx.icon_settings.default_button.default_button
    if b.active_color != ("act" if "icons" in c else "primary"):
        s.fail("icons: %r" % b)
    for there, name, g in zip(graphs, GRAPHS, seen.calls[0][1:]):
        if [n for n in GRAPHS if ("src/public/" + n) in g] != ([name] if there else []):
            s.fail("the stored %s is not the one used" % name)
    for k in before:
        if k not in fs.files:
            s.fail("a file is gone before the rebuild")
        s.check(before[k] == fs.files[k], "a file changed before the rebuild")
    s.reach("end")


def refused(s):
    """Nothing is built without a configuration that can be understood."""
    c = config(s, "h")
    kind = s.choice("kind", ["none", "list", "version", "no source", "missing"])
    err = (SystemExit, KeyError, ValueError, TypeError)
    if kind == "version":
        v = s.text("version", s.choice("length", [0, 3, 5, 6, 7]), "0123456789. v")
        s.assume(v != vanillaplusjs.constants.CONFIGURATION_VERSION)
        c["version"] = v
    elif kind == "missing":
        del c[s.choice("key", sorted(c))]
    fs, seen = setup(s, ["x"] if kind == "list" else c, [False] * 3)
    if kind == "none":
        fs.files.pop(P + "vanillaplusjs.json")
    elif kind == "no source":
        for d in ("src/public", "src"):
            fs.dirs.discard(P + d)
    before = sorted(fs.files)
    try:
        rb.main(["--folder", memfs.PROJECT, "--no-symlinks"])
    except err as e:
        if isinstance(e, SystemExit) and not e.code:
            s.fail("the failure is not reported")
        if seen.calls or sorted(fs.files) != before:
            s.fail("something was built")
        s.reach(kind)
        return
    s.fail("the build did not fail")


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="one format", fn=images(1, 1 if q else 2), reach=["end"]),
        dict(name="two formats", fn=images(2, 1), reach=["end"]),
        dict(name="broken images", fn=broken_images, reach=["error"]),
        dict(name="external", fn=external, reach=["end"]),
        dict(name="constants", fn=constants, reach=["end", "missing"]),
        dict(name="run", fn=run, reach=["end"]),
        dict(name="refused", fn=refused, reach=["none", "list", "version", "no source", "missing"]),
    ]
