"""What initialising a folder creates."""
import json
import os
import shutil

from harness import memfs
from harness.orch import Base
import vanillaplusjs.constants
import vanillaplusjs.runners.init as ini
from vanillaplusjs.build.build_context import load_external_files, load_js_constants
from vanillaplusjs.build.html.manips.images.settings import load_image_settings

BOUNDS = ("every combination of configuration, index page, pictures, scripts, partials and folders that may be there already, "
          "with arbitrary contents of two characters; no host or any host of up to 3 characters; absolute or relative folder; "
          "initialising twice; and a build of the initialised folder (real disk, four hosts)")
OUTSIDE = "a folder that does not exist; files where folders belong; an existing configuration of another version"
STUBS = ["the disk is an in-memory tree (first scenario)", "ProcessPoolExecutor runs each call on completion (builds)"]
P = memfs.PROJECT + "/"
LAYOUT = ["src/public/img", "src/public/js", "src/partials"]
FILES = ["vanillaplusjs.json", "src/public/index.html", "src/public/img/a.png", "src/public/js/a.js", "src/partials/a.html",
         "src/index.html"]


def check_config(s, text, host):
    c = json.loads(text)
    if host is None:
        s.check(c["host"] is None, "a host is configured that was not given")
    else:
        s.check(c["host"] == host, "the configured host is not the one given")
    s.check(c["version"] == vanillaplusjs.constants.CONFIGURATION_VERSION, "configuration version")
    im = load_image_settings(c["images"])
    s.check(im.default_format in im.formats, "default image format")
    load_js_constants(c["js_constants"])
    s.check(load_external_files(c["external_files"]) == {}, "external files")
    s.check(c["auto_generate_images_js_placeholders"] in (True, False), "placeholders")


def init(s):
    fs = memfs.FS(s)
    fs.mkdirs(memfs.PROJECT)
    old = {}
    for i, f in enumerate(FILES):
        if s.flag("there%d" % i):
            old[P + f] = s.text("old%d" % i, 2) if i < 2 or s.symbolic else "x"
            fs.put(P + f, old[P + f])
    for i, d in enumerate(LAYOUT[:2]):
        if s.flag("folder%d" % i):
            fs.mkdirs(P + d)
    n = s.choice("host", [None, 0, 1, 3])
    host = None if n is None else s.text("host", n)
    folder = s.choice("started with", [memfs.PROJECT, "../project"])
    ini.init(folder, host)
    for k in old:
        if k not in fs.files:
            s.fail("a file that was there is removed")
        s.check(fs.files[k] == old[k], "a file that was there is changed")
    s.check(not fs.removed, "something is removed")
    for d in LAYOUT:
        if P + d not in fs.dirs:
            s.fail("%s is not created" % d)
    made = [k for k in fs.files if k not in old]
    if sorted(made) != sorted(P + f for f in FILES[:2] if P + f not in old):
        s.fail("creates %r" % (made,))
    if P + FILES[0] in made:
        check_config(s, fs.text(FILES[0]), host)
        s.reach("configured")
    if P + FILES[1] in made:
        s.check(fs.text(FILES[1]).startswith("<!DOCTYPE html>\n<html"), "the index page is not a page")
        s.reach("index")
    before = dict(fs.files)
    ini.init(folder, None)
    s.check(sorted(before) == sorted(fs.files), "the second run creates or removes files")
    for k in before:
        s.check(before[k] == fs.files[k], "the second run changes a file")
    s.reach("end")


HOSTS = [None, "example.com", 'q"uo\\te', "h\u00f6st", ""]


def build(s):
    b = Base(s)
    shutil.rmtree(b.p("src"))
    os.unlink(b.p("vanillaplusjs.json"))
    host = s.choice("host", HOSTS)
    src = {}
    for f, t in [("src/public/index.html", "<!DOCTYPE html><p>mine</p>"), ("src/public/js/a.js", "a;"), ("src/partials/p.html", "<p>p</p>"),
                 ("src/public/js/constants.js", "// documented here\n")]:
        if s.flag(f):
            b.write_file(f, t)
            src[f] = t
    ini.main(["--folder", b.dir] + ([] if host is None else ["--host", host]))
    with open(b.p("vanillaplusjs.json")) as f:
        check_config(s, f.read(), host)
    for f, t in src.items():
        with open(b.p(f)) as fp:
            s.check(fp.read() == t, "%s is changed" % f)
    for dev in (False, True):
        err, sim = b.run(order=False, dev=dev)
        if err is not None:
            s.fail("building an initialised folder fails: %s: %s" % (type(err).__name__, err))
        out = b.tree()[0]
        want = ["out/www/index.html"] + ["out/www" + f[len("src/public"):] for f in src if f.startswith("src/public/js")]
        if sorted(out) != sorted(want + [w + ".hash" for w in want]):
            s.fail("the initialised folder is built to %r" % (sorted(out),))
    before = sorted(b.tree("src")[0].items())
    ini.main(["--folder", b.dir])
    s.check(before == sorted(b.tree("src")[0].items()), "a second run changes the sources")
    s.reach("end")


def scenarios(tier):
    return [
        dict(name="init", fn=init, reach=["end", "configured", "index"]),
        dict(name="build", fn=build, reach=["end"]),
    ]
