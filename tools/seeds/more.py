"""Planted changes found with the small changes of tools/mutants."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import mutate

MUTANTS = {n: eds for _, n, _, eds in mutate.load([])}
SEEDS = []

PRE = """
import atexit, io, json, os, shutil, tempfile
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)


def put(rel, text):
    p = os.path.join(d, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def get(rel):
    with open(os.path.join(d, rel)) as f:
        return f.read()


def has(rel):
    return os.path.exists(os.path.join(d, rel))


def project(**cfg):
    import vanillaplusjs.runners.init as init
    init.main(["--folder", d])
    for r, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            if f.endswith(".html"):
                os.remove(os.path.join(r, f))
    c = json.loads(get("vanillaplusjs.json"))
    c.update(host="example.com", **cfg)
    put("vanillaplusjs.json", json.dumps(c))


def build(dev=False):
    from vanillaplusjs.runners.build import build as b
    b(d, dev, False, [])


def css(text):
    from vanillaplusjs.build.css.tokenizer import tokenize
    return list(tokenize(io.StringIO(text)))


"""


def seed(sid, prop, mutant, demo, needs, breaks, edits=None):
    SEEDS.append(dict(id=sid, property=prop, edits=edits or [("vanillaplusjs/" + p, o, n) for p, o, n in MUTANTS[mutant]],
                      demo=PRE + demo.strip("\n") + "\n", needs=needs, breaks=breaks))


seed("O01-folder-order", "O01", "hot-folder-sort", """
project()
put("src/public/a/b/c.txt", "x")
build()
assert has("out/www/a/b/c.txt")
shutil.rmtree(os.path.join(d, "src/public/a"))
build()
assert not has("out/www/a"), os.listdir(os.path.join(d, "out/www/a"))
""", "deleting the last file of a folder two levels deep", "the outer folder is checked before the inner one is removed and stays behind empty, unlike after a clean build")

seed("O06-older", "O06", "cold-changed-new-sig", """
project()
put("src/public/a.txt", "one")
build()
put("src/public/a.txt", "two")
os.utime(os.path.join(d, "src/public/a.txt"), (1000, 1000))
build()
assert get("out/www/a.txt") == "two", get("out/www/a.txt")
""", "a file of the same size restored in place with an older modification time", "the change is not seen")

seed("O10-same-algorithm", "O10", "cold-ext-state-integrity", """
import asyncio, base64, hashlib, threading
from http.server import BaseHTTPRequestHandler, HTTPServer

now = [b"one"]


class H(BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200)
        self.send_header("Content-Length", str(len(now[0])))
        self.end_headers()
        self.wfile.write(now[0])

    def log_message(self, *a):
        pass


srv = HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()


def declare(b):
    i = "sha384-" + base64.b64encode(hashlib.sha384(b).digest()).decode()
    c = json.loads(get("vanillaplusjs.json"))
    c["external_files"] = {"src/public/x.js": {"integrity": i, "url": "http://127.0.0.1:%d/x" % srv.server_port}}
    put("vanillaplusjs.json", json.dumps(c))
    now[0] = b


project()
declare(b"var one = 1;")
build()
assert get("src/public/x.js") == "var one = 1;"
declare(b"var two = 2;")
build()
assert get("src/public/x.js") == "var two = 2;", get("src/public/x.js")
""", "the declared integrity changes while the file on disk stays as it was", "the file keeps the content declared before")

seed("O12-generators", "O12", "clean-parents", """
import vanillaplusjs.runners.clean as clean
project()
put("src/public/none.images.json", "{}")
put("src/public/none.images.js", "export default {};")
from vanillaplusjs.build.graph import FileDependencyGraph
g = FileDependencyGraph()
g.add_file("src/public/none.images.json", 1, 1, 1)
put("out/placeholder_graph.json", "")
with open(os.path.join(d, "out/placeholder_graph.json"), "w") as f:
    g.store(f)
clean.clean(d, True)
assert has("src/public/none.images.json")
""", "a recorded generator without a placeholder of its own when placeholders are removed", "cleaning deletes a source file")

seed("O11-beside-public", "O11", "cp-ext", """
import vanillaplusjs.build.handlers.copy as copy
from vanillaplusjs.build.build_context import BuildContext
put("src/publications/a.txt", "private")
ctx = BuildContext(d, dev=False, symlinks=False)
try:
    r = copy.build_file(ctx, "src/publications/a.txt")
    assert not r.produced and not r.reused, r
except Exception as e:
    if isinstance(e, AssertionError):
        raise
assert not any(f for _, _, f in os.walk(os.path.join(d, "out"))), "published"
""", "a folder beside src/public whose name starts with public", "files outside of src/public are published")

seed("O13-host-case", "O13", "ini-host", """
import vanillaplusjs.runners.init as init
init.main(["--folder", d, "--host", "Example.com"])
assert json.loads(get("vanillaplusjs.json"))["host"] == "Example.com"
""", "a host with capital letters", "the configuration does not hold the host that was given")

seed("T04-crlf", "T04", "io-crlf", """
from vanillaplusjs.build.ioutil import PeekableTextIO, PreprocessedTextIO
p = PreprocessedTextIO(PeekableTextIO(io.StringIO("a\\r\\nb", newline="")))
got = "".join(p.read(1) for _ in range(3))
assert got == "a\\nb", got
""", "reading character by character over a carriage return followed by a newline", "one line end becomes two")

seed("T05-env-inside", "T05", "bc-env2", """
from vanillaplusjs.build.build_context import BuildContext
project(js_constants={"relpath": "src/public/js/constants.js", "shared": {"DOCS": "write env://HOME for it"}, "dev": {}, "prod": {}})
put("src/public/js/constants.js", "")
build()
assert "write env://HOME for it" in get("out/www/js/constants.js"), get("out/www/js/constants.js")
""", "a constant that mentions env:// in the middle of a text", "the text is taken for the name of an environment variable")

seed("T06-media", "T06", "ne-at-nest", """
project()
put("src/public/css/main.css", "@media print { .x { color: red; } .y { color: blue; } }\\n.a { color: green; }\\n")
put("src/public/css/o.css", ".b { /*! PREPROCESSOR: import .a */ }\\n")
build()
assert "green" in get("out/www/css/o.css"), get("out/www/css/o.css")
""", "an at-rule with several rules inside before the imported rule", "the skipped at-rule ends too early, so the rules after it are read wrongly")

seed("T01-two-spaces", "T01", "ct-hex-ws", """
a = [t for t in css(".\\\\61  b{}")]
kinds = [t["type"].name if hasattr(t["type"], "name") else t["type"] for t in a]
assert any("whitespace" in str(k) for k in kinds), kinds
""", "an escape by number followed by two spaces", "the second space, a descendant combinator, is swallowed, so the selector means something else")

seed("T02-separator", "T02", "jt-u2028", """
from vanillaplusjs.build.js.tokenizer import tokenize
from vanillaplusjs.build.js.serializer import serialize_many
src = "// note\\u2029foo()"
out = serialize_many(list(tokenize(io.StringIO(src))))
assert out.rstrip().endswith("foo()") and "foo()" not in out[: out.find("*/")], out
""", "a paragraph separator as the end of a line comment", "the code after it becomes part of the comment")

seed("T05-zero", "T05", "jc-bool", """
project(js_constants={"relpath": "src/public/js/constants.js", "shared": {"ZERO": 0}, "dev": {}, "prod": {}})
put("src/public/js/constants.js", "")
build()
assert "false" not in get("out/www/js/constants.js"), get("out/www/js/constants.js")
""", "a constant which is the number 0", "it becomes false")

seed("H02-leak", "H02", "tm-frame-copy", """
project()
put("src/partials/in.html", "<p><!--[STACK: [\\"retrieve\\", \\"secret\\"]]--></p>")
put("src/partials/out.html", "<div><!--[TEMPLATE: [\\"/in.html\\"]]--></div>")
put("src/public/index.html", "<!doctype html><html><head><title>t</title></head><body><!--[TEMPLATE: [\\"/out.html\\", {\\"secret\\": \\"s3cret\\"}]]--></body></html>")
try:
    build()
except BaseException:
    pass
assert not has("out/www/index.html") or "s3cret" not in get("out/www/index.html"), get("out/www/index.html")
""", "a partial which uses another one without passing a variable on", "the variables of the outer partial are visible in the inner one")

seed("H02-redefine", "H02", "tm-define-once", """
project()
put("src/partials/p.html", "<p><!--[STACK: [\\"define\\", \\"x\\", \\"new\\"]]--><!--[STACK: [\\"retrieve\\", \\"x\\"]]--></p>")
put("src/public/index.html", "<!doctype html><html><head><title>t</title></head><body><!--[TEMPLATE: [\\"/p.html\\", {\\"x\\": \\"old\\"}]]--></body></html>")
build()
assert "<p>new</p>" in get("out/www/index.html"), get("out/www/index.html")
""", "defining a variable again in the same partial", "the first value is kept")

seed("H03-two-styles", "H03", "ou-count-shared", """
project()
put("src/public/index.html", "<!doctype html><html><head><title>t</title><style>a{color:red}</style><style>b{color:blue}</style></head><body></body></html>")
build()
import re
links = re.findall(r'href="(/css/gen/[^"?]*)', get("out/www/index.html"))
texts = "".join(get("out/www" + l) for l in links)
assert "red" in texts and "blue" in texts, (links, texts)
""", "two inline style elements on one page", "both are moved to one file, which holds only one of them")

seed("H03-empty-src", "H03", "ou-src", """
project()
put("src/public/index.html", "<!doctype html><html><head><title>t</title></head><body><script src=\\"\\">alert(1)</script></body></html>")
build()
assert "/js/gen/" not in get("out/www/index.html"), get("out/www/index.html")
""", "a script element with an empty src attribute", "text the browser never runs becomes a script")

seed("I02-tall", "I02", "res-height", """
from types import SimpleNamespace as N
from decimal import Decimal
from vanillaplusjs.build.html.manips.images.resolutions import yield_sizes
ctx = N(image_settings=N(maximum_resolution=7, resolution_step=Decimal("0.5")))
got = list(yield_sizes(ctx, 1000, 50, 20, 40))
assert all(h <= 50 for _, h in got), got
""", "a source which is much wider than the target but not much taller", "sizes taller than the source are generated, so images are scaled up")

seed("I01-percentages", "I01", "cf-pct-swap", """
from vanillaplusjs.build.html.manips.images.cover_fit import cover_fit
x, y, w, h = cover_fit(100, 60, 10, 10, crop_left_percentage=0, crop_top_percentage=1, pre_top_crop=10)
assert x == 0, (x, y, w, h)
""", "a minimum crop together with different percentages for left and top", "the image is cropped from the wrong side")

seed("I06-box", "I06", "ex-crop-box", """
from PIL import Image
from vanillaplusjs.build.html.manips.images.exporter import produce_image
from vanillaplusjs.build.html.manips.images.metadata import CropSettingsCover
img = Image.new("RGB", (10, 40), (255, 0, 0))
img.paste((0, 0, 255), (0, 15, 10, 40))
img.save(os.path.join(d, "a.png"))
produce_image(os.path.join(d, "a.png"), os.path.join(d, "b.png"), 10, 10, "cover", CropSettingsCover(crop_top_percentage=0.5), "png", {})
b = Image.open(os.path.join(d, "b.png")).convert("RGB")
assert b.size == (10, 10) and b.getpixel((5, 5)) == (0, 0, 255), b.getpixel((5, 5))
""", "a tall source cropped away from its top", "another part of the picture is shown, distorted")

seed("I04-crop", "I04", "md-target", """
project()
from PIL import Image
os.makedirs(os.path.join(d, "src/public/img"), exist_ok=True)
img = Image.new("RGB", (40, 20), (255, 0, 0))
img.paste((0, 0, 255), (20, 0, 40, 20))
img.save(os.path.join(d, "src/public/img/a.png"))
page = "<!doctype html><html><head><title>t</title></head><body><!--[IMAGE: /img/a.png 20 20 cover {\\"crop_left_percentage\\": %s}]--></body></html>"
put("src/public/index.html", page % 0)
put("src/public/other.html", page % 0)
build()
put("src/public/index.html", page % 1)
build()
import re
a = re.search(r'src="([^"]*)"', get("out/www/index.html")).group(1)
b = re.search(r'src="([^"]*)"', get("out/www/other.html")).group(1)
assert a != b, (a, b)
""", "two pages asking for the same size of a picture with different crops, in different builds", "the second page gets the picture cropped for the first")

seed("I05-eager", "I05", "cmd-path", """
from vanillaplusjs.build.build_context import BuildContext
from vanillaplusjs.build.html.manips.images.command import parse_command
ctx = BuildContext(d, dev=False, symlinks=False)
c = parse_command("img/a.png 1 1")
got = c.source_path_relative_to_root(ctx, os.path.join(d, "src/public/blog/deep/index.html"))
assert got == "src/public/blog/deep/img/a.png", got
""", "a relative path in a page which is in a folder", "the image is looked up beside the folder rather than in it")

seed("H01-twitter", "H01", "lc-ogurl", """
project()
put("src/public/index.html", "<!doctype html><html><head><title>t</title><meta property=\\"twitter:url\\" content=\\"@me\\"></head><body></body></html>")
build()
assert 'content="@me"' in get("out/www/index.html"), get("out/www/index.html")
""", "another meta property with a relative content", "metadata that is not a canonical link is rewritten")
