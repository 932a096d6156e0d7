"""Cache busting of imports in scripts."""
from urllib.parse import parse_qs, unquote, urlencode

import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.scan_file as sf
from vanillaplusjs.constants import PROCESSOR_VERSION
from harness import images, memfs, page
from harness.C01 import has_dots
from harness.H01 import resolve
from harness.T02 import compare
from symx import iset

BOUNDS = ("every form of import and re-export with up to 3 names out of 9, with every kind of white space and comment between its tokens; specifiers "
          "made of one of 15 kinds of prefix, up to 2 (thorough 3) arbitrary characters and one of 6 endings, percent-encoded bytes, in modules up to "
          "two folders deep; up to 3 statements in a module; 42 pieces of code around that are no imports")
OUTSIDE = ("import() and import.meta; encoded separators and malformed percent-encoding, doubled slashes, and specifiers with white space around, control "
           "characters or backslashes; import attributes; cycles of imports; specifiers written with escapes")
STUBS = ["the disk is an in-memory tree"]
ANY = iset.rng(32, 126) | iset.rng(128, 0xD7FF) | iset.rng(0xE000, 0x10FFFF)
HASH = "HASH/+="
VERSION = "?" + urlencode({"v": HASH, "pv": PROCESSOR_VERSION})
GAPS = ["", " ", "\n", "/*'./x.js'*/", " //from './x.js'\n\t"]
WORDS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$"


def spaced(tokens, gaps):
    """Items for tokens; gaps gives the text between two of them."""
    out = []
    for i in range(len(tokens)):
        t = tokens[i]
        if i:
            a = tokens[i - 1]
            g = gaps(i)
            if g == "" and a != "S" and t != "S" and (a[-1] in WORDS or a[-1] > "~") and (t[0] in WORDS or t[0] > "~"):
                g = " "
            out.append(("space", g))
        if t == "S":
            out.append(("spec", None))
        elif t[0] in "'\"":
            out.append(("string", t))
        else:
            out.append(("raw", t))
    return out


def source(items, spec):
    src = ""
    for kind, text in items:
        src = src + (spec if kind == "spec" else text)
    return src


def expected(items, what):
    return [(what if kind == "spec" else (kind, text)) for kind, text in items]


def build(s, fs, rel, src):
    ctx = images.context()
    fs.put(memfs.PROJECT + "/" + rel, src)
    scan = sf.scan_file(ctx, rel)
    res = bf.build_file(ctx, rel)
    text = fs.text("out/www/" + rel[len("src/public/"):])
    s.observe("out", text)
    return scan.dependencies, res.children, text


FORMS = [x.split() for x in """import S
import a from S
import * as a from S
import { a } from S
import a , { b } from S
import a , * as b from S
export * from S
export * as a from S
export { a } from S
""".strip().split("\n")]


def one(forms, prefixes, sizes, ends, dom, rels):
    def fn(s):
        rel = s.choice("file", rels)
        form = s.choice("form", forms)
        n = s.choice("length", sizes)
        q = s.choice("quote", ["'", '"'])
        u = s.choice("prefix", prefixes) + s.text("u", n, dom) + s.choice("end", ends)
        for c in u:
            s.assume(not (c == q or c == "\\" or c == "%"))
        specifier(s, rel, form, q, u)

    return fn


def specifier(s, rel, form, q, u):
    items = spaced(form, lambda i: " ") + [("raw", ";"), ("space", "\n"), ("raw", "x"), ("raw", "="), ("string", "'./a.js'"), ("raw", ";")]
    fs = memfs.FS(s)
    path = None
    own = rel[len("src/public/"):]
    if (u.startswith("/") and not u.startswith("//")) or u.startswith("./") or u.startswith("../"):
        if not ("?" in u) and not ("#" in u):
            last = u.split("/")[-1]
            if not (last == "" or last == "." or last == ".."):
                for c in (u[0], u[-1]):
                    s.assume(not (c == " " or c == "\xa0" or ord(c) > 0x7f))
                base = "/" + own.replace("%", "%25").replace(" ", "%20")
                path = unquote(resolve(base, u)[0])[1:]
                s.assume(not has_dots(path))
    if path is not None and path == own:
        path = None
    if path is not None:
        s.assume(not (path + "/").startswith(own + "/"))
        s.assume(not (own + "/").startswith(path + "/"))
        s.assume(not path.endswith(".hash"))
        fs.put(memfs.PROJECT + "/out/www/" + path + ".hash", HASH)
        fs.put(memfs.PROJECT + "/out/www/" + path, "contents")
    deps, children, text = build(s, fs, rel, source(items, q + u + q))
    if path is None:
        s.check(not deps and not children, "the module depends on something it does not refer to")
        compare(s, expected(items, ("value", u)), text, loose=True)
        s.reach("kept")
        return
    want = "src/public/" + path
    s.check(len(deps) == 1 and deps[0] == want, "scanning does not declare the module as a dependency")
    s.check(len(children) == 1 and children[0] == want, "building does not declare the module as a dependency")

    def got(v):
        s.check(v.endswith(VERSION), "the specifier has another version")
        p = v[:len(v) - len(VERSION)]
        s.check(not ("?" in p) and not ("#" in p), "the path of the specifier ends early")
        s.check(p.startswith("/") and not p.startswith("//"), "the specifier is not absolute")
        s.check(resolve("/", p)[0] == p and unquote(p) == "/" + path, "the specifier leads somewhere else")

    compare(s, expected(items, ("check", got)), text)
    s.reach("versioned")


def encoded(s):
    s1 = s.char("hi", "234567")
    s2 = s.char("lo", "0123456789abcdefABCDEF")
    v = s1 + s2
    s.assume(not (v == "2f" or v == "2F" or v == "5c" or v == "5C" or v == "7f" or v == "7F"))
    pre, post = s.choice("around", [("./", "b.js"), ("/a", ""), ("/", "b%20c.js"), ("../", "."), ("./x/.", "/y.js"), ("./x/", "./y.js"), ("./x/", "%2E/y.js"), ("/x/y/%2e", "/b.js")])
    u = pre + "%" + v + post
    rel = "src/public/d/m.js"
    # dots count as such when they are encoded
    norm = pre + ("." if v == "2e" or v == "2E" else "%" + v) + post.replace("%2E", ".")
    norm = norm.replace("%2e", ".")
    path = unquote(resolve("/d/m.js", norm)[0])[1:]
    if norm.split("/")[-1] in (".", ".."):
        s.assume(False)
    s.assume(not has_dots(path))
    fs = memfs.FS(s)
    fs.put(memfs.PROJECT + "/out/www/" + path + ".hash", HASH)
    deps, children, text = build(s, fs, rel, "import a from '" + u + "';")
    s.check(len(deps) == 1 and deps[0] == "src/public/" + path, "scanning declares another module")
    s.check(len(children) == 1 and children[0] == "src/public/" + path, "building declares another module")
    s.check(text.startswith('import a from "/') and text.endswith(VERSION + '";'), "the specifier has no version")
    p = text[len('import a from "'):len(text) - len(VERSION) - 2]
    s.check(unquote(p) == "/" + path, "the specifier leads somewhere else")
    s.reach("end")


NAMES = ["a", "as", "from", "default", "of", "import", "'s t'", "$", "\u00e9"]
BINDINGS = ["a", "as", "from", "$", "of", "export1", "\u00e9"]


def names(bindings, exports, sizes, defaults=True):
    """Whatever the names are."""
    def fn(s):
        kind = s.choice("kind", ["import", "export"])
        head = []
        if kind == "import":
            default = s.choice("default", [""] + (bindings if defaults else []))
            rest = s.choice("rest", ["", "*", "{"] if defaults else ["{"])
            if not default and not rest:
                s.assume(False)
            head = ["import"] + ([default] if default else [])
            if default and rest:
                head.append(",")
            if rest == "*":
                head += ["*", "as", s.choice("namespace", bindings)]
        else:
            rest = s.choice("rest", ["*", "*as", "{"] if defaults else ["{"])
            head = ["export"]
            if rest == "*":
                head.append("*")
            elif rest == "*as":
                head += ["*", "as", s.choice("namespace", exports)]
        if rest == "{":
            head.append("{")
            n = s.choice("names", sizes)
            for i in range(n):
                if i:
                    head.append(",")
                form = s.choice("form%d" % i, ["plain", "renamed"])
                if form == "plain":
                    head.append(s.choice("name%d" % i, bindings if kind == "import" else exports))
                else:
                    head += [s.choice("name%d" % i, exports), "as", s.choice("alias%d" % i, bindings if kind == "import" else exports)]
            if n and s.flag("comma"):
                head.append(",")
            head.append("}")
        items = spaced(head + ["from", "S"], lambda i: "") + [("raw", ";")]
        fs = memfs.FS(s, {"out/www/d/b.js.hash": HASH})
        deps, children, text = build(s, fs, "src/public/d/m.js", source(items, "'./b.js'"))
        if list(deps) != ["src/public/d/b.js"] or list(children) != ["src/public/d/b.js"]:
            s.fail("%r depends on %r and %r" % (source(items, "'./b.js'"), deps, children))
        compare(s, expected(items, ("value", "/d/b.js" + VERSION)), text, loose="import" in head[1:])
        s.reach("end")

    return fn


def gaps(forms):
    def fn(s):
        form = s.choice("form", forms)
        after = s.choice("before", ["", "a;", "a\n", "/**/", "}", "`${a}`;"] if len(form) < 6 else ["", "}"])
        items = [("raw", "{")] if after == "}" else []
        if after == "a;" or after == "a\n":
            items = [("raw", "a"), ("raw", ";") if after == "a;" else ("space", "\n")]
        elif after == "/**/":
            items = [("space", "/**/")]
        elif after == "}":
            items = [("raw", "{"), ("raw", "}")]
        elif after:
            items = [("raw", "`${"), ("raw", "a"), ("raw", "}`"), ("raw", ";")]
        items += spaced(form, lambda i: s.choice("gap%d" % i, GAPS[::2] if len(form) < 6 else GAPS[::3]))
        items += s.choice("after", [[], [("raw", ";")], [("space", "\n")], [("space", " "), ("raw", "with"), ("raw", "{"), ("raw", "type"), ("raw", ":"), ("string", "'json'"), ("raw", "}")]])
        fs = memfs.FS(s, {"out/www/d/b.js.hash": HASH})
        deps, children, text = build(s, fs, "src/public/m.js", source(items, "'./d/b.js'"))
        if list(deps) != ["src/public/d/b.js"] or list(children) != ["src/public/d/b.js"]:
            s.fail("%r depends on %r and %r" % (source(items, "'./d/b.js'"), deps, children))
        compare(s, expected(items, ("value", "/d/b.js" + VERSION)), text)
        s.reach("end")

    return fn


OTHER = [x.split(" ") for x in """import.meta.url ;
import( './b.js' ) ;
import ( './b.js' ) ;
a . import ;
a . import( './b.js' ) ;
a ?. import( './b.js' ) ;
a . export ;
x = { import : './b.js' } ;
x = { from : './b.js' } ;
x = { export : { from : './b.js' } } ;
export { a , b as from } ;
export { from } ;
export { a as import } ;
export { } ;
export default from ;
export default './b.js' ;
export default { from } ;
export const a = './b.js' ;
export const { from } = './b.js' ;
export function from ( ) { return './b.js' }
export class as { }
export default function * a ( ) { }
export async function a ( ) { }
f ( 'import' , './b.js' ) ;
x = "import a from './b.js'" ;
x = `import a from './b.js'` ;
x = /import'.*'/ ;
from = './b.js' ;
as = from ;
x = from * as ;
a . from ( './b.js' ) ;
Array . from ( './b.js' ) ;
x = a ? from : './b.js' ;
imports ( './b.js' ) ;
exports . from = './b.js' ;
$import ( './b.js' ) ;
x = [ ... import.meta ] ;
'use_strict' ;
a : b ;
{ a } ;
if ( a ) { } else './b.js' ;
for ( x of './b.js' ) ;""".split("\n")]


def others(s):
    """Code that is no import stays, and imports next to it are found."""
    code = s.choice("code", OTHER)
    where = s.choice("where", ["before", "after", "both"])
    gap = s.choice("gap", [" ", "", "\n", "/**/"])
    form = s.choice("form", FORMS[:2] + FORMS[-2:])
    items = []
    sp = [("space", "\n")]

    def mid(i):
        a, b = code[i - 1], code[i]
        if (a[-1] in "?.:" or b[0] in "?.:") and gap != " ":
            return ""
        if gap == "\n" and (a == "async" or b == "("):
            return " "
        return gap

    imp = spaced(form, lambda i: " ") + [("raw", ";")]
    other = [("raw", "a"), ("raw", "?."), ("raw", "import("), ("string", "'./b.js'"), ("raw", ")"), ("raw", ";")] if code[1:2] == ["?."] else []
    plain = [x for x in spaced(code, mid)]
    if where != "after":
        items += imp + sp
    items += plain
    if where != "before":
        items += sp + imp
    fs = memfs.FS(s, {"out/www/d/b.js.hash": HASH, "out/www/b.js.hash": "wrong"})
    deps, children, text = build(s, fs, "src/public/m.js", source(items, "'/d/b.js'"))
    if list(deps) != ["src/public/d/b.js"] or list(children) != ["src/public/d/b.js"]:
        s.fail("%r depends on %r and %r" % (source(items, "'/d/b.js'"), deps, children))
    compare(s, expected(items, ("value", "/d/b.js" + VERSION)), text, loose=True)
    s.reach("end")


STATEMENTS = [("import {a} from %s;", "./b.js", "d/b.js"), ("import %s\n", "/c.js", "c.js"), ("export * from %s;", "../c.js", "c.js"), ("export {a, b as c} from %s\n", "../d/./b.js", "d/b.js"),
              ("import x, * as y from %s;", "react", None), ("export * from %s;", "https://e/x.js", None), ("import(%s);", "./b.js", None), ("/*PREPROCESSOR: ignore-import*/import %s;", "./b.js", None),
              ("/*PREPROCESSOR: ignore-import*/export * from %s;", "./b.js", None), ("import %s;", "./m.js", None), ("export const e = %s;", "./b.js", None), ("export {e};", None, None), ("import %s;", "//e/b.js", None),
              ("import {\n  a, // %%s\n  b,\n} from %s;", "./b.js", "d/b.js")]


def several(sizes):
    def fn(s):
        n = s.choice("statements", sizes)
        items = []
        want = set()
        src = ""
        quoted = []
        for i in range(n):
            text, spec, path = s.choice("statement%d" % i, STATEMENTS)
            pre, _, post = text.partition("%s")
            text = text.replace("%%s", "*s")
            if spec is None:
                src += text
                quoted.append((text, None))
                continue
            pre, _, post = text.partition("%s")
            src += pre + "'" + spec + "'" + post
            if path:
                want.add("src/public/" + path)
                quoted.append((pre, "/" + path + "?" + urlencode({"v": "hash " + path, "pv": PROCESSOR_VERSION})))
            else:
                quoted.append((pre, spec))
            quoted.append((post, None))
        fs = memfs.FS(s, {"out/www/d/b.js.hash": "hash d/b.js", "out/www/c.js.hash": "hash c.js"})
        deps, children, text = build(s, fs, "src/public/d/m.js", src)
        for x in (deps, children):
            if sorted(x) != sorted(want):
                s.fail("%r depends on %r" % (src, sorted(x)))
        # what is left without comments and white space
        exp = "".join(t + ('"' + v + '"' if v else "") for t, v in quoted)
        if bare(text) != bare(exp):
            s.fail("%r became %r" % (src, text))
        s.reach("end")

    return fn


def bare(text):
    import re

    return re.sub(r"//[^\n'\"]*\n|/\*.*?\*/|\s", "", text)


def failing(s):
    """A missing module fails the build."""
    form = s.choice("form", FORMS)
    spec, have = s.choice("missing", [("./x.js", "x.js"), ("/d/b.js", "b.js"), ("../b.js", "d/b.js"), ("./b", "d/b.js"), ("./B.js", "d/b.js")])
    src = source(spaced(form, lambda i: " "), "'" + spec + "'")
    fs = memfs.FS(s, {"src/public/d/m.js": src, "out/www/" + have + ".hash": HASH, "out/www/" + have: "x"})
    ctx = images.context()
    sf.scan_file(ctx, "src/public/d/m.js")
    try:
        bf.build_file(ctx, "src/public/d/m.js")
    except (AssertionError, OSError):
        s.reach("refused")
        return
    s.fail("a module was built with an import of a missing one")


def published(s):
    """The version is the hash of what is published."""
    name = s.choice("name", ["src/public/d/x.js", "src/public/y.mjs", "src/public/z.css"])
    data = s.choice("data", ["let a = 'b'; // c", "", "a{b:c}"])
    fs = memfs.FS(s, {name: data})
    ctx = images.context(symlinks=s.flag("links"))
    bf.build_file(ctx, name)
    path = name[len("src/public"):]
    h = s.conc(fs.text("out/www" + path + ".hash"))
    fs.put(memfs.PROJECT + "/src/public/m.js", "import '" + path + "'")
    bf.build_file(ctx, "src/public/m.js")
    s.check(fs.text("out/www/m.js") == 'import "' + path + "?" + urlencode({"v": h, "pv": PROCESSOR_VERSION}) + '"', "the version is not the hash of the published file")
    s.reach("end")


PREFIXES = ["./", "/", "../", "../../", "./../", "/d/", "/d/../", "/../", "./.", "//", "", "d/", "https://e/", "data:", "#"]
ENDS = ["", ".js", "/", "/b.js", "?q", "#f"]
RELS = ["src/public/m.js", "src/public/d/e/m.js", "src/public/s p/%a/m.js"]


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="one", fn=one(FORMS[:1] if q else FORMS[:1] + FORMS[-1:], PREFIXES, (0, 1), ENDS, ANY, RELS[::2] if q else RELS), reach=["versioned", "kept"]),
        dict(name="two", fn=one(FORMS[6:7] if q else FORMS[1:2] + FORMS[6:7], ["./", "/", "", "../"], (2,), [".js"] if q else ["", ".js"], ANY, RELS[1:2] if q else RELS[1:]), reach=["versioned", "kept"]),
        dict(name="encoded", fn=encoded, reach=["end"]),
        dict(name="names", fn=names(BINDINGS[:4] if q else BINDINGS, NAMES[::2] + ["import"] if q else NAMES, [0, 1]), reach=["end"]),
        dict(name="two names", fn=names(["as", "from"] if q else BINDINGS[:5], ["as", "from", "'s t'"] if q else NAMES, [2], False), reach=["end"]),
        dict(name="gaps", fn=gaps(FORMS), reach=["end"]),
        dict(name="others", fn=others, reach=["end"]),
        dict(name="several", fn=several((0, 1, 2) if q else (0, 1, 2, 3)), reach=["end"]),
        dict(name="missing", fn=failing, reach=["refused"]),
        dict(name="published", fn=published, reach=["end"]),
    ] + ([] if q else [dict(name="three", fn=one(FORMS[:1], ["./", "/", "../"], (3,), ["", ".js"], ANY, RELS[1:]), reach=["versioned", "kept"])])
