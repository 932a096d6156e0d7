"""CSS that uses no directive means the same after the pipeline."""
import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.scan_file as sf
import vanillaplusjs.build.handlers.css as css
from vanillaplusjs.build.css.tokenizer import tokenize
from vanillaplusjs.build.css.serializer import serialize_many
from harness import cssref, images, memfs
from symx import iset
from harness.sio import TextIn
from harness.T04 import normalised

BOUNDS = ("all inputs of up to 2 arbitrary characters (thorough 3), and in each of 40 contexts (inside of strings, urls, escapes, numbers, comments, "
          "identifiers, at the end of the file) up to 2 more; whole files of up to 2 characters and some contexts through scan and build")
OUTSIDE = ("NUL characters and lone surrogates; longer inputs outside of the contexts; hexadecimal escapes of more than 3 arbitrary digits; urls through "
           "whole files (property C03)")
STUBS = ["the disk is an in-memory tree in the file scenarios"]
ANY = iset.rng(1, 0xD7FF) | iset.rng(0xE000, 0x10FFFF)


def same(s, src, out):
    s.observe("out", out)
    s.check(cssref.same(cssref.tokens(normalised(src)), cssref.tokens(normalised(out))), "the output does not mean the same as the input")


def scen(contexts, sizes, dom=ANY):
    def fn(s):
        pre, post = s.choice("context", contexts)
        n = s.choice("length", sizes)
        src = pre + s.text("x", n, dom) + post
        try:
            out = serialize_many(tokenize(TextIn(src)))
        except Exception as e:
            s.fail("fails with " + type(e).__name__)
        same(s, src, out)
        s.reach("end")

    return fn


def whole(contexts, sizes):
    def fn(s):
        pre, post = s.choice("context", contexts)
        n = s.choice("length", sizes)
        src = pre + s.text("x", n, ANY) + post
        rel = s.choice("file", ["src/public/a.css", "src/public/d/b.css"])
        fs = memfs.FS(s)
        ctx = images.context()
        fs.put(memfs.PROJECT + "/" + rel, src)
        out = "out/www/" + rel[len("src/public/"):]
        try:
            scan = sf.scan_file(ctx, rel)
            res = bf.build_file(ctx, rel)
        except Exception as e:
            s.fail("fails with " + type(e).__name__)
        s.check(sorted(scan.produces) == [out, out + ".hash"] and len(scan.dependencies) == 0, "scanning reports something else")
        s.check(sorted(list(res.produced) + list(res.reused)) == [out, out + ".hash"] and len(res.children) == 0, "building reports something else")
        same(s, src, fs.text(out))
        s.reach("end")

    return fn


BARE = [("", "")]
STRINGS = [('"', '"'), ("'", "'"), ('"', ""), ('"\'', '"'), ("'\"", "'"), ('"\\', '"'), ('a"\\', "f'\"b"), ("'\\1", "'")]
URLS = [("url(", ")"), ("url(a", "b)"), ("url( ", " )"), ("url(\\", ")"), ("URL(", ""), ("url(a", " b)c"), ("u\\72 l(", ")"), ("url(/a?", "#b)")]
NUMBERS = [("1", ""), ("+", "1"), ("1.", "0"), ("1e", "2"), ("0", "px"), ("1.5e-", "3a"), ("-.", "5"), ("12", "%"), ("1e3", ""), ("1\\65 ", "2"), ("1-", "a")]
NAMES = [("a", "b"), ("-", "-"), ("#", "a"), ("@", "b"), ("\\", ""), ("a\\", "b"), ("--", ""), ("a", "("), ("#\\3", " a"), ("-\\", ""), ("_", "\\a ")]
REST = [("/*", "*/"), ("/*", ""), ("a/", "*b*/"), ("<!", "-"), ("<", "--"), ("-", ">"), ("a{b:", "}"), ("a\r", "\nb")]


def scenarios(tier):
    q = tier == "quick"
    out = [
        dict(name="short", fn=scen(BARE, (0, 1, 2)), reach=["end"]),
        dict(name="strings", fn=scen(STRINGS, (0, 1, 2)), reach=["end"]),
        dict(name="urls", fn=scen(URLS, (0, 1, 2)), reach=["end"]),
        dict(name="numbers", fn=scen(NUMBERS, (0, 1, 2)), reach=["end"]),
        dict(name="names", fn=scen(NAMES, (0, 1, 2)), reach=["end"]),
        dict(name="rest", fn=scen(REST, (0, 1, 2)), reach=["end"]),
        dict(name="files", fn=whole(BARE + [("a{b:", "}"), ('a"', '"'), ("/*", "*/"), ("@media ", "{}")], (0, 1)), reach=["end"]),
    ]
    if not q:
        out.append(dict(name="three", fn=scen(BARE, (3,)), reach=["end"]))
        out.append(dict(name="strings3", fn=scen(STRINGS[:2], (3,)), reach=["end"]))
    return out
