"""HTML pages for the manipulators. While exploring, html5lib is a stand-in: a
page is its token stream (attribute values and texts symbolic) and serializing
records the tokens. A replay writes the page as text, goes through the real
html5lib both ways and parses the result."""
import io

import html5lib
import html5lib.serializer
import vanillaplusjs.build.html.tokenizer as tz
from harness import memfs
from symx import iset

P = memfs.PROJECT + "/"
VOID = ("link", "meta", "img", "source", "br", "input")


def tag(name, **attrs):
    return ("tag", name, {k.rstrip("_").replace("__", ":").replace("_", "-"): v for k, v in attrs.items()})


def tagd(name, attrs):
    return ("tag", name, dict(attrs))


def end(name):
    return ("end", name)


def text(t):
    return ("text", t)


def comment(t):
    return ("comment", t)


def esc(v):
    return v.replace("&", "&amp;").replace('"', "&quot;")


TEXT = iset.rng(1, 12) | iset.rng(14, 0xD7FF) | iset.rng(0xE000, 0x10FFFF)
"""Characters of a page; HTML parsing replaces the others (NUL, CR, surrogates)."""


def tokens_of(items):
    out = []
    for it in items:
        if it[0] == "tag":
            out.append({"type": "EmptyTag" if it[1] in VOID else "StartTag", "name": it[1],
                        "data": {(None, k): v for k, v in it[2].items()}})
        elif it[0] == "end":
            out.append({"type": "EndTag", "name": it[1]})
        elif it[0] == "comment":
            out.append({"type": "Comment", "data": it[1]})
        else:
            out.append({"type": "Characters", "data": it[1]})
    return out


def markup(items):
    out = ""
    raw = False
    for it in items:
        if it[0] == "tag":
            raw = it[1] in ("script", "style")
            out += "<" + it[1] + "".join(' %s="%s"' % (k, esc(v)) for k, v in it[2].items()) + ">"
        elif it[0] == "end":
            raw = False
            out += "</" + it[1] + ">"
        elif it[0] == "comment":
            out += "<!--" + it[1] + "-->"
        else:
            out += it[1] if raw else it[1].replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    return out


def simple(t):
    """Comparable form of a token."""
    if t["type"] in ("StartTag", "EmptyTag"):
        return ("tag", t["name"], {k[1]: v for k, v in t["data"].items()})
    if t["type"] == "EndTag":
        return ("end", t["name"])
    if t["type"] == "Comment":
        return ("comment", t["data"])
    return ("text", t["data"])


class Pages:
    def __init__(self, s, fs):
        self.s, self.fs = s, fs
        self.docs = {}
        self.results = {}
        self.out = None
        if s.symbolic:
            s.intercept(tz.tokenize, self.tokenize)
            s.intercept(html5lib.serializer.HTMLSerializer, self.serializer)

    def page(self, rel, head=(), body=()):
        items = [tag("html"), tag("head")] + list(head) + [end("head"), tag("body")] + list(body) + [end("body"), end("html")]
        self._add(rel, items, "<!DOCTYPE html>")

    def partial(self, rel, items):
        self._add(rel, items, "")

    def _add(self, rel, items, doctype):
        if self.s.symbolic:
            self.docs[P + rel] = items
            self.fs.put(P + rel, "(page)")
        else:
            self.fs.put(P + rel, doctype + markup(items))

    def tokenize(self, f, fragment=False):
        for t in tokens_of(self.docs[f.name]):
            yield t

    def serializer(self, **options):
        pages = self

        class Serializer:
            def serialize(self, tokens, encoding=None):
                out = []
                t = ""
                for x in tokens:
                    out.append(simple(x))
                    t = t + "<" + x["type"]
                    if x["type"] in ("StartTag", "EmptyTag"):
                        for k, v in x["data"].items():
                            t = t + " " + k[1] + "=" + v
                    elif "data" in x:
                        t = t + x["data"]
                pages.last = out
                yield t.encode("utf-8")

        return Serializer()

    def result(self, rel):
        """Tokens of a written page (neighbouring texts joined)."""
        if self.s.symbolic:
            toks = self.last
        else:
            doc = html5lib.HTMLParser(html5lib.treebuilders.getTreeBuilder("dom"), namespaceHTMLElements=False).parse(
                io.StringIO(self.fs.text(rel)))
            toks = [simple(x) for x in html5lib.getTreeWalker("dom")(doc) if x["type"] != "Doctype"]
        out = []
        for t in toks:
            if t[0] == "text" and len(t[1]) == 0:
                continue
            if t[0] == "text" and out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + t[1])
            else:
                out.append(t)
        return out

    def tags(self, rel, *names):
        return [t for t in self.result(rel) if t[0] == "tag" and t[1] in names]
