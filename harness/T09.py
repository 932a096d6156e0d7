"""Pages keep their documents. The parser and the serializer that the build uses are executed symbolically as well."""
# instrument: html5lib xml
import io

import html5lib
import html5lib._inputstream as streams
import html5lib._tokenizer as lexer
import vanillaplusjs.build.handlers.html as html
from harness import images, memfs
from harness.page import TEXT
from symx import iset
from vanillaplusjs.build.html.manipulate_and_serialize import manipulate_and_serialize

BOUNDS = ("one piece of a page out of 80 (elements of every content model, attributes, comments, doctypes, svg and math, tables, lists, forms, missing optional tags) around up to 2 pieces out of 19 character "
          "references and special characters and up to 2 (thorough: 3) arbitrary characters")
OUTSIDE = ("pages that are not valid HTML; NUL, carriage returns and references to them; <plaintext> and a script that contains both <!-- and <script; prefixed attributes other than those of svg and math; the value of a "
           "boolean attribute; the charset declaration, which the build adds or changes; white space behind the body")
STUBS = ["the disk is an in-memory tree", "the parser's error positions are not computed", "the parser's table of character references is asked through sets of prefixes"]
P = memfs.PROJECT + "/"
REL = "src/public/d/a.html"


class Names(dict):
    """The interface of html5lib's trie."""

    def __init__(self, data):
        dict.__init__(self, data)
        self.starts = {}
        for k in data:
            for i in range(len(k) + 1):
                self.starts.setdefault(i, set()).add(k[:i])
        self.full = {}
        for k in data:
            self.full.setdefault(len(k), set()).add(k)

    def has_keys_with_prefix(self, prefix):
        return len(prefix) in self.starts and prefix in self.starts[len(prefix)]

    def longest_prefix(self, prefix):
        for n in range(len(prefix), 0, -1):
            if n in self.full and prefix[:n] in self.full[n]:
                return prefix[:n]
        raise KeyError(prefix)


def prepare(s):
    if s.symbolic and not isinstance(lexer.entitiesTrie, Names):
        lexer.entitiesTrie = Names(lexer.entities)
        streams.HTMLUnicodeInputStream._position = lambda self, offset: (0, 0)
        streams.HTMLUnicodeInputStream.characterErrorsUCS4 = lambda self, data: None


BOOLEAN = html5lib.constants.booleanAttributes


def document(text):
    """The tokens of a page; neighbouring texts joined, without the charset declaration."""
    doc = html5lib.HTMLParser(html5lib.treebuilders.getTreeBuilder("dom"), namespaceHTMLElements=False).parse(io.StringIO(text))
    out = []
    skip = 0
    for t in html5lib.getTreeWalker("dom")(doc):
        k = t["type"]
        if k == "Doctype":
            out.append((k, t["name"], t["publicId"], t["systemId"]))
        elif k in ("StartTag", "EmptyTag"):
            attrs = dict(t["data"])
            if t["name"] == "meta" and (None, "charset") in attrs:
                skip = 1 if k == "StartTag" else 0
                continue
            if t["name"] == "meta" and (None, "http-equiv") in attrs and attrs[(None, "http-equiv")].lower() == "content-type":
                attrs[(None, "content")] = "charset"
            for a in attrs:
                if a[1] in BOOLEAN.get(t["name"], ()) or a[1] in BOOLEAN[""]:
                    attrs[a] = ""
            out.append(("Tag", t["name"], t["namespace"], attrs))
            if k == "EmptyTag":
                out.append(("EndTag", t["name"]))
        elif k == "EndTag":
            out.append((k, t["name"]))
        elif k == "Comment":
            out.append((k, t["data"]))
        elif out and out[-1][0] == "Text":
            out[-1] = ("Text", out[-1][1] + t["data"])
        else:
            out.append(("Text", t["data"]))
    # white space at the end of the body
    for i in range(len(out) - 1, -1, -1):
        if out[i] == ("EndTag", "body"):
            if i and out[i - 1][0] == "Text":
                t = out[i - 1][1].rstrip("\n")
                out[i - 1:i] = [("Text", t)] if len(t) else []
            break
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y):
            return False
        if x[0] == "Tag":
            if x[1] != y[1] or x[2] != y[2] or len(x[3]) != len(y[3]):
                return False
            for k in x[3]:
                if k not in y[3]:
                    return False
                r = r & (x[3][k] == y[3][k])
        elif x[0] in ("Text", "Comment"):
            r = r & (x[1] == y[1])
        elif x != y:
            return False
    return r


def run(s, src, bare=False):
    prepare(s)
    fs = memfs.FS(s)
    fs.put(P + REL, src)
    if bare:
        manipulate_and_serialize(P + REL, P + "out/www/d/a.html", [])
    else:
        html.build_file(images.context(), REL)
    out = fs.text("out/www/d/a.html")
    s.observe("out", out)
    s.check(same(document(src), document(out)), "the page that was written is another document")
    s.reach("end")


def page(body, head=""):
    return "<!DOCTYPE html><html lang=\"en\"><head><title>t</title>" + head + "</head><body>" + body + "</body></html>"


def el(name, attrs=""):
    return ("<%s%s>" % (name, attrs and " " + attrs), "</%s>" % name)


B = ["p", "a", "h1", "b", "button", "label", "li", "blockquote", "em", "code", "custom-el", "main", "textarea", "pre", "noscript", "template", "video", "object", "address", "nobr"]
PIECES = [page("<%s>\0</%s>" % (n, n)) for n in B] + [
    page("\0"), page("x <b>y</b> \0 <i>z</i>"), page("<p>a<br>\0<p>b"), page("<ul><li>\0<li>x</ul>"), page("<dl><dt>\0<dd>x</dl>"),
    page("<table><tr><td>\0<td>x</table>"), page("<table><caption>\0</caption><colgroup><col><thead><tr><th>a<tbody><tr><td>b<tfoot></table>"), page("<select><option>\0<option selected>b</select>"),
    page("<select><optgroup label=a><option>\0</select>"), page("<details open><summary>\0</summary>x</details>"), page("<svg viewBox='0 0 1 1'><text>\0</text><path d='M0'/></svg>"),
    page("<svg><title>\0</title><foreignObject><p>x</p></foreignObject></svg>"), page("<math><mi>\0</mi><mo>x</mo></math>"), page("<form><fieldset><legend>\0</legend><input></fieldset></form>"),
    page("<figure><img alt=x><figcaption>\0</figcaption></figure>"), page("<audio controls><source><track>\0</audio>"), page("<ruby>a<rp>(</rp><rt>\0</rt></ruby>"),
    page("<p>a</p>\0<!--c--><p>b</p>"), page("<noscript><p>\0</p></noscript>"), page("<noscript><iframe></iframe>\0</noscript>"), page("<div><iframe>1</iframe>\0</div>"),
    page("<noscript>a <b>b</b>\0</noscript>"), page("<pre><b>x</b>\0</pre>"), page("<pre>x\0</pre>"),
    page("", "</title>").replace("<title>t</title></title>", "<title>\0</title>"), "<title>\0</title>x", "<p>\0", "\0", "<!DOCTYPE html>\n<title>t</title>\n\0", "<!-- a --><!DOCTYPE html><html><body><p>\0</html>",
    "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\"><p>\0", "<!DOCTYPE html SYSTEM \"about:legacy-compat\"><p>\0", "<html><head></head><body>\0</body></html>",
    page("<p>\0</p>", "<meta charset=\"latin1\"><link rel=\"x\"><base target=\"y\">"), page("<p>\0</p>", "<META HTTP-EQUIV=\"Content-Type\" CONTENT=\"text/html; charset=latin1\">"),
]
RAW = [page("<script>\0</script>"), page("<style>\0</style>"), page("", "<script>\0</script>"), page("", "<style>\0</style>"), page("<iframe>\0</iframe>"), page("<xmp>\0</xmp>"), page("<noembed>\0</noembed>"),
       page("<script type='x'>\n\0\n</script><p>&lt;</p>"), page("<svg><style>a</style></svg><style>\0</style>")]
ATTRS = [page("<p title=\"\0\">x</p>"), page("<p title='\0'>x</p>"), page("<p data-x-Y=\"\0\" class=\"a\">x</p>"), page("<input value=\"\0\" type=text disabled>"), page("<a onclick='\0' name=n>x</a>"),
         page("<div style=\"\0\"></div>"), page("<svg><g data-name=\"\0\" viewBox=\"0\"></g></svg>"), page("<svg><use xlink:href=\"\0\" href=\"#b\"/></svg>"), page("<svg xml:lang=\"\0\" lang=\"x\"><a/></svg>"),
         page("<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"><a xlink:title='\0'></a></svg>"), page("<math definitionURL=\"\0\"></math>"),
         page("", "<meta name=\"d\" content=\"\0\">"), page("<option value=\"\0\" selected=\"selected\">x"), page("<img alt=\"\0\">"), page("<textarea placeholder=\"\0\">a</textarea>"),
         "<!DOCTYPE html><html lang=\"\0\"><body class=\"x\">a", "<!DOCTYPE html><html><body class=\"\0\">a", page("<p x:y=\"\0\" @click=\"z\" :a=\"b\" #r [p]=\"q\">x</p>"), page("<td-x a=\"\0\"></td-x>")]
COMMENTS = ["<!--\0--><!DOCTYPE html><p>x", page("<!--\0-->"), page("<p>a<!--\0-->b</p>"), page("", "<!--\0-->"), page("x") + "<!--\0-->", "<!DOCTYPE html><!--\0--><html><!--b--><head></head><!--c--><body>x",
            page("<svg><!--\0--></svg>"), page("<table><!--\0--><tr><!--d--><td>x</table>"), page("<ul><!--\0--><li>x</li></ul>")]
REFS = ["", "a", "&lt;", "&amp;", "&gt;", "&quot;", "&apos;", "&nbsp;", "&notin;", "&#39;", "&#x3c;", "&amp;lt;", "&lt;!--", "&lt;/p&gt;", "!-- x -->", "-->", "\n", " ", "\u00e9\U0001f600"]
PLAIN = TEXT - iset.chars("<&")


def put(s, src, t, bare=False):
    i = src.find("\0")
    run(s, src[:i] + t + src[i + 1:], bare)


def refs(n):
    def fn(s):
        src = s.choice("piece", PIECES)
        t = ""
        for i in range(n):
            t = t + s.choice("ref%d" % i, REFS)
        put(s, src, t)

    return fn


def texts(before, sizes, after):
    def fn(s):
        src = s.choice("piece", PIECES)
        put(s, src, s.choice("before", before) + s.text("t", s.choice("length", sizes), PLAIN) + s.choice("after", after))

    return fn


def attrs(refs, sizes):
    def fn(s):
        src = s.choice("piece", ATTRS)
        i = src.find("\0")
        t = ""
        for k in range(refs):
            t = t + s.choice("ref%d" % k, REFS + ["<", "<b>"])
        t = t + s.text("t", s.choice("length", sizes), TEXT - iset.chars("&" + src[i - 1])) + s.choice("end", ["", "&", "&quot;"])
        put(s, src, t)

    return fn


def raws(sizes):
    def fn(s):
        src = s.choice("piece", RAW)
        t = s.choice("start", ["", "<", "<!--", "&lt;", "&", "\n", "'<b>"]) + s.text("t", s.choice("length", sizes), TEXT)
        s.assume("</" not in t)
        put(s, src, t + s.choice("end", ["", "-->", "&amp;"]), True)

    return fn


def comments(sizes):
    def fn(s):
        src = s.choice("piece", COMMENTS)
        t = s.choice("start", ["x", " ", "&lt;", "<p>", "- "]) + s.text("t", s.choice("length", sizes), TEXT) + s.choice("end", ["", " "])
        s.assume("--" not in t and not t.endswith("-") and "[" not in t)
        put(s, src, t)

    return fn


NAMES = [("<p>a</p><x-\0>b</x-\0>", True), ("<p \0=\"v\">x</p>", False), ("<div a=1 data-\0 b=2>x</div>", False), ("<input \0 type=x>", False), ("<svg><g \0='v'></g></svg>", False), ("<a-b x\0='&lt;'></a-b>", False)]


def names(sizes):
    def fn(s):
        src, element = s.choice("piece", NAMES)
        n = s.text("t", s.choice("length", sizes), (iset.chars("abxAZ09-_.") | iset.rng(0xB7, 0x2FF) if element else TEXT - iset.chars(" \t\n\f/>=\"'<\0[")))
        a, b, c = (src + "\0").split("\0")[:3]
        run(s, page(a + n + (b + n + c if element else b)), True)

    return fn


def scenarios(tier):
    quick = tier == "quick"
    k = dict(reach=["end"], step_limit=4000000)
    return [dict(name="references", fn=refs(1 if quick else 2), **k), dict(name="text", fn=texts([""], [1] if quick else [1, 2], [""]), **k),
            dict(name="between", fn=texts(["", "&lt;", "\n"] if quick else REFS, [1], ["&lt;", "-->"]), **k), dict(name="attrs", fn=attrs(1, [0, 1] if quick else [1, 2]), **k),
            dict(name="raw", fn=raws([0, 1, 2] if quick else [1, 2, 3]), **k), dict(name="names", fn=names([1] if quick else [1, 2]), **k), dict(name="comments", fn=comments([0, 1] if quick else [1, 2, 3]), **k)]
