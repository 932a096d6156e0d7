"""Scripts that use no directive mean the same after the pipeline."""
import vanillaplusjs.build.build_file as bf
import vanillaplusjs.build.scan_file as sf
from vanillaplusjs.build.js.serializer import serialize_many
from vanillaplusjs.build.js.tokenizer import tokenize
from harness import images, memfs
from harness.T05 import Bad, Parser
from harness.sio import TextIn
from symx import iset

BOUNDS = ("a slash after each of 151 beginnings (98 after which it starts a regular expression, 53 after which it divides) with 5 ways of spacing, followed by a "
          "regular expression of up to 3 (thorough 4) arbitrary characters, or by operands with up to 4 arbitrary characters in strings; strings, "
          "templates and their substitutions, and comments with up to 3 (thorough 4) arbitrary characters, also in longer contexts; up to 2 (thorough 3) "
          "characters elsewhere; up to 1 (thorough 3) arbitrary ones through scan and build")
OUTSIDE = ("hashbang and HTML-like comments; escapes in directive prologues and in keywords; a function or class expression or an object literal after the colon "
           "of a conditional directly before a slash; await, yield and of as names directly before a slash; syntactically invalid programs")
STUBS = ["the disk is an in-memory tree in the file scenarios"]
ANY = iset.rng(1, 0xD7FF) | iset.rng(0xE000, 0x10FFFF)
NEWLINE = "\n\r\u2028\u2029"
SPACE = "\t\v\f \ufeff\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u202f\u205f\u3000"
WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$#"

REGEX = [x.strip() for x in """
 ~~ x = ~~ f ( ~~ [ ~~ { ~~ { } ~~ if ( a ) ~~ while ( a ) ~~ for ( ; ; ) ~~ for await ( x of y ) ~~ with ( a ) ~~ if ( a ) ; else ~~ do ~~ do { } while ( a ) ~~
return ~~ typeof ~~ void ~~ delete ~~ throw ~~ switch ( a ) { case ~~ switch ( a ) { case 1 : ~~ switch ( a ) { default : ~~ a in ~~ a instanceof ~~ new ~~
for ( x of ~~ await ~~ yield ~~ yield * ~~ a , ~~ a ; ~~ a ? ~~ a ? b : ~~ ! ~~ ~ ~~ a & ~~ a | ~~ a ^ ~~ a % ~~ a * ~~ a ** ~~ a && ~~ a || ~~ a ?? ~~ a => ~~ ( ) => ~~
[ ... ~~ f ( ... ~~ a == ~~ a === ~~ a != ~~ a < ~~ a > ~~ a <= ~~ a >= ~~ a << ~~ a >> ~~ a >>> ~~ a + ~~ a - ~~ + ~~ - ~~ a += ~~ a *= ~~ a / ~~ a /= ~~ a ??= ~~
{ a : ~~ x = { a : ~~ x = { a : 1 , b : ~~ `a${ ~~ function f ( ) { } ~~ class A { } ~~ class A extends B { } ~~ a : { } ~~ a : ~~ try { } catch { } ~~ try { } catch ( e ) { } ~~
try { } finally { } ~~ export default ~~ import 'a' ; ~~ import { a } from 'a' ; ~~ x = 1 ; { } ~~ if ( a ) { } else { } ~~ if ( a ( b ) ) ~~ while ( { } ) ~~ x = { } ; ~~ do { } while ( a ) ; ~~
class A { static { } a = ~~ => { ~~ `a${ b } c` ; ~~ 'use_strict' ; ~~ a ? [ ] : ( ~~ export const a = ~~ { { } } ~~ ( ( a ) => { ~~ async ( ) => ~~ a = b ? c :
""".replace("\n", " ").split("~~")]

DIVIDE = [x.strip() for x in """
a ~~ 1 ~~ 1.5 ~~ .5 ~~ 1. ~~ 0x1f ~~ 0x1e ~~ 1n ~~ 1e5 ~~ 1e+5 ~~ 1_0 ~~ 's' ~~ "s" ~~ /r/ ~~ /r/g ~~ /[/]/ ~~ `t` ~~ `t${ a }u` ~~ `${ { } }` ~~ ( a ) ~~ f ( ) ~~ a [ 0 ] ~~ [ ] ~~ a . if ~~ a ?. return ~~
a . if ( b ) ~~ a . typeof ~~ this ~~ null ~~ true ~~ x = { } ~~ ( { } ) ~~ x = { a : { } } ~~ x = { if ( ) { } } ~~ return { } ~~ a ++ ~~ a -- ~~ ( a ) ++ ~~ new . target ~~ import . meta ~~
import ( 'x' ) ~~ ( function ( ) { } ) ~~ this . #return ~~ $ ~~ _ ~~ async ~~ [ { } ] ~~ f ( a , { } ) ~~ x = [ { } , { } ] ~~ a ? b : c ~~ if ( a ) b ~~ await a ~~ f ( { a : { } } )
""".replace("\n", " ").split("~~")]


def glue(parts, spacing):
    """The separators between the tokens of a context."""
    out = []
    for a, b in zip(parts, parts[1:]):
        need = (a[-1] in WORD and b[0] in WORD) or (a[-1] in "+-/<>=&|*?.!:%^" and b[0] in "+-/<>=&|*?.!:%^") or (a[0] in ".0123456789" and b[0] == ".")
        if spacing == "tight":
            out.append(" " if need else "")
        elif spacing == "lines" and b not in ("++", "--"):
            out.append("\n")
        elif spacing == "comments" and b not in ("++", "--"):
            out.append("//'`/\n")
        elif spacing == "block comments" and b not in ("++", "--"):
            out.append("/*'`/*/")
        else:
            out.append(" ")
        if out[-1].startswith("/") and a[-1] == "/":
            out[-1] = " " + out[-1]
    return out


def pieces(context, spacing):
    parts = context.split(" ") if context else []
    out = []
    seps = glue(parts, spacing) if parts else []
    for i in range(len(parts)):
        t = parts[i]
        if t[0] in "'\"":
            out.append(("string", t))
        else:
            out.append(("raw", t))
        if i < len(seps):
            out.append(("space", seps[i]))
    return out


def spacing_of(s, context):
    return s.choice("spacing", ["spaces", "tight", "lines", "comments", "block comments"])


class Out(Parser):
    """Follows the tokens of the result."""

    def gap(self):
        """Skip white space and comments; is there any, and is there a new line."""
        start = self.i
        line = False
        while self.i < len(self.t):
            c = self.t[self.i]
            if c in NEWLINE:
                line = True
                self.i += 1
            elif c in SPACE:
                self.i += 1
            elif c == "/" and self.t[self.i:self.i + 2] == "/*":
                self.i += 2
                while self.t[self.i:self.i + 2] != "*/":
                    if self.i >= len(self.t):
                        raise Bad("unterminated comment")
                    if self.t[self.i] in NEWLINE:
                        line = True
                    self.i += 1
                self.i += 2
            elif c == "/" and self.t[self.i:self.i + 2] == "//":
                while self.i < len(self.t) and not self.t[self.i] in NEWLINE:
                    self.i += 1
            else:
                break
        return self.i != start, line


class Loose(Parser):
    """String literals of sloppy code."""

    def string(self):
        q = self.t[0]
        out = ""
        self.i = 1
        t = self.t
        n = len(t) - 1
        if n == 0 or t[n] != q:
            raise Bad("unterminated")
        while self.i < n:
            c = t[self.i]
            self.i += 1
            if c == q or c == "\n" or c == "\r":
                raise Bad("ends early")
            if c != "\\":
                out = out + c
                continue
            if self.i >= n:
                raise Bad("the quote is escaped")
            c = t[self.i]
            if c in "01234567":
                k = 1
                most = 3 if c in "0123" else 2
                while k < most and self.i + k < n and t[self.i + k] in "01234567":
                    k += 1
                out = out + chr(int(t[self.i:self.i + k], 8))
                self.i += k
                continue
            self.i += 1
            if c == "u" and self.peek() == "{":
                self.i += 1
                k = 0
                while self.i + k < n and t[self.i + k] in "0123456789abcdefABCDEF":
                    k += 1
                if k == 0 or k > 6 or t[self.i + k] != "}":
                    raise Bad("bad escape")
                v = int(t[self.i:self.i + k], 16)
                if v > 0x10FFFF:
                    raise Bad("bad escape")
                out = out + chr(v)
                self.i += k + 1
            elif c == "u":
                out = out + chr(self.hexes(4))
            elif c == "x":
                out = out + chr(self.hexes(2))
            elif c == "n":
                out = out + "\n"
            elif c == "t":
                out = out + "\t"
            elif c == "r":
                out = out + "\r"
            elif c == "b":
                out = out + "\b"
            elif c == "f":
                out = out + "\f"
            elif c == "v":
                out = out + "\v"
            elif c == "\r" and self.peek() == "\n" and self.i < n:
                self.i += 1
            elif c == "\n" or c == "\r" or c == "\u2028" or c == "\u2029":
                pass
            else:
                out = out + c
        return out


def value(s, literal):
    try:
        return Loose(literal).string()
    except Bad:
        s.assume(False)


def lines(text):
    for c in text:
        if c in NEWLINE:
            return True
    return False


def newlines(text):
    """Template literals and comments see line ends as they are normalised."""
    out = ""
    i = 0
    while i < len(text):
        if text[i] == "\r":
            out = out + "\n"
            if text[i:i + 2] == "\r\n":
                i += 1
        else:
            out = out + text[i]
        i += 1
    return out


def compare(s, items, out, loose=False):
    """The result has these tokens; (value, v) is a string with that value. If loose, there may be comments in addition."""
    o = Out(out)
    try:
        some = line = slash = False
        for kind, text in items + [("end", "")]:
            if kind == "space":
                some = some or len(text) > 0
                line = line or lines(text)
                continue
            if slash and not (kind == "end") and o.peek() != "" and o.peek() in "/*":
                s.fail("a division became a comment")
            got, broken = o.gap()
            if got != some and not (loose and got):
                s.fail("white space appears or disappears")
            if broken != line:
                s.fail("a new line appears or disappears")
            some = line = slash = False
            if kind == "raw":
                s.check(o.t[o.i:o.i + len(text)] == text, "a token is not the same")
                o.i += len(text)
                slash = text == "/"
            elif kind == "string":
                v = value(s, text)
                if o.peek() not in "'\"":
                    s.fail("a string is missing")
                s.check(o.string() == v, "a string has another value")
            elif kind == "value":
                if o.peek() not in "'\"":
                    s.fail("a string is missing")
                s.check(o.string() == text, "a string has another value")
            elif kind == "check":
                if o.peek() not in "'\"":
                    s.fail("a string is missing")
                text(o.string())
        s.check(o.i == len(o.t), "there is something left")
    except Bad as e:
        s.fail(str(e))


def run(s, items):
    src = ""
    for kind, text in items:
        src = src + text
    try:
        out = serialize_many(tokenize(TextIn(src)))
    except Exception as e:
        s.fail("fails with " + type(e).__name__)
    s.observe("out", out)
    compare(s, items, out)
    s.reach("end")


def regex_body(s, body):
    """Only well-formed bodies."""
    if len(body) == 0 or body[0] == "*" or body[0] == "/":
        s.assume(False)
    inside = False
    i = 0
    while i < len(body):
        c = body[i]
        if c in NEWLINE:
            s.assume(False)
        if c == "\\":
            i += 1
            if i >= len(body) or body[i] in NEWLINE:
                s.assume(False)
        elif c == "[":
            inside = True
        elif c == "]":
            inside = False
        elif c == "/" and not inside:
            s.assume(False)
        i += 1
    if inside:
        s.assume(False)


SUFFIX = [[("raw", ";"), ("string", "'\\u0061'")], [("space", " "), ("raw", "/"), ("space", " "), ("string", "'/'"), ("raw", "+"), ("string", "'//x'")],
          [("raw", "."), ("raw", "test"), ("raw", "("), ("string", "'//'"), ("raw", ")"), ("raw", "/"), ("raw", "b"), ("space", "/*c*/")]]


def regexes(contexts, spacings, sizes, suffixes=1):
    def fn(s):
        context = s.choice("context", contexts)
        spacing = s.choice("spacing", spacings)
        n = s.choice("length", sizes)
        items = pieces(context, spacing)
        if items:
            sp = glue([items[-1][1], "/"], spacing)[0]
            items.append(("space", sp))
        body = s.text("r", n, REGEXY if n > 2 else ANY)
        pre, post = s.choice("around", AROUND if n > 2 else [("", "")])
        body = pre + body + post
        regex_body(s, body)
        items.append(("raw", "/" + body + "/" + s.choice("flags", ["", "gimsuyd"])))
        items += SUFFIX[s.choice("suffix", list(range(suffixes)))]
        run(s, items)

    return fn


AROUND = [("", ""), ("[", "]")]
REGEXY = iset.chars("/*'\"`\\[]{}$a(\n")
STRINGY = iset.chars("/*'\"`\\[]{}$a")
OPERANDS = [("%s", "+", "%s"), ("%s", "/", "%s"), ("/*%s*/", "b", "/", "%s"), ("( %s", "/", "2", "+", "`//${ 1 }'`", ")"), ("//%s\n", "'/'", "/", "2")]


def divisions(contexts, spacings, sizes, operands):
    def fn(s):
        context = s.choice("context", contexts)
        spacing = s.choice("spacing", spacings)
        n = s.choice("length", sizes)
        items = pieces(context, spacing)
        items.append(("space", glue([items[-1][1], "/"], spacing)[0]))
        items.append(("raw", s.choice("operator", ["/", "/="])))
        items.append(("space", " "))
        for k in range(n):
            if k:
                items += [("space", " "), ("raw", s.choice("operator%d" % k, ["+", "/"])), ("space", " ")]
            kind = s.choice("operand%d" % k, operands)
            t = s.text("s%d" % k, 2, STRINGY)
            if kind == "//":
                items.append(("space", "//" + t + "\n"))
                items.append(("raw", "b"))
            elif kind == "/*":
                if t == "*/":
                    s.assume(False)
                items.append(("space", "/*" + t + "*/"))
                items.append(("raw", "b"))
            elif kind == "`":
                template(s, t)
                items.append(("raw", "`" + t + "`"))
            elif kind == "r":
                regex_body(s, t)
                items.append(("raw", "/" + t + "/"))
            else:
                items.append(("string", kind + t + kind))
                value(s, items[-1][1])
        run(s, items)

    return fn


def template(s, t, closed=True):
    """Only template characters."""
    i = 0
    while i < len(t):
        if t[i] == "\\":
            i += 1
            if i >= len(t):
                s.assume(False)
        elif t[i] == "`":
            s.assume(False)
        elif t[i] == "$" and t[i:i + 2] == "${":
            s.assume(False)
        i += 1
    if closed is None and len(t) and t[-1] == "$" and not t[-2:] == "\\$":
        pass
    return t


INNER = ["a", "{ }", "{ a : { } }", "`b`", "`${ c }`", "'}'", "/}/", "/`/", "a / 2", "f ( { } ) / 2", "`${ { } }` / 2", "( ) => { return /}/ ; }", "a // }`\n", "/*}`*/", "'${'", "1 / 2"]


def templates(sizes, dom):
    def fn(s):
        n = s.choice("length", sizes)
        inner = s.choice("inner", INNER)
        twice = s.choice("holes", [0, 1, 2])
        a = s.text("a", n, dom)
        template(s, a)
        items = [("raw", "x"), ("space", " "), ("raw", "="), ("space", " ")]
        if twice == 0:
            if inner != INNER[0]:
                s.assume(False)
            items.append(("raw", "`" + newlines(a) + "`"))
            src = [("raw", "`" + a + "`")]
        else:
            b = s.text("b", n, dom)
            template(s, b)
            parts = []
            if "//" in inner or "/*" in inner:
                parts = [("raw", "a"), ("space", inner[1:] if inner[0] == "a" else inner)]
            else:
                parts = [("string" if p[0] == "'" else "raw", p) for p in inner.split(" ")]
                k = 1
                while k < len(parts):
                    parts.insert(k, ("space", " "))
                    k += 2
            src = [("raw", "`" + a + "${")] + parts
            new = [("raw", "`" + newlines(a) + "${")] + parts
            if twice == 2:
                src += [("raw", "}" + b + "${")] + parts
                new += [("raw", "}" + newlines(b) + "${")] + parts
                b = ""
            src += [("raw", "}" + b + "`")]
            new += [("raw", "}" + newlines(b) + "`")]
            items += new
        head = [("raw", "x"), ("space", " "), ("raw", "="), ("space", " ")]
        tail = [("space", " "), ("raw", "/"), ("space", " "), ("string", "'/'"), ("raw", "+"), ("string", '"//"')]
        text = ""
        for _, t in head + src + tail:
            text = text + t
        try:
            out = serialize_many(tokenize(TextIn(text)))
        except Exception as e:
            s.fail("fails with " + type(e).__name__)
        s.observe("out", out)
        compare(s, items + tail, out)
        s.reach("end")

    return fn


def strings(contexts, sizes, dom):
    def fn(s):
        pre, post = s.choice("context", contexts)
        q = s.choice("quote", ["'", '"'])
        n = s.choice("length", sizes)
        lit = q + pre + s.text("x", n, dom) + post + q
        value(s, lit)
        run(s, [("raw", "a"), ("raw", "="), ("string", lit), ("raw", "/"), ("raw", "b"), ("raw", ";"), ("string", "'//'"), ("space", "\n")])

    return fn


def comments(sizes, dom):
    def fn(s):
        n = s.choice("length", sizes)
        text = s.text("x", n, dom)
        kind = s.choice("kind", ["//", "/*"])
        pre, post = s.choice("context", [("", ""), ("*", ""), ("", "*"), ("/", "/"), (" @@type-hint", "x")])
        body = pre + text + post
        end = s.choice("end", ["", "\n", "\r\n", "\r", "\u2028", "\u2029"])
        if kind == "//":
            if lines(body):
                s.assume(False)
            items = [("space", "//" + body + end)]
            if end == "":
                items = [("raw", "a"), ("raw", ";")] + items
            else:
                items = [("raw", "a"), ("space", " ")] + items + [("raw", "/"), ("space", " "), ("string", "'//'")]
        else:
            for i in range(len(body)):
                if body[i:i + 2] == "*/":
                    s.assume(False)
            items = [("raw", "a"), ("space", "/*" + body + "*/" + end), ("raw", "b"), ("space", end), ("raw", "="), ("string", "'//'")]
        run(s, items)

    return fn


def other(sizes, dom):
    """Anything that starts no string, comment or regular expression is kept as it is."""
    dom = dom - iset.chars("'\"`/\\\n\r\u2028\u2029")

    def fn(s):
        pre, post = s.choice("context", [("", ""), ("a", "b"), ("x = {", "}"), ("1", "2"), ("(", ")"), ("import(", ")"), ("a.", "")])
        n = s.choice("length", sizes)
        src = pre + s.text("x", n, dom) + post
        if src[:2] == "#!":
            s.assume(False)
        try:
            out = serialize_many(tokenize(TextIn(src)))
        except Exception as e:
            s.fail("fails with " + type(e).__name__)
        s.check(out == src, "the text changes")
        s.reach("end")

    return fn


def escaped(s):
    """Identifiers with escapes keep their value."""
    form = s.choice("form", ["\\u00%s", "\\u{%s}", "\\u{0%s}", "\\u{000000%s}"])
    where = s.choice("where", [("", ""), ("a", ""), ("", "b"), ("a.", "c"), ("$", "_")])
    hi = s.char("hi", iset.chars("2467"))
    lo = s.char("lo", iset.chars("0123456789abcdefABCDEF"))
    v = int(hi + lo, 16)
    c = chr(v)
    if c in "/\\`'\"" or not (c in WORD) or c == "#":
        s.assume(False)
    if c in "0123456789" and where[0] in ("", "a."):
        s.assume(False)
    src = where[0] + form.replace("%s", hi + lo) + where[1]
    exp = where[0] + c + where[1]
    out = serialize_many(tokenize(TextIn("x = " + src + " / '//'")))
    s.check(out == "x = " + exp + ' / "//"', "an escaped name changes")
    s.reach("end")


def invalid(contexts, sizes, dom=ANY):
    """Unfinished input neither fails nor loses what is there."""
    def fn(s):
        pre = s.choice("context", contexts)
        n = s.choice("length", sizes)
        src = pre + s.text("x", n, dom)
        try:
            serialize_many(tokenize(TextIn(src)))
        except Exception as e:
            s.fail("fails with " + type(e).__name__)
        s.reach("end")

    return fn


def whole(sizes):
    def fn(s):
        rel = s.choice("file", ["src/public/a.js", "src/public/js/b.js"])
        n = s.choice("length", sizes)
        kind = s.choice("kind", ["string", "regex", "comment", "template"])
        x = s.text("x", n, ANY)
        items = [("raw", "a"), ("space", " "), ("raw", "="), ("space", " ")]
        if kind == "string":
            lit = "'" + x + "'"
            value(s, lit)
            items.append(("string", lit))
        elif kind == "regex":
            regex_body(s, x)
            items.append(("raw", "/" + x + "/"))
        elif kind == "template":
            template(s, x)
            if lines(x):
                s.assume(False)
            items.append(("raw", "`" + x + "`"))
        else:
            if lines(x):
                s.assume(False)
            items.append(("space", "//" + x + "\n"))
            items.append(("raw", "b"))
        items += [("space", "\n"), ("raw", "c"), ("space", " "), ("raw", "="), ("space", " "), ("string", "'//'"), ("raw", "/"), ("raw", "2"), ("raw", ";")]
        src = ""
        for _, t in items:
            src = src + t
        fs = memfs.FS(s)
        ctx = images.context()
        fs.put(memfs.PROJECT + "/" + rel, src)
        out = "out/www/" + rel[len("src/public/"):]
        try:
            scan = sf.scan_file(ctx, rel)
            res = bf.build_file(ctx, rel)
        except Exception as e:
            s.fail("fails with " + type(e).__name__)
        s.check(sorted(scan.produces) == [out, out + ".hash"] and len(scan.dependencies) == 0, "scanning reports something else")
        s.check(sorted(list(res.produced) + list(res.reused)) == [out, out + ".hash"] and len(res.children) == 0, "building reports something else")
        text = fs.text(out)
        s.observe("out", text)
        compare(s, items, text)
        s.reach("end")

    return fn


STRINGS = [("", ""), ("\\u", ""), ("\\u{", "}"), ("\\x", ""), ("\\", ""), ("a\\", "b"), ("\\u{1F6", "}"), ("\\uD8", "\\uDC00"), ("\\0", ""), ("\\4", "4"), ("\\\n", "")]


UNFINISHED = ["", "'", "'\\", "/", "/[", "`", "`${", "/*", "//", "a /", "0x", "1e", "\\u", "\\u{", "'\\u{", "'\\x", "import ", "import('"]


def scenarios(tier):
    quick = tier == "quick"
    R = lambda name, fn, **k: dict(name=name, fn=fn, reach=["end"], **k)
    spac = ["spaces", "tight", "lines", "comments", "block comments"]
    third = [REGEX[0::4], REGEX[1::4], REGEX[2::4], REGEX[3::4]]
    out = []
    for i in range(4):
        out.append(R("regular expressions %d" % i, regexes(third[i], spac, [1, 2])))
    out.append(R("regular expressions after divisions", regexes(["", "x =", "a /", "( a )", "}"][:4][:3], ["spaces"], [1, 3] if quick else [1, 3, 4], 3)))
    for i in range(4):
        out.append(R("divisions %d" % i, divisions(DIVIDE[i::4], spac, [1], ["'", "//", "r"] if quick else ["'", '"', "//", "/*", "`", "r"])))
    out.append(R("operands", divisions(["a", "( b )"], ["tight"], [2], ["'", "//", "/*"] if quick else ["'", '"', "//", "/*", "`", "r"])))
    out.append(R("templates", templates([0, 1] if quick else [0, 1, 2], ANY)))
    out.append(R("longer templates", templates([2] if quick else [3], iset.chars("`$\\{}/\r\na'") if quick else iset.chars("`$\\{}/a"))))
    for i in range(2):
        out.append(R("strings %d" % i, strings(STRINGS[i::2], [0, 1, 2] if quick else [0, 1, 2, 3], ANY)))
    out.append(R("longer strings", strings([("", ""), ("\\u", "")], [3, 4], iset.chars("\\ux0aF{}'\"\r\n"))))
    out.append(R("comments", comments([0, 1, 2] if quick else [0, 1, 2, 3], ANY)))
    out.append(R("other characters", other([1], ANY)))
    out.append(R("other text", other([2] if quick else [2, 3], iset.rng(1, 0x7f) | iset.chars("\u0301\u2003\u200d\u4e2d\U0001f600"))))
    out.append(R("escaped names", escaped))
    out.append(R("unfinished", invalid(UNFINISHED, [0, 1])))
    out.append(R("unfinished pairs", invalid(UNFINISHED, [2] if quick else [2, 3], iset.chars("/*'`\\[{}$a0\n\ue000"))))
    out.append(R("files", whole([1] if quick else [1, 2])))
    return out
