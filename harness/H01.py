"""Canonical links and og:url."""
from urllib.parse import quote

import vanillaplusjs.build.handlers.html as html
from vanillaplusjs.build.exceptions import MissingConfigurationException
from harness import images, memfs, page

BOUNDS = ("pages src/public/<x>.html and src/public/d/<x>.html with x up to 3 (thorough 4) arbitrary characters; link and meta tags with no address, other values of up to 11 (thorough 16) characters, an "
          "address of up to 3 (thorough 4) arbitrary characters, or up to 2 after a scheme, a host, a folder or a step up; rel and property values, "
          "further attributes and the position of the tag; host given or not")
OUTSIDE = ("how html5lib splits a page into tags; relative addresses with empty folder names, addresses with semicolons; characters that HTML parsing itself "
           "replaces (NUL, CR, surrogates)")
STUBS = ["the disk is an in-memory tree", "html5lib is a stand-in while exploring; replays use the real one"]
HOST = "example.com"
def split(u):
    """(path, query, fragment); an empty query or fragment counts as none."""
    frag = q = ""
    i = u.find("#")
    if i >= 0:
        u, frag = u[:i], u[i + 1:]
    i = u.find("?")
    if i >= 0:
        u, q = u[:i], u[i + 1:]
    return u, q, frag


def is_scheme(t):
    """ALPHA *( ALPHA / DIGIT / + - . )"""
    if not t or not (t[0] >= "a" and t[0] <= "z" or t[0] >= "A" and t[0] <= "Z"):
        return False
    for c in t:
        if not (c >= "a" and c <= "z" or c >= "A" and c <= "Z" or c >= "0" and c <= "9" or c == "+" or c == "-" or c == "."):
            return False
    return True


def absolute(u):
    if u.startswith("//"):
        return True
    i = u.find(":")
    return i > 0 and is_scheme(u[:i])


def resolve(base, u):
    """RFC 3986 5.2 for a reference without scheme and host; base is a path."""
    path, q, frag = split(u)
    if not path:
        return base, q, frag
    if path.startswith("/"):
        segs = path.split("/")[1:]
    else:
        segs = base.split("/")[1:-1] + path.split("/")
    out = []
    for i in range(len(segs)):
        x = segs[i]
        last = i == len(segs) - 1
        if x == ".." or x == ".":
            if x == ".." and out:
                out.pop()
            if last:
                out.append("")
        else:
            out.append(x)
    return "/" + "/".join(out), q, frag


def clean(u):
    """What URL parsing ignores: tabs and line breaks anywhere, control characters and spaces around."""
    for c in "\t\n\r":
        u = u.replace(c, "")
    while u and u[0] <= " ":
        u = u[1:]
    while u and u[-1] <= " ":
        u = u[:-1]
    return u


KINDS = {"link": ("rel", "canonical", "href"), "meta": ("property", "og:url", "content")}


def run(s, rel, items, host=HOST):
    """Scan and build a page; its link and meta tags afterwards."""
    ctx = images.context()
    ctx.host = host
    fs = memfs.FS(s)
    pages = page.Pages(s, fs)
    pages.page(rel, items, [page.tag("p"), page.text("x"), page.end("p")])
    scan = html.scan_file(ctx, rel)
    if scan.dependencies:
        s.fail("the page depends on another file")
    res = html.build_file(ctx, rel)
    if res.children:
        s.fail("the page was built from another file")
    return [t for t in pages.tags("out/www/" + rel[len("src/public/"):], "link", "meta") if "charset" not in t[2]]


def check_url(s, url, want, what):
    """The url is on the host, with the wanted parts."""
    pre = "https://" + HOST
    s.check(url.startswith(pre), what + " is not on the configured host")
    got = split(url[len(pre):])
    s.check(got[0] == want[0], what + " has another path")
    s.check(got[1] == want[1], what + " has another query")
    s.check(got[2] == want[2], what + " has another fragment")


def page_path(s, sizes):
    top = s.choice("folder", ["src/public/", "src/public/d/"])
    x = s.text("name", s.choice("name length", sizes), page.TEXT)
    p = top + x + ".html"
    for part in p.split("/"):
        s.assume(not (part == "" or part == "." or part == ".."))
    return p


def own(sizes):
    def fn(s):
        kind = s.choice("tag", ["link", "meta"])
        attr, val, at = KINDS[kind]
        rel = page_path(s, sizes)
        tags = run(s, rel, [page.tagd(kind, {attr: val})])
        s.check(len(tags) == 1 and tags[0][1] == kind, "the tag is gone or doubled")
        d = tags[0][2]
        s.check(set(d) == {attr, at} and d[attr] == val, "the tag has other attributes")
        path = rel[len("src/public/"):]
        pre = "https://" + HOST + "/"
        # characters that may stay in a path may be encoded or not
        s.check((d[at] == pre + quote(path)) | (d[at] == pre + quote(path, safe="/!$&'()*+,;=:@")), "the canonical address is not the one of the page")
        s.reach("own")

    return fn


def given(prefixes, sizes, rels):
    def fn(s):
        kind = s.choice("tag", ["link", "meta"])
        attr, val, at = KINDS[kind]
        rel = s.choice("page", rels)
        u = s.choice("prefix", prefixes) + s.text("u", s.choice("length", sizes), page.TEXT)
        extra = {"id": "z"} if s.flag("other attribute") else {}
        d0 = dict(extra)
        d0[attr] = val
        d0[at] = u
        tags = run(s, rel, [page.tagd(kind, d0)])
        s.check(len(tags) == 1 and tags[0][1] == kind, "the tag is gone or doubled")
        d = tags[0][2]
        s.check(set(d) == set(d0) and d[attr] == val and all(d[k] == v for k, v in extra.items()), "the tag has other attributes")
        c = clean(u)
        if absolute(c):
            s.check(d[at] == u, "an explicit address was changed")
            s.reach("kept")
        elif c == "":
            s.check(d[at] == "https://" + HOST, "an empty address is not the bare host")
            s.reach("empty")
        else:
            s.assume((c.startswith("/") or "//" not in split(c)[0]) and ";" not in c)
            check_url(s, d[at], resolve("/" + rel[len("src/public/"):], c), "the address")
            s.reach("resolved")

    return fn


def others(sizes):
    """Tags that do not ask for it stay as they are, with or without a host."""

    def fn(s):
        kind = s.choice("tag", ["link", "meta", "meta name"])
        attr, val, at = KINDS[kind.split()[0]]
        if kind == "meta name":
            attr = "name"
        n = s.choice("length", sizes)
        v = s.text("value", n, page.TEXT if n < 4 else "abcdefghijklmnopqrstuvwxyz:-") if s.flag("other value") else s.choice("value", ["canonica", "og:ur", "og:urls", "twitter:url", "icon", "og:title", val])
        if kind != "meta name":
            s.assume(v != val)
        if kind == "link":
            s.assume(v != "stylesheet")
            s.assume(v != "preload")
        d0 = {attr: v}
        a = s.choice("address", [None, "", "/a", "x"])
        if a is not None:
            d0[at] = a
        tags = run(s, "src/public/index.html", [page.tagd(kind.split()[0], d0)], s.choice("host", [None, HOST]))
        s.check(len(tags) == 1, "the tag is gone or doubled")
        d = tags[0][2]
        s.check(set(d) == set(d0) and all(d[k] == d0[k] for k in d0), "another tag was changed")
        s.reach("same")

    return fn


def several(s):
    """Several tags, with and without a host."""
    items = []
    want = []
    needs = False
    for i in range(s.choice("tags", [1, 2, 3])):
        kind = s.choice("tag%d" % i, ["link", "meta", "other"])
        if kind == "other":
            items.append(page.tagd("meta", {"name": "n", "content": "c"}))
            want.append({"name": "n", "content": "c"})
            continue
        attr, val, at = KINDS[kind]
        u = s.choice("address%d" % i, [None, "", "/q", "r", "http://o/", "https://o/"])
        d = {attr: val}
        if u is not None:
            d[at] = u
        items.append(page.tagd(kind, d))
        w = dict(d)
        if u is None or not u.startswith("http"):
            needs = True
            w[at] = "https://" + HOST + {None: "/d/p.html", "": "", "/q": "/q", "r": "/d/r"}[u]
        want.append(w)
    host = s.choice("host", [None, HOST])
    try:
        tags = run(s, "src/public/d/p.html", items, host)
    except MissingConfigurationException:
        if host is not None or not needs:
            s.fail("the host is said to be missing")
        s.reach("missing host")
        return
    if host is None and needs:
        s.fail("a page was built without the host it needs")
    if [t[2] for t in tags] != want:
        s.fail("the tags are %r instead of %r" % ([t[2] for t in tags], want))
    s.reach("built")


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="own", fn=own([1, 2] if q else [1, 2, 3]), reach=["own"]),
        dict(name="given", fn=given([""], [0, 1, 2, 3] if q else [0, 1, 2, 3, 4], ["src/public/d/p.html"]), reach=["kept", "empty", "resolved"]),
        dict(name="after prefix", fn=given(["http", "http:", "https://", "//", "/", "x/", "../", "./", "..", "mailto:", "HTTP:", " http:", "?", "#"],
                                           [0, 1, 2] if q else [0, 1, 2, 3], ["src/public/d/p.html", "src/public/p.html"]),
             reach=["kept", "resolved"]),
        dict(name="others", fn=others([0, 1, 2, 6, 8, 11] if q else list(range(0, 17))), reach=["same"]),
        dict(name="several", fn=several, reach=["missing host", "built"]),
    ]
