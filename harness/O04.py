"""What a successful build records, and that an unchanged project is left alone."""
import os

from harness.orch import KINDS, Model, edges, ok_build

BOUNDS = ("three files with every acyclic dependency relation, shared outputs and a placeholder, one or two builds with any "
          "touch/delete/rewire in between, every completion order; then the unchanged project is built again")
OUTSIDE = "more files; files edited while the build runs"
STUBS = ["ProcessPoolExecutor: each submitted call runs atomically at its completion, in every order asked for",
         "copy_and_hash.scan_file/build_file: replaced by a handler that reads dependencies and outputs from the file; "
         "it fails when a dependency is missing and reuses an output that exists"]
ASSUMPTIONS = ["handlers keep the contract of the stand-in (checked for the real ones by O06)",
               "a build call reads nothing that another call running at the same time writes (O02)"]

ORDER = {"a": ("b", "c"), "b": ("c",), "c": ()}


def check_stored(m):
    """The records of the three graphs against the sources."""
    s = m.s
    st = m.stored()
    s.check(set(st) == {"dependency_graph", "output_graph", "placeholder_graph"}, "a graph is not stored")
    dep, out, ph = st["dependency_graph"], st["output_graph"], st["placeholder_graph"]
    src = []
    for d, dn, fn in os.walk(m.p("src")):
        src.extend(os.path.relpath(os.path.join(d, f), m.dir) for f in fn)
    s.check(sorted(dep) == sorted(src), "the dependency graph does not list the source files")
    for f in src:
        st = os.stat(m.p(f))
        want = {"filesize": st.st_size, "mtime": st.st_mtime, "inode": st.st_ino}
        s.check(dep[f]["metadata"] == want, "signature of %s is not the current one" % f)
    for n, f in m.files.items():
        p = m.src(n)
        deps = sorted(set(m.src(d) for k, d in f["deps"]))
        s.check(sorted(dep[p]["children"]) == deps, "recorded dependencies of %s" % p)
        s.check(sorted(out[p]["children"]) == sorted(m.outputs(f, n, m.site)), "recorded outputs of %s" % p)
        s.check(all(p in out[o]["parents"] for o in m.outputs(f, n, m.site)), "an output of %s is not recorded as its" % p)
        if f["ph"]:
            s.check(m.src(f["ph"]) in ph and ph[m.src(f["ph"])]["parents"] == [p], "recorded placeholder")
            s.reach("placeholder")
    for g in (dep, out, ph):
        for p, node in g.items():
            if not all(p in g[c]["parents"] for c in node["children"]) or not all(
                p in g[c]["children"] for c in node["parents"]
            ):
                s.fail("one-sided edge at %s" % p)


def noop(m, dev=False):
    s = m.s
    before = m.stored_raw(), m.tree()[0], m.tree("artifacts")[0]
    del m.log[:]
    sim = ok_build(s, m, "building an unchanged project", dev=dev)
    s.check(not m.log, "an unchanged project is scanned or built again: %r" % (m.log,))
    s.check(before == (m.stored_raw(), m.tree()[0], m.tree("artifacts")[0]), "an unchanged build changes what is stored")


def deps(rewire, deep):
    def fn(s):
        m = Model(s)
        for n in "cba":
            m.put(n, edges(s, "1", n, ORDER[n]))
        ok_build(s, m, "first build", order=not rewire)
        check_stored(m)
        if not rewire:
            noop(m)
        again = s.choice("rewire", [None, "a", "b", "c"]) if rewire else None
        for n in "cba":
            act = s.choice("act." + n, ["keep", "touch", "delete"])
            if n == again:
                s.assume(act == "touch")
                m.put(n, edges(s, "2", n, [x for x in "abc" if x != n and x in m.files]))
                s.reach("new dependencies")
            elif act == "touch":
                m.touch(n)
            elif act == "delete":
                m.drop(n)
        s.assume(m.valid())
        s.assume(not m.cyclic())
        ok_build(s, m, "second build", order=deep)
        check_stored(m)
        noop(m)
        s.reach("end")

    return fn


CLAIMS = ((), ("s/x",), ("artifacts/=c",), ("s/x", "artifacts/x"))


def outputs(deep):
    return lambda s: _outputs(s, deep)


def _outputs(s, deep):
    """Shared outputs, artifacts and placeholders."""
    m = Model(s)
    m.put("c")

    def put(tag, n):
        cl = s.choice(tag + ".claims." + n, CLAIMS if deep else CLAIMS[:3])
        deps = [("src", "c")] if any("=c" in x for x in cl) else []
        if n == "b" and m.files.get("a", {}).get("ph") and s.flag(tag + ".use"):
            deps.append(("ph", "p"))
        m.put(n, deps, cl, ph="p" if n == "a" and (s.flag(tag + ".ph") or m.files.get("a", {}).get("ph")) else None)

    put("1", "a")
    put("1", "b")
    ok_build(s, m, "first build", order=deep)
    check_stored(m)
    noop(m)
    for n in "ab":
        act = s.choice("act." + n, ["keep", "touch", "claims", "delete"] if deep or n == "b" else ["keep", "claims"])
        if act == "touch":
            m.touch(n)
        elif act == "claims":
            put("2", n)
        elif act == "delete":
            s.assume(not m.files[n]["ph"])
            m.drop(n)
    if s.flag("touch c"):
        m.touch("c")
    s.assume(m.valid())
    ok_build(s, m, "second build", order=deep)
    check_stored(m)
    noop(m)
    s.reach("end")


def modes(s):
    """c is the constants file; only a build in the other mode builds it again."""
    m = Model(s, constants="c")
    if s.flag("constants"):
        m.put("c")
    m.put("b")
    m.put("a", edges(s, "1", "a", [x for x in "bc" if x in m.files]))
    for i in (1, 2, 3):
        dev = s.flag("%d.dev" % i)
        if i == 2:
            act = s.choice("act", ["keep", "touch", "delete", "put"])
            if act == "delete":
                s.assume("c" in m.files and m.files["a"]["deps"] in ([], [["src", "b"]], [["out", "b"]]))
                m.drop("c")
            elif act == "put":
                s.assume("c" not in m.files)
                m.put("c")
            elif act == "touch":
                m.touch("a")
        was = m.dev
        del m.log[:]
        ok_build(s, m, "build %d" % i, dev=dev, order=False)
        built = sorted(n for k, n in m.log if k == "build")
        if i == 3:
            want = [n for n in "ac" if n in m.files and was != dev and "c" in m.files and (n == "c" or any(d == "c" for k, d in m.files["a"]["deps"]))]
            s.check(built == want, "a build in %s mode builds %r instead of %r" % ("the other" if was != dev else "the same", built, want))
        check_stored(m)
        noop(m, dev)
    s.reach("end")


def configuration(s):
    """A configuration that changed is one to build everything with, once."""
    m = Model(s)
    m.by_config = ("a",)
    m.put("b")
    m.put("a", edges(s, "1", "a", "b"))
    for i in (1, 2, 3):
        m.configure(*s.choice("%d.site" % i, [("example.com", "x"), ("o.com", "x"), (None, "x"), ("example.com", "y", "env"), ("example.com", "x", "env")]))
        if i == 2 and s.flag("touch"):
            m.touch("b")
        ok_build(s, m, "build %d" % i, order=False)
        check_stored(m)
        noop(m)
    s.reach("end")


def scenarios(tier):
    return [
        dict(name="deps", fn=deps(False, tier != "quick"), reach=["end"]),
        dict(name="rewired", fn=deps(True, tier != "quick"), reach=["end", "new dependencies"]),
        dict(name="modes", fn=modes, reach=["end"]),
        dict(name="configuration", fn=configuration, reach=["end"]),
        dict(name="outputs", fn=outputs(tier != "quick"), reach=["end", "placeholder"]),
    ]
