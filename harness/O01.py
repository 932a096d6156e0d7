"""Incremental builds against the outputs the current sources determine."""
from harness.orch import KINDS, Model, edges, ok_build

BOUNDS = ("three files (plus shared outputs, artifacts and placeholders), every acyclic dependency relation over them, "
          "two or three builds, any touch/delete/rewire in between, every completion order of builds; three builds with one of 5 (thorough 8) configurations and environments each")
OUTSIDE = "more files; a kill inside a single write or a power loss that reorders writes; more than one edit while a build runs"
STUBS = ["ProcessPoolExecutor: each submitted call runs atomically at its completion, in every order asked for",
         "copy_and_hash.scan_file/build_file: replaced by a handler that reads dependencies and outputs from the file; "
         "it fails when a dependency is missing and reuses an output that exists"]
ASSUMPTIONS = ["handlers keep the contract of the stand-in (checked for the real ones by O06)",
               "a build call reads nothing that another call running at the same time writes (O02)"]

ORDER = {"a": ("b", "c"), "b": ("c",), "c": ()}


def deps3(batch=False, kinds=KINDS, rewire=True):
    """Three files, any acyclic dependencies; then any of: touch, delete, and new
    dependencies for one of them."""

    def fn(s):
        m = Model(s)
        for n in "cba":
            m.put(n, edges(s, "1", n, ORDER[n], kinds))
        ok_build(s, m, "first build", batch=batch)
        m.check_tree()
        again = s.choice("rewire", [None, "a", "b", "c"]) if rewire else None
        for n in "cba":
            act = s.choice("act." + n, ["keep", "touch", "delete"])
            if n == again:
                s.assume(act == "touch")
                # the other way round too
                m.put(n, edges(s, "2", n, [x for x in "abc" if x != n and x in m.files], kinds))
                s.reach("new dependencies")
            elif act == "touch":
                m.touch(n)
            elif act == "delete":
                m.drop(n)
                s.reach("deleted")
        s.assume(m.valid())
        s.assume(not m.cyclic())
        ok_build(s, m, "second build", batch=batch)
        m.check_tree()
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def added(s):
    """Files appear; old files start depending on them or stay."""
    m = Model(s)
    first = s.choice("first", ["a", "b", "ab"])
    for n in reversed(first):
        m.put(n, edges(s, "1", n, [x for x in first if x > n]))
    ok_build(s, m, "first build")
    for n in "cba":
        if n not in m.files:
            m.put(n, edges(s, "2", n, [x for x in "abc" if x != n and (x in first or x > n)]))
        elif s.flag("rewire." + n):
            m.put(n, edges(s, "2", n, [x for x in "abc" if x != n]))
    s.assume(m.valid())
    s.assume(not m.cyclic())
    ok_build(s, m, "second build")
    m.check_tree()
    s.observe("tree", sorted(m.tree()[0].items()))
    s.reach("end")


CLAIMS = ((), ("s/x",), ("s/=c",), ("artifacts/x",), ("artifacts/=c",), ("s/x", "artifacts/x"))


def shared(claims, third=True, quick=False):
    """Outputs produced by several files, constant or derived from a third."""

    def fn(s):
        m = Model(s)
        m.put("c")

        def put(tag, n):
            cl = s.choice(tag + ".claims." + n, claims)
            deps = [("src", "c")] if any("=c" in x for x in cl) or s.flag(tag + ".dep." + n) else []
            m.put(n, deps, cl)
            return cl

        put("1", "b")
        put("1", "a")
        ok_build(s, m, "first build")
        m.check_tree()
        for n in "ba":
            act = s.choice("act." + n, ["keep", "touch", "claims", "delete"] if n == "b" or not quick else ["keep", "touch"])
            if act == "touch":
                m.touch(n)
            elif act == "claims":
                put("2", n)
                s.reach("claims changed")
            elif act == "delete":
                m.drop(n)
                s.reach("deleted")
        if s.flag("touch c"):
            m.touch("c")
        ok_build(s, m, "second build")
        m.check_tree()
        if third:
            for n in "abc":
                if n in m.files and s.flag("again." + n):
                    m.touch(n)
            ok_build(s, m, "third build")
            m.check_tree()
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def placeholders(s):
    """a generates the source placeholder p and produces p's output; b uses it."""
    m = Model(s)
    ph = s.flag("1.ph")
    m.put("a", ph="p" if ph else None)
    m.put("b", [("ph", "p")] if ph and s.flag("1.use") else [])
    ok_build(s, m, "first build")
    m.check_tree()
    for step in "23":
        for n in "ab":
            act = s.choice(step + ".act." + n, ["keep", "touch", "change"])
            if act == "touch":
                m.touch(n)
            elif act == "change":
                f = m.files[n]
                if n == "a":
                    # a file that stops generating leaves an orphan; only starting is asked here
                    s.assume(f["ph"] is None)
                    m.put(n, ph="p")
                else:
                    m.put(n, [] if f["deps"] else [("ph", "p")])
        s.assume(m.valid())
        if m.files["a"]["ph"] and step == "2" and s.flag("2.gone"):
            import os
            if os.path.exists(m.p(m.src("p"))):
                m.remove_file(m.src("p"))
                # the generator has to be seen again for the placeholder to come back
                m.touch("a")
                s.reach("placeholder deleted")
        ok_build(s, m, "build " + step)
        m.check_tree()
    s.observe("tree", sorted(m.tree()[0].items()))
    s.reach("end")


def histories(steps):
    def fn(s):
        m = Model(s)
        for i in range(steps):
            for n in "ba":
                if n in m.files:
                    act = s.choice("%d.%s" % (i, n), ["keep", "touch", "rewire", "delete"])
                else:
                    act = s.choice("%d.%s" % (i, n), ["keep", "rewire"])
                if act == "touch":
                    m.touch(n)
                elif act == "delete":
                    m.drop(n)
                elif act == "rewire":
                    m.put(n, edges(s, str(i), n, ["b" if n == "a" else "a"]))
            s.assume(m.valid())
            s.assume(not m.cyclic())
            ok_build(s, m, "build %d" % i, order=False)
            m.check_tree()
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def partials(s):
    """t is a part of a (and u of t), what they refer to are dependencies of a alone."""
    m = Model(s)
    m.partials = ("t", "u")
    m.put("c")
    m.put("d")

    def put(tag, n):
        deps = edges(s, tag, n, "cd", (None, "out"))
        if n != "u":
            deps += edges(s, tag, n, "u" if n == "t" else "t", (None, "src"))
        m.put(n, deps)

    put("1", "u")
    m.put("t", [("src", "u")])
    m.put("a", [("src", "t")])
    ok_build(s, m, "first build", order=False)
    m.check_tree()
    put("2", s.choice("2.rewire", "tau"))
    if s.flag("2.touch c"):
        m.touch("c")
    ok_build(s, m, "second build", order=False)
    m.check_tree()
    act = s.choice("3", ["c", "d", "t", "u"])
    m.touch(act)
    if s.flag("3.rewire a"):
        put("3", "a")
        s.reach("rewired")
    ok_build(s, m, "third build", order=False)
    m.check_tree()
    s.observe("tree", sorted(m.tree()[0].items()))
    s.reach("end")


def producers(s):
    """An output that p and q produce and a uses; which of them do so changes."""
    m = Model(s)
    m.put("c")
    x = s.choice("path", ["s/=c", "artifacts/=c"])

    def put(tag, n, acts):
        act = s.choice(tag + "." + n, acts)
        if act == "claim":
            m.put(n, [("src", "c")], [x])
        elif act == "plain":
            m.put(n)
        elif act == "touch":
            m.touch(n)
        elif act == "drop":
            m.drop(n)

    put("1", "p", ["claim", "plain"])
    put("1", "q", ["claim", "plain"])
    use = [("sh", x)]
    m.put("a", use if s.flag("1.use") else [])
    s.assume(m.valid())
    ok_build(s, m, "first build", order=False)
    m.check_tree()
    put("2", "p", ["keep", "plain", "claim", "drop"])
    put("2", "q", ["keep", "plain", "claim"])
    if s.flag("2.a"):
        m.put("a", use)
    if s.flag("2.c"):
        m.touch("c")
    s.assume(m.valid())
    ok_build(s, m, "second build")
    m.check_tree()
    m.touch(s.choice("3", ["c", "q"]))
    ok_build(s, m, "third build", order=False)
    m.check_tree()
    s.observe("tree", sorted(m.tree()[0].items()))
    s.reach("end")


def folders(s):
    """Outputs in nested folders come and go; so do the folders."""
    m = Model(s)
    m.put("c")
    paths = ["d/e/f/=c", "d/e/=c", "artifacts/d/e/=c"]
    m.put("p", [("src", "c")], [x for i, x in enumerate(paths) if s.flag("1.p%d" % i)])
    m.put("q", [("src", "c")], s.choice("1.q", [[], ["d/e/g/=c"], ["d/g/=c"], ["artifacts/d/=c"]]))
    ok_build(s, m, "first build", order=False)
    m.check_tree()
    act = s.choice("2.p", ["drop", "none", "one"])
    if act == "drop":
        m.drop("p")
    else:
        m.put("p", [("src", "c")], [] if act == "none" else [s.choice("2.path", paths)])
    if s.flag("2.q"):
        m.put("q")
    ok_build(s, m, "second build", order=False)
    m.check_tree()
    s.observe("tree", sorted(m.tree()[0].items()))
    s.reach("end")


MODES = (False, True)


def modes(steps):
    """c is the constants file, whose output depends on the mode of the build."""
    def fn(s):
        m = Model(s, constants="c")
        if s.flag("constants"):
            m.put("c")
        m.put("a", edges(s, "1", "a", ["c"] if "c" in m.files else []))
        ok_build(s, m, "first build", dev=s.choice("1.dev", MODES), order=False)
        m.check_tree()
        for i in range(2, steps + 1):
            step = "%d." % i
            act = s.choice(step + "c", ["keep", "touch", "delete"] if "c" in m.files else ["keep", "put"])
            if act == "delete":
                m.drop("c")
            elif act != "keep":
                m.put("c")
            act = s.choice(step + "a", ["keep", "touch", "rewire"])
            if act == "touch":
                m.touch("a")
            elif act == "rewire":
                m.put("a", [] if m.files["a"]["deps"] else [(s.choice(step + "kind", ["src", "out"]), "c")])
            s.assume(m.valid())
            was = m.dev
            ok_build(s, m, "build %d" % i, dev=s.choice(step + "dev", MODES), order=False)
            if "c" in m.files and was != m.dev and m.files["a"]["deps"]:
                s.reach("other mode")
            m.check_tree()
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def edited(s):
    """A file is edited while the build runs; the next build has the change."""
    m = Model(s)
    m.put("b")
    m.put("a", edges(s, "1", "a", "b"))
    if s.flag("built before"):
        ok_build(s, m, "first build", order=False)
        for n in "ba":
            if s.flag("touch." + n):
                m.touch(n)
    done = []

    def before(t):
        if not done and s.flag("edit before %d" % m.sim.n):
            n = s.choice("who", "ab")
            done.append(n)
            m.put(n, edges(s, "2", n, "b") if n == "a" else ())
        m.sim.n += 1

    err, sim = m.run(order=False, before=before)
    if not done and m.files and s.flag("edit after"):
        m.touch("b")
    if done:
        s.reach("edited")
    else:
        s.check(err is None, "the build fails")
    ok_build(s, m, "the build after the edit", order=False)
    m.check_tree()
    s.observe("tree", sorted(m.tree()[0].items()))
    s.reach("end")


SITES = [("example.com", None), ("o.com", None), (None, None), ("example.com", "x"), ("example.com", "y"), ("example.com", "x", "env"), ("example.com", "y", "env"),
         ("example.com", "", "env")]


def configuration(sites):
    """What is built of a (and so of c) depends on the configuration, which changes."""
    def fn(s):
        m = Model(s)
        m.by_config = ("a",)
        m.put("b")
        m.put("a", edges(s, "1", "a", "b", (None, "out")))
        m.put("c", edges(s, "1", "c", "a", (None, "src", "out")))
        now = s.choice("1.site", sites)
        m.configure(*now)
        ok_build(s, m, "first build", order=False)
        m.check_tree()
        for i in "23":
            new = s.choice(i + ".site", sites)
            m.configure(*new)
            if new != now:
                s.reach("changed")
            now = new
            act = s.choice(i + ".act", ["keep", "touch b", "touch a", "delete c"] if i == "2" else ["keep"])
            if act == "delete c":
                m.drop("c")
            elif act != "keep":
                m.touch(act[-1])
            ok_build(s, m, "build " + i, order=False)
            m.check_tree()
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def scenarios(tier):
    out = [
        dict(name="deps3", fn=deps3(), reach=["end", "deleted", "new dependencies"]),
        dict(name="added", fn=added, reach=["end"]),
        dict(name="shared", fn=shared(CLAIMS if tier != "quick" else CLAIMS[:3] + CLAIMS[4:5], False, tier == "quick"),
             reach=["end", "deleted", "claims changed"]),
        dict(name="placeholders", fn=placeholders, reach=["end", "placeholder deleted"]),
        dict(name="partials", fn=partials, reach=["end", "rewired"]),
        dict(name="producers", fn=producers, reach=["end"]),
        dict(name="folders", fn=folders, reach=["end"]),
        dict(name="modes", fn=modes(2 if tier == "quick" else 3), reach=["end", "other mode"]),
        dict(name="configuration", fn=configuration(SITES[:5:2] + SITES[5:7] if tier == "quick" else SITES), reach=["end", "changed"]),
        dict(name="edited", fn=edited, reach=["end", "edited"]),
        dict(name="histories", fn=histories(3), reach=["end"]),
    ]
    return out
