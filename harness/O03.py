"""Builds that fail or are killed, and the builds after them."""
import os

from harness.external import FILES, World
from harness.orch import Injected, KINDS, Killed, Model, edges, ok_build

BOUNDS = ("two external files over three builds with a kill in the second; three or four files, one failing scan or build (before, while or after writing), or a kill at any change the "
          "build makes to a file; the builds after it; three configurations")
OUTSIDE = "more files; a kill inside a single write or a power loss that reorders writes; files edited while the build runs"
STUBS = ["ProcessPoolExecutor: each submitted call runs atomically at its completion, in every order asked for",
         "copy_and_hash.scan_file/build_file: replaced by a handler that reads dependencies and outputs from the file; "
         "it fails when a dependency is missing and reuses an output that exists"]
ASSUMPTIONS = ["handlers keep the contract of the stand-in (checked for the real ones by O06)",
               "a build call reads nothing that another call running at the same time writes (O02)"]

ORDER = {"a": ("b", "c"), "b": ("c",), "c": ()}
FAILS = [("scan", None), ("build", "before"), ("build", "mid"), ("build", "after")]


def change(s, m, tag, names, acts, rewire=()):
    for n in names:
        act = s.choice("%s.%s" % (tag, n), acts if n in m.files else ["keep", "new"])
        if act == "touch":
            m.touch(n)
        elif act == "delete":
            m.drop(n)
        elif act == "new":
            m.put(n, edges(s, tag, n, [x for x in ORDER.get(n, ()) if x in m.files], (None, "out")))


def failing(first_fails, deep=False):
    def fn(s):
        m = Model(s)
        for n in "cba":
            m.put(n, edges(s, "1", n, ORDER[n], KINDS if n == "a" and (first_fails or deep) else (None, "out")))
        if not first_fails:
            ok_build(s, m, "first build", order=False)
            change(s, m, "2", "cba" if deep else "cb", ["keep", "touch"])
            if s.flag("2.d"):
                m.put("d")
        phase, when = s.choice("phase", FAILS)
        who = s.choice("who", sorted(m.files))
        m.fail[(phase, who)] = when or True
        err, sim = m.run()
        if err is None:
            s.assume(False)         # the file was not processed
        s.check(type(err) is Injected, "the build ends with %s instead of the failure" % type(err).__name__)
        s.reach("failed")
        m.fail.clear()
        change(s, m, "3", "abc" if first_fails or deep else "ac", ["keep", "touch"])
        # something that appeared before the failure changes or goes away again
        if "d" in m.files:
            act = s.choice("3.d", ["keep", "touch", "delete"])
            if act == "touch":
                m.touch("d")
            elif act == "delete":
                m.drop("d")
        ok_build(s, m, "the build after the failure", order=False)
        m.check_tree(orphans=True)
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def reverted(s):
    """The failure was caused by the change itself, which is taken back: the file
    returns with the signature it had before."""
    m = Model(s)
    m.put("c")
    m.put("b", edges(s, "1", "b", "c"))
    m.put("a", edges(s, "1", "a", "bc", (None, "out")))
    ok_build(s, m, "first build", order=False)
    gone = s.choice("gone", "bc")
    users = [n for n in m.files if gone in m.needs(n)]
    if s.flag("touch a"):
        m.touch("a")
    keep = m.files.pop(gone)
    os.rename(m.p(m.src(gone)), m.p("kept.txt"))
    who = s.choice("who", sorted(m.files))
    m.fail[("build", who)] = s.choice("when", ["before", "mid"])
    err, sim = m.run()
    if err is None:
        s.assume(False)
    s.reach("failed")
    m.fail.clear()
    os.rename(m.p("kept.txt"), m.p(m.src(gone)))
    m.files[gone] = keep
    ok_build(s, m, "the build after the failure", order=False)
    m.check_tree()
    s.observe("tree", sorted(m.tree()[0].items()))
    s.reach("end")


def killed(claims, second):
    """The process is killed before or after any change it makes to a file."""

    def fn(s):
        m = Model(s, kills=True)
        m.put("b", (), s.choice("claims.b", claims))
        m.put("a", edges(s, "1", "a", "b"), s.choice("claims.a", claims))
        if second:
            ok_build(s, m, "first build", order=False)
            m.check_tree()
            act = s.choice("2.b", ["keep", "touch", "drop claims"])
            if act == "touch":
                m.touch("b")
            elif act == "drop claims":
                m.put("b", m.files["b"]["deps"])
            act = s.choice("2.a", ["keep", "touch", "delete"])
            if act == "touch":
                m.touch("a")
            elif act == "delete":
                m.drop("a")
            if s.flag("2.c"):
                m.put("c")
        err, sim = m.run(order=False, kill=True)
        if err is None:
            m.check_tree()
            s.reach("survived")
            return
        s.check(type(err) is Killed, "the build fails: %s" % type(err).__name__)
        if "c" in m.files and s.flag("3.c"):
            m.touch("c")
        if s.flag("3.b"):
            m.touch("b")
        ok_build(s, m, "the build after the kill", order=False)
        m.check_tree(orphans=True)
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")
        ok_build(s, m, "the build after that", order=False)
        m.check_tree(orphans=True)

    return fn


def modes(kill):
    """The failed build changed the mode; c is the constants file."""
    def fn(s):
        m = Model(s, kills=kill, constants="c")
        first = s.choice("1.dev", [False, True])
        if s.flag("built before"):
            m.put("c")
            m.put("a", edges(s, "1", "a", "c"))
            ok_build(s, m, "first build", dev=first, order=False)
            act = s.choice("2", ["keep", "touch a", "touch c"])
            if act != "keep":
                m.touch(act[-1])
        else:
            m.put("c")
            m.put("a", edges(s, "1", "a", "c"))
        if not kill:
            phase, when = s.choice("phase", FAILS)
            m.fail[(phase, s.choice("who", "ac"))] = when or True
        err, sim = m.run(dev=s.choice("2.dev", [False, True]), order=False, kill=kill)
        if err is None:
            s.assume(kill)
            m.check_tree()
            s.reach("survived")
        else:
            s.reach("failed")
        m.fail.clear()
        act = s.choice("3", ["keep", "touch a"])
        if act != "keep":
            m.touch(act[-1])
        ok_build(s, m, "the build after the failure", dev=s.choice("3.dev", [False, True]), order=False)
        m.check_tree(orphans=True)
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def configuration(kill):
    """The failed build was the first one with another configuration."""
    def fn(s):
        m = Model(s, kills=kill)
        m.by_config = ("a",)
        m.put("b")
        m.put("a", edges(s, "1", "a", "b", (None, "out")))
        m.put("c", edges(s, "1", "c", "a", (None, "out")))
        sites = [("example.com", "x"), ("o.com", "x"), ("example.com", "y", "env")]
        m.configure(*sites[0])
        ok_build(s, m, "first build", order=False)
        m.check_tree()
        m.configure(*s.choice("2.site", sites[1:]))
        if not kill:
            phase, when = s.choice("phase", FAILS)
            m.fail[(phase, s.choice("who", "abc"))] = when or True
        err, sim = m.run(order=False, kill=kill)
        if err is None:
            s.assume(kill)
            m.check_tree()
            s.reach("survived")
        else:
            s.reach("failed")
        m.fail.clear()
        m.configure(*s.choice("3.site", sites))
        if s.flag("3.b"):
            m.touch("b")
        ok_build(s, m, "the build after the failure", order=False)
        m.check_tree(orphans=True)
        s.observe("tree", sorted(m.tree()[0].items()))
        s.reach("end")

    return fn


def external(s):
    """Killed while external files are fetched."""
    w = World(s, False)
    names = FILES[:2]
    placed = set()
    for n in (1, 2, 3):
        w.declared = {}
        for i, f in enumerate(names):
            c = s.choice("b%d.declared%d" % (n, i), ["", "A"] if n != 2 else ["", "A", "B"])
            if c:
                w.declared[f] = c
        dead = []
        events = []

        def kill():
            if not dead:
                events.append(1)
                if not s.flag("kill%d" % len(events)):
                    return
                dead.append(1)
            raise Killed()

        w.fs.hook = kill if n == 2 else None
        try:
            err = w.check()
        except Killed:
            s.reach("external killed")
            continue
        finally:
            w.fs.hook = None
        if n == 2:
            s.assume(False)             # not killed
        if err is not None:
            s.fail("the check of the external files fails: %s: %s" % (type(err).__name__, err))
        for f in names:
            if f in w.declared:
                s.check(w.has(f) == w.declared[f], "%s does not have the declared content" % f)
    s.reach("end")


def scenarios(tier):
    return [
        dict(name="first-fails", fn=failing(True), reach=["end", "failed"]),
        dict(name="second-fails", fn=failing(False, tier != "quick"), reach=["end", "failed"]),
        dict(name="reverted", fn=reverted, reach=["end", "failed"]),
        dict(name="killed-first", fn=killed(((), ("s/x",)), False), reach=["end", "survived"]),
        dict(name="mode-fails", fn=modes(False), reach=["end", "failed"]),
        dict(name="mode-killed", fn=modes(True), reach=["end", "failed", "survived"]),
        dict(name="configuration-fails", fn=configuration(False), reach=["end", "failed"]),
        dict(name="configuration-killed", fn=configuration(True), reach=["end", "failed", "survived"]),
        dict(name="external", fn=external, reach=["end", "external killed"]),
        dict(name="killed-second", fn=killed(((), ("s/x",)), True), reach=["end", "survived"]),
    ]
