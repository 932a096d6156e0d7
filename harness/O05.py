"""Cyclic projects end with a cyclic dependency error, all others build."""
from vanillaplusjs.build.exceptions import CyclicDependencyException

from harness.orch import KINDS, Injected, Model, edges

BOUNDS = ("every dependency relation over three files (on sources or outputs) and over four files (on sources), cyclic or not; "
          "a first build, and a second build after new dependencies, touches and repairs")
OUTSIDE = "more files; a kill inside a single write or a power loss that reorders writes; files edited while the build runs"
STUBS = ["ProcessPoolExecutor: each submitted call runs atomically at its completion, in every order asked for",
         "copy_and_hash.scan_file/build_file: replaced by a handler that reads dependencies and outputs from the file; "
         "it fails when a dependency is missing and reuses an output that exists"]
ASSUMPTIONS = ["handlers keep the contract of the stand-in (checked for the real ones by O06)",
               "a build call reads nothing that another call running at the same time writes (O02)",
               "a file that lists itself as a dependency is not asked about"]



def verdict(m, what, **kw):
    s = m.s
    err, sim = m.run(**kw)
    if m.cyclic():
        s.check(type(err) is CyclicDependencyException, "%s: cyclic, but ends with %s" % (what, type(err).__name__))
        s.reach("cyclic")
    else:
        s.check(err is None, "%s: not cyclic, but ends with %s" % (what, type(err).__name__))
        m.check_tree()
        s.reach("acyclic")
    return err


def first(names, kinds, order):
    def fn(s):
        m = Model(s)
        for n in names:
            m.files[n] = None
        for n in names:
            m.put(n, edges(s, "1", n, [x for x in names if x != n], kinds), v=1)
        verdict(m, "first build", order=order)

    return fn


def second(names, kinds, repair):
    """Built without cycles, then rewired in any way (perhaps cyclic), then perhaps repaired."""

    def fn(s):
        m = Model(s)
        for i, n in reversed(list(enumerate(names))):
            m.put(n, edges(s, "1", n, names[i + 1:], kinds))
        s.check(m.run(order=False)[0] is None, "first build fails")
        for n in names:
            act = s.choice("act." + n, ["keep", "touch", "rewire"])
            if act == "touch":
                m.touch(n)
            elif act == "rewire":
                m.put(n, edges(s, "2", n, [x for x in names if x != n], kinds))
        err = verdict(m, "second build")
        if err is not None and repair:
            for i, n in enumerate(names):
                m.put(n, [d for d in m.files[n]["deps"] if d[1] in names[i + 1:]])
            verdict(m, "third build", order=False)
            s.reach("repaired")

    return fn


def failing(names):
    """Every build ends, also when building a file fails while others are pending."""

    def fn(s):
        m = Model(s)
        for i, n in reversed(list(enumerate(names))):
            m.put(n, edges(s, "1", n, names[i + 1:], (None, "out")))
        who = s.choice("who", list(names))
        m.fail[("build", who)] = "before"
        err, sim = m.run()
        s.check(type(err) is Injected, "ends with %s" % type(err).__name__)
        s.reach("end")

    return fn


def scenarios(tier):
    quick = tier == "quick"
    return [
        dict(name="first3", fn=first("abc", KINDS, True), reach=["cyclic", "acyclic"]),
        dict(name="first4", fn=first("abcd", (None, "src"), not quick), reach=["cyclic", "acyclic"]),
        dict(name="second2", fn=second("ab", KINDS, True), reach=["cyclic", "acyclic", "repaired"]),
        dict(name="second3", fn=second("abc", (None, "src") if quick else KINDS, not quick),
             reach=["cyclic", "acyclic"]),
        dict(name="failing", fn=failing("abcd"), reach=["end"]),
    ]
