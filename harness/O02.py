"""The scheduling loop: order of builds, each once, never two writers at a time."""
from harness.orch import KINDS, Model, edges, ok_build

BOUNDS = "three or four files, every acyclic dependency relation, every completion order of the builds"
OUTSIDE = "more files; a kill inside a single write or a power loss that reorders writes; files edited while the build runs"
STUBS = ["ProcessPoolExecutor: each submitted call runs atomically at its completion, in every order asked for",
         "copy_and_hash.scan_file/build_file: replaced by a handler that reads dependencies and outputs from the file; "
         "it fails when a dependency is missing and reuses an output that exists"]
ASSUMPTIONS = ["handlers keep the contract of the stand-in (checked for the real ones by O06)",
               "a build call reads nothing that another call running at the same time writes (O02)"]

ORDER = {"a": ("b", "c", "d"), "b": ("c", "d"), "c": ("d",), "d": ()}


def graph(names, kinds, batch, second):
    """Any acyclic dependencies over the files, any completion order; then any
    files touched and built again."""

    def fn(s):
        m = Model(s)
        for n in reversed(names):
            m.put(n, edges(s, "1", n, [x for x in ORDER[n] if x in names], kinds))
        sim = ok_build(s, m, "first build", batch=batch)
        m.check_order(sim)
        s.check(sorted(m.name(f) for k, f in sim.done if k == "build") == sorted(names), "not every file is built")
        if second:
            touched = [n for n in names if s.flag("touch." + n)]
            for n in touched:
                m.touch(n)
            del m.log[:]
            sim = ok_build(s, m, "second build", batch=batch)
            m.check_order(sim)
            built = set(m.name(f) for k, f in sim.done if k == "build")
            for n in names:
                need = n in touched or any(m.reaches(n, t) for t in touched)
                s.check((n in built) == need,
                        "%s is %s" % (n, "not rebuilt although it is affected" if need else "rebuilt although nothing it depends on changed"))
            if touched and len(built) > len(touched):
                s.reach("dependant rebuilt")
        s.observe("done", sim.done)
        s.reach("end")

    return fn


def shared(claims, batch):
    """Files that write the same outputs."""

    def fn(s):
        m = Model(s)
        m.put("d")
        for n in "cba":
            cl = s.choice("1.claims." + n, claims)
            deps = [("src", "d")] if any("=d" in x for x in cl) else []
            if n == "a":
                deps = deps + edges(s, "1", n, ["b"], (None, "out"))
            m.put(n, deps, cl)
        sim = ok_build(s, m, "first build", batch=batch)
        m.check_order(sim)
        m.check_overlap(sim, set())
        m.check_tree()
        old = {n: set(m.outputs(m.files[n], n)) for n in m.files}
        touched = set()
        for n in "bad":
            if s.flag("touch." + n):
                m.touch(n)
                touched.add(n)
        more = s.choice("2.claims.b", (None,) + tuple(claims)) if "b" in touched else None
        if more is not None:
            m.put("b", [("src", "d")] if any("=d" in x for x in more) else [], more)
        dirty = set(n for n in m.files if n in touched or any(m.reaches(n, t) for t in touched))
        sim = ok_build(s, m, "second build", batch=batch)
        m.check_order(sim)
        fresh = set()
        for n in m.files:
            if n not in dirty:
                fresh |= old[n]
        m.check_overlap(sim, fresh)
        m.check_tree()
        s.observe("done", sim.done)
        s.reach("end")

    return fn


def scenarios(tier):
    cl = ((), ("s/x",), ("s/=d",), ("artifacts/x", "s/x"))
    return [
        dict(name="graph3", fn=graph("abc", KINDS, False, True), reach=["end", "dependency first", "dependant rebuilt"]),
        dict(name="graph3-batch", fn=graph("abc", (None, "out"), True, True), reach=["end", "dependency first"]),
        dict(name="graph4", fn=graph("abcd", (None, "out"), False, False), reach=["end", "dependency first"]),
        dict(name="shared", fn=shared(cl, False), reach=["end", "shared output"]),
    ]
