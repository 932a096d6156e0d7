"""FileDependencyGraph: one operation from every consistent state (inductive),
plus short sequences from the empty graph."""
import itertools

from vanillaplusjs.build.graph import FileDependencyGraph, FileRelationship

REL = {(True, True): "cyclic", (True, False): "child", (False, True): "parent", (False, False): "unrelated"}


class Model:
    """Edges as set by the caller: kids[a] = list of the files a depends on."""

    def __init__(self):
        self.sig = {}
        self.kids = {}

    def reaches(self, a, b):
        seen, todo = set(), list(self.kids[a])
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(self.kids[x])
        return False


def raises(f):
    try:
        r = f()
    except ValueError:
        return "ValueError"
    return r


def verify(s, g, m, names):
    for a in names:
        s.check((a in g) == (a in m.sig), "wrong membership of %s" % a)
        if a not in m.sig:
            for f in (g.get_parents, g.get_children):
                s.check(raises(lambda: f(a)) == "ValueError", "query about an unknown file is answered")
            s.check(not g.check_file(a, 1, 1, 1), "unknown file reported as known")
            continue
        fs, mt, ino = m.sig[a]
        s.check(g.check_file(a, fs, mt, ino), "signature of %s not found" % a)
        s.check(not g.check_file(a, fs + 1, mt, ino), "signature with another size accepted")
        s.check(not g.check_file(a, fs, mt + 1, ino), "signature with another mtime accepted")
        s.check(not g.check_file(a, fs, mt, ino + 1), "signature with another inode accepted")
        kids = m.kids[a]
        s.check(sorted(g.get_children(a)) == sorted(kids), "wrong children")
        s.check(list(g.get_children(a)) == list(kids), "children in the wrong order")
        want = sorted(p for p in m.sig for c in m.kids[p] if c == a)
        s.check(sorted(g.get_parents(a)) == want, "wrong parents")
        for b in names:
            if a == b:
                for f in (g.check_direct_relationship, g.check_nested_relationship):
                    s.check(raises(lambda: f(a, a)) == "ValueError", "relationship of a file with itself")
                continue
            if b not in m.sig:
                for f in (g.check_direct_relationship, g.check_nested_relationship):
                    s.check(raises(lambda: f(a, b)) == "ValueError", "relationship with an unknown file")
                    s.check(raises(lambda: f(b, a)) == "ValueError", "relationship with an unknown file")
                continue
            d = REL[(a in m.kids[b], b in kids)]
            s.check(g.check_direct_relationship(a, b) == d, "wrong direct relationship")
            n = REL[(m.reaches(b, a), m.reaches(a, b))]
            s.check(g.check_nested_relationship(a, b) == n, "wrong nested relationship")


def operate(s, g, m, names, pre, lists):
    """One arbitrary operation, on the graph and on the model."""
    op = s.choice(pre + "op", ["add", "remove", "set"])
    a = s.choice(pre + "a", names)
    if op == "add":
        kids = s.choice(pre + "kids", [None] + lists)
        sig = (s.integer(pre + "fs"), s.real(pre + "mt"), s.integer(pre + "ino"))
        bad = a in m.sig or any(k not in m.sig for k in kids or ())
        r = raises(lambda: g.add_file(a, sig[0], sig[1], sig[2], children=kids))
        s.check((r == "ValueError") == bad, "add_file accepted or rejected wrongly")
        if not bad:
            m.sig[a] = sig
            m.kids[a] = list(kids or ())
            s.reach("added")
    elif op == "remove":
        cp, cc = s.flag(pre + "cp"), s.flag(pre + "cc")
        bad = a not in m.sig
        if not bad:
            par = any(a in m.kids[p] for p in m.sig)
            bad = (par and not cp) or (bool(m.kids[a]) and not cc)
        r = raises(lambda: g.remove_file(a, clear_parents=cp, clear_children=cc))
        s.check((r == "ValueError") == bad, "remove_file accepted or rejected wrongly")
        if not bad:
            del m.sig[a], m.kids[a]
            for p in m.kids:
                m.kids[p] = [k for k in m.kids[p] if k != a]
            s.reach("removed")
    else:
        kids = s.choice(pre + "kids", lists)
        prevent = s.flag(pre + "prevent")
        bad = a not in m.sig or any(k not in m.sig for k in kids)
        if not bad and prevent:
            bad = any(k == a or m.reaches(k, a) for k in kids)
            if bad:
                s.reach("cycle rejected")
        r = raises(lambda: g.set_children(a, list(kids), prevent_cycles=prevent))
        s.check((r == "ValueError") == bad, "set_children accepted or rejected wrongly")
        if not bad:
            m.kids[a] = list(kids)
            s.reach("set")


def subsets(names, extra=()):
    out = []
    for k in range(len(names) + 1):
        out.extend(list(c) for c in itertools.combinations(names, k))
    return out + list(extra)


def inductive(names, lists, selfloops=False):
    def fn(s):
        g, m = FileDependencyGraph(), Model()
        present = [x for x in names if s.flag("in" + x)]
        for i, x in enumerate(present):
            m.sig[x] = (i, i + 10, i + 100)
            g.add_file(x, i, i + 10, i + 100)
            m.kids[x] = []
        for x in present:
            # every edge set over the files, in either insertion order
            ks = [y for y in present if (selfloops or y != x) and s.flag("e" + x + y)]
            if len(ks) > 1 and s.flag("rev" + x):
                ks.reverse()
            m.kids[x] = ks
            g.set_children(x, list(ks), prevent_cycles=False)
        verify(s, g, m, names)
        operate(s, g, m, names, "", lists)
        verify(s, g, m, names)
        s.observe("edges", sorted((x, list(g.get_children(x))) for x in m.sig))
        s.reach("end")

    return fn


def sequence(names, lists, n):
    def fn(s):
        g, m = FileDependencyGraph(), Model()
        for i in range(n):
            operate(s, g, m, names, "%d" % i, lists)
            verify(s, g, m, names)
        s.reach("end")

    return fn


def scenarios(tier):
    n3, n2 = ["a", "b", "c"], ["a", "b"]
    labels = ["end", "added", "removed", "set", "cycle rejected"]
    out = [
        dict(name="step-2", fn=inductive(n2, subsets(n2) + [["b", "a"], ["b", "b"], ["x"]], True), reach=labels),
        dict(name="step-3", fn=inductive(n3, subsets(n3) + [["c", "a"]]), reach=labels),
        dict(name="seq-3", fn=sequence(n2, [[], ["a"], ["b"], ["a", "b"]], 3), reach=labels),
    ]
    if tier != "quick":
        out.append(dict(name="step-3-loops", fn=inductive(n3, subsets(n3) + [["c", "a"], ["b", "b"]], True), reach=labels))
        out.append(dict(name="step-4", fn=inductive(n3 + ["d"], [[], ["a"], ["b"], ["a", "d"], ["d", "b", "a"]]),
                        reach=labels))
        out.append(dict(name="seq-4", fn=sequence(n2, [[], ["a"], ["b"]], 4), reach=labels))
    return out


BOUNDS = ("one arbitrary operation from every consistent graph over 2 files (self loops and repeated edges included) "
          "and over 3 files (thorough: 3 with self loops, 4 files), and every sequence of 3 (thorough 4) operations "
          "from the empty graph over 2 files; signatures are unbounded integers / reals")
OUTSIDE = "graphs over more files at once; invalid argument types"
