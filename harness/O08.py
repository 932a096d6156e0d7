"""FileDependencyGraph: store/load round trip and equality."""
from vanillaplusjs.build.graph import FileDependencyGraph
from harness.sio import TextIn, TextOut


def describe(g):
    return [
        (n.path, n.filesize, n.mtime, n.inode, [p.path for p in n.parents], [c.path for c in n.children])
        for n in g.nodes.values()
    ]


def same(s, a, b, what):
    da, db = describe(a), describe(b)
    s.check(len(da) == len(db), what + ": number of files")
    names = [x[0] for x in db]
    for x in da:
        i = [k for k in range(len(names)) if names[k] == x[0]]
        s.check(len(i) == 1, what + ": file names")
        y = db[i[0]]
        s.check(x[1] == y[1], what + ": size")
        s.check(x[2] == y[2], what + ": modification time")
        s.check(x[3] == y[3], what + ": inode")
        for k, w in ((4, "parents"), (5, "children")):
            s.check(len(x[k]) == len(y[k]), what + ": " + w)
            for p, q in zip(x[k], y[k]):
                s.check(p == q, what + ": " + w)


def linked(s, g, what):
    """Edges lead to the graph's own nodes."""
    for key, n in g.nodes.items():
        s.check(n.path == key, what + ": node filed under another name")
        for m in n.parents + n.children:
            s.check(any(m is x for x in g.nodes.values()), what + ": edge to a node outside the graph")


def roundtrip(nfiles, nchars, values):
    def fn(s):
        names = []
        for i in range(nfiles):
            nm = s.text("n%d" % i, nchars) if nchars else "f%d" % i
            for o in names:
                s.assume(nm != o)
            names.append(nm)
        g = FileDependencyGraph()
        for i, nm in enumerate(names):
            if values == "int":
                g.add_file(nm, s.integer("fs%d" % i), s.integer("mt%d" % i), s.integer("in%d" % i))
            elif values:
                g.add_file(nm, s.integer("fs%d" % i), s.real("mt%d" % i), s.integer("in%d" % i))
            else:
                g.add_file(nm, i + 1, 0.5 + i, i + 7)
        for i, nm in enumerate(names):
            ks = [names[j] for j in range(nfiles) if s.flag("e%d%d" % (i, j))]
            if len(ks) > 1 and s.flag("rev%d" % i):
                ks.reverse()
            if ks:
                g.set_children(nm, ks, prevent_cycles=False)
        out = TextOut()
        g.store(out)
        h = FileDependencyGraph.load(TextIn(out.text))
        same(s, g, h, "loaded graph differs")
        linked(s, h, "loaded graph")
        s.check(g == h, "the loaded graph does not compare equal")
        s.check(h == g, "the loaded graph does not compare equal")
        out2 = TextOut()
        h.store(out2)
        k = FileDependencyGraph.load(TextIn(out2.text))
        same(s, g, k, "graph stored twice differs")
        s.reach("end")

    return fn


def comparison(nfiles, sig):
    names = ["a", "b", "c"]

    def build(s, pre):
        g = FileDependencyGraph()
        facts = []
        for i in range(nfiles):
            nm = names[i]
            if i and s.flag(pre + "missing%d" % i):
                facts.append((False, 0, 0, 0, ()))
                continue
            if sig:
                v = (s.integer(pre + "fs%d" % i), s.real(pre + "mt%d" % i), s.integer(pre + "in%d" % i))
            else:
                v = (0, 0, 0)
            g.add_file(nm, *v)
            facts.append((True,) + v)
        edges = []
        for i in range(nfiles):
            ks = []
            if facts[i][0]:
                ks = [names[j] for j in range(nfiles) if facts[j][0] and s.flag(pre + "e%d%d" % (i, j))]
                if ks:
                    g.set_children(names[i], ks, prevent_cycles=False)
            edges.append(ks)
        return g, facts, edges

    def fn(s):
        g, fg, eg = build(s, "p")
        h, fh, eh = build(s, "q")
        eq = True
        for i in range(nfiles):
            if fg[i][0] != fh[i][0]:
                eq = False
            elif fg[i][0]:
                for k in (1, 2, 3):
                    eq = eq & (fg[i][k] == fh[i][k])
                eq = eq & (eg[i] == eh[i])
        r = g == h
        s.check((r == True) == eq, "wrong comparison result")
        s.check((g != h) == (r != True), "!= disagrees with ==")
        s.observe("r", r)
        s.reach("equal" if r else "different")

    return fn


def scenarios(tier):
    out = [
        dict(name="names-2", fn=roundtrip(2, 1, None), reach=["end"]),
        dict(name="names-1", fn=roundtrip(1, 3, None), reach=["end"]),
        dict(name="values-2", fn=roundtrip(2, 0, "real"), reach=["end"]),
        dict(name="values-int", fn=roundtrip(1, 0, "int"), reach=["end"]),
        dict(name="edges-3", fn=roundtrip(3, 0, None), reach=["end"]),
        dict(name="compare-2", fn=comparison(2, True), reach=["equal", "different"]),
    ]
    if tier != "quick":
        out.append(dict(name="names-2x2", fn=roundtrip(2, 2, None), reach=["end"]))
        out.append(dict(name="names-3", fn=roundtrip(3, 1, None), reach=["end"]))
        out.append(dict(name="compare-3", fn=comparison(3, False), reach=["equal", "different"]))
    return out


BOUNDS = ("graphs over 2 files with names of 1 arbitrary code point, 1 file with a name of 3, 3 files with every edge set "
          "(cycles and self loops included), unbounded integer sizes/inodes and arbitrary rational times; equality of "
          "every pair of graphs over 2 files (thorough: names of 2 characters, 3 files)")
OUTSIDE = "NaN and infinite times; more files; names with lone surrogates"
STUBS = ["json.dump / json.load: string escaping and number literals are inverse to each other (contract of the standard "
         "library); structure hand-written by the code is parsed character by character"]
