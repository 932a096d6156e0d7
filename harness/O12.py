"""What cleaning removes."""
import builtins
import io
import json

from harness import memfs
import vanillaplusjs.runners.clean as cl
from vanillaplusjs.build.graph import FileDependencyGraph

BOUNDS = ("every combination of outputs, artifacts, stored graphs, up to two recorded placeholders (one with an arbitrary "
          "two-character name) that may or may not still exist, generators, other sources with arbitrary two-character names, "
          "files beside out/ and artifacts/, and a same-named tree in the working directory; every flag and every answer to the "
          "prompt (up to three lines); started with an absolute or a relative folder; cleaning twice")
OUTSIDE = "out/ or artifacts/ being symbolic links; placeholder records that are not readable"
STUBS = ["the disk is an in-memory tree", "the terminal answers with lines chosen by the scenario"]
P = memfs.PROJECT + "/"


def graph_text(nodes):
    g = FileDependencyGraph()
    for gen, phs in nodes:
        g.add_file(gen, 1, 1.0, 1)
        for p in phs:
            g.add_file(p, 1, 1.0, 1)
        g.set_children(gen, list(phs))
    f = io.StringIO()
    g.store(f)
    return f.getvalue()


def name(s, tag, chars):
    a, b = s.char(tag + "0", chars), s.char(tag + "1", chars)
    return a + b


def tree(s, symbolic):
    """The project; returns the file system, the recorded placeholders and what may not change."""
    chars = "".join(chr(c) for c in range(33, 127) if chr(c) not in "/\\\"")
    own = name(s, "ph", chars) if symbolic else "ph"
    phs = ["src/public/" + own + ".images.js", "src/public/d/q.images.js"]
    s.assume(own != "..")
    gens = ["src/public/g.images.json", "src/public/d/q.images.json"]
    other = "src/public/" + (name(s, "src", chars) if symbolic else "zz") + ".images.js"
    s.assume(other != phs[0])
    keep = {"vanillaplusjs.json": "{}", other: "own", "src/out/a.js": "1", "src/artifacts/b": "2", "outx/c": "3",
            "artifacts2/d": "4", "src/public/out/placeholder_graph.json": "5", "other.txt": "6"}
    fs = memfs.FS(s, keep)
    for p, g in zip(phs, gens):
        keep[g] = "{}"
        fs.put(P + g, "{}")
    outside = {memfs.CWD + "/out/x": "7", memfs.CWD + "/artifacts/y": "8", memfs.CWD + "/" + phs[1]: "9",
               memfs.ROOT + "/out/z": "10", memfs.ROOT + "/vanillaplusjs.json": "{}"}
    for k, v in outside.items():
        fs.put(k, v)
    keep = dict((P + k, v) for k, v in keep.items())
    keep.update(outside)
    recorded = []
    if s.flag("recorded"):
        n = s.choice("placeholders", [0, 1, 2])
        nodes = [(g, [p]) for g, p in list(zip(gens, phs))[:n]]
        recorded = [p for g, ps in nodes for p in ps]
        if n and s.flag("another generator"):
            nodes.append(("src/public/none.images.json", []))
            keep[P + "src/public/none.images.json"] = "{}"
            fs.put(P + "src/public/none.images.json", "{}")
        fs.put(P + "out/placeholder_graph.json", graph_text(nodes))
    if s.flag("outputs"):
        for f in ("out/www/index.html", "out/www/d/e.js", "out/output_graph.json"):
            fs.put(P + f, "o")
    if s.flag("artifacts"):
        fs.put(P + "artifacts/i/0/metadata.json", "o")
    there = [s.flag("exists0"), s.flag("exists1")]
    for p, t in zip(phs, there):
        if t:
            fs.put(P + p, "generated")
            if p not in recorded:
                keep[P + p] = "generated"
    fs.recorded = recorded
    return fs, [P + p for p, t in zip(phs, there) if t and p in recorded], keep


def check(s, fs, keep, phs, removed, asked_wrong=False):
    want = dict(keep)
    if not removed:
        for p in phs:
            want[p] = "generated"
    for k, v in want.items():
        if k not in fs.files:
            s.fail("cleaning removes a file that is not generated")
        if not fs.files[k] == v:
            s.fail("cleaning changes a file")
    for k in fs.files:
        if not any(k == w for w in want):
            s.fail("cleaning leaves or makes %s" % s.conc(k))
    if any(k.startswith(P + "out/") or k.startswith(P + "artifacts/") for k in fs.files):
        s.fail("cleaning leaves outputs")


def direct(symbolic):
    def fn(s):
        fs, phs, keep = tree(s, symbolic)
        flag = s.flag("remove placeholders")
        folder = s.choice("folder", [memfs.PROJECT, "../project"])
        for n in (1, 2):
            cl.clean(folder, flag)
            check(s, fs, keep, phs, flag)
        s.reach("end")
        if phs and flag:
            s.reach("placeholders removed")

    return fn


ANSWERS = [["y"], ["n"], ["Y"], ["", "N"], ["yes", "y"], ["x", "", "n"]]


def command(s):
    """The command line, with the question."""
    fs, phs, keep = tree(s, False)
    answers = list(s.choice("answers", ANSWERS))
    asked = []

    def answer(*a):
        asked.append(1)
        return answers[len(asked) - 1]

    s.intercept(builtins.input, answer)
    s.intercept(builtins.print, lambda *a, **k: None)
    flags = s.choice("flags", [[], ["--placeholders"], ["--no-placeholders"]])
    args = flags + s.choice("folder", [["--folder", memfs.PROJECT], ["--folder", "../project"], ["--folder=../project/"]])
    cl.main(args)
    if flags:
        removed = flags[0] == "--placeholders"
        s.check(not asked, "asks in spite of the flag")
    elif not fs.recorded:
        removed = True
    else:
        s.check(len(asked) == len(answers), "asks %d times" % len(asked))
        removed = answers[-1].lower() == "y"
        s.reach("asked")
    check(s, fs, keep, phs, removed)
    s.reach("end")


def no_project(s):
    """A folder that is not a project is left alone."""
    fs = memfs.FS(s, {"out/a": "1", "artifacts/b": "2", "src/public/p.images.js": "3",
                      "out/placeholder_graph.json": graph_text([("g", ["src/public/p.images.js"])])})
    for k in (memfs.CWD + "/vanillaplusjs.json", memfs.ROOT + "/vanillaplusjs.json"):
        if s.flag("elsewhere" + k[-30:]):
            fs.put(k, "{}")
    before = dict(fs.files)
    s.intercept(builtins.print, lambda *a, **k: None)
    try:
        cl.clean(s.choice("folder", [memfs.PROJECT, "../project"]), s.flag("remove placeholders"))
    except SystemExit as e:
        s.check(e.code == 1, "exit code")
    else:
        s.fail("cleans a folder that is not a project")
    s.check(before == fs.files, "changes a folder that is not a project")
    s.reach("end")


def scenarios(tier):
    return [
        dict(name="direct", fn=direct(False), reach=["end", "placeholders removed"]),
        dict(name="names", fn=direct(True), reach=["end", "placeholders removed"]),
        dict(name="command", fn=command, reach=["end", "asked"]),
        dict(name="no project", fn=no_project, reach=["end"]),
    ]
