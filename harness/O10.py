"""External files over a history of builds."""
import builtins

from harness.external import ANSWERS, CONTENT, FILES, P, Refused, World
from vanillaplusjs.build.exceptions import IntegrityMismatchException

BOUNDS = ("one or two external files (in folders that exist, are missing, or the project root) with either of two contents, "
          "declared, redeclared with another content or undeclared between two or three builds; between builds a file is kept, "
          "deleted, or replaced by either content or another one; every answer of the server (right, wrong content, error status, no "
          "connection, connection lost halfway); every completion order")
OUTSIDE = ("more files or builds; integrity values with several hashes; a changed file with the same size, time and inode; "
           "what was placed before the out folder was removed")
STUBS = ["the disk is an in-memory tree", "requests.get answers as the scenario chooses",
         "ProcessPoolExecutor runs each call on completion in every order"]
FAIL = {"wrong": IntegrityMismatchException, "status": Refused, "refused": Refused, "broken": Refused}


def history(files, builds, disk, answers, order, redeclare=("", "A", "B")):
    def fn(s):
        w = World(s, order)
        placed = set()                          # put in place by some build, and not yet gone
        for n in range(1, builds + 1):
            old = dict(w.declared)
            w.declared = {}
            w.answers = {}
            before = {}
            for i, f in enumerate(files):
                c = s.choice("b%d.declared%d" % (n, i), redeclare)
                if c:
                    w.declared[f] = c
                d = s.choice("b%d.disk%d" % (n, i), disk)
                if d == "delete":
                    if P + f in w.fs.files:
                        w.fs.unlink(P + f)
                    else:
                        s.assume(False)
                elif d != "keep":
                    w.put(f, d)
                before[f] = w.has(f)
            need = [f for f in w.declared if before[f] != w.declared[f]]
            for f in need:
                w.answers[f] = s.choice("b%d.answer%d" % (n, files.index(f)), answers)
            bad = [f for f in need if w.answers[f] != "right"]
            err = w.check()
            if bad:
                s.check(err is not None, "the check succeeds though %s could not be obtained" % bad)
                s.check(any(type(err) is FAIL[w.answers[f]] for f in bad), "fails with %s" % type(err).__name__)
                s.reach("failed")
            elif err is not None:
                s.fail("the check fails: %s: %s" % (type(err).__name__, err))
            s.check(sorted(w.asked) == sorted(need), "downloads %r, needed %r" % (w.asked, need))
            for f in files:
                has = w.has(f)
                if f in w.declared:
                    if f in bad:
                        s.check(has == before[f] or has is None and before[f] is None, "a download that failed replaces %s" % f)
                    else:
                        s.check(has == w.declared[f], "%s has the wrong content" % f)
                        placed.add(f)
                        s.reach("placed")
                elif f in placed:
                    s.check(has is None, "%s is left behind" % f)
                    placed.discard(f)
                    s.reach("removed")
                else:
                    s.check(has == before[f], "%s is not ours to change" % f)
            extra = [k for k in w.fs.files if k not in w.own and k[len(P):] not in files
                     and k != P + "out/external_files_state.json"]
            if extra:
                s.fail("leaves %r" % (extra,))
            if any(k not in w.fs.files or w.fs.astext(w.fs.files[k]) not in ("own", "{}") for k in w.own):
                s.fail("changes another file")
        s.reach("end")

    return fn


def kinds(s):
    """Other digests, and a large file read in several pieces."""
    w = World(s)
    f = FILES[0]
    w.declared[f] = s.choice("content", ["A", "B", ""])
    w.kinds[f] = s.choice("digest", ["sha256", "sha384", "sha512"])
    d = s.choice("disk", ["", "A", "B", "wrong", None])
    if d is not None:
        w.put(f, d)
    w.answers[f] = s.choice("answer", ["right", "wrong"])
    err = w.check()
    need = d != w.declared[f]
    s.check(w.asked == ([f] if need else []), "downloads a file that matches, or not one that does not")
    if need and w.answers[f] == "wrong":
        s.check(type(err) is IntegrityMismatchException, "accepts a download with another content")
        s.reach("refused")
    else:
        s.check(err is None and w.has(f) == w.declared[f], "not the declared content")
        s.reach("accepted")


def scenarios(tier):
    q = tier == "quick"
    disk = ["keep", "delete", "A", "wrong"]
    out = [
        dict(name="two files", fn=history(FILES[:2], 2, ["keep", "delete", "wrong"], ["right", "wrong", "refused"], True, ("", "A")),
             reach=["end", "failed", "placed", "removed"]),
        dict(name="one file", fn=history(FILES[2:], 3, disk + ["B"], ANSWERS, False), reach=["end", "failed", "placed", "removed"]),
        dict(name="digests", fn=kinds, reach=["refused", "accepted"]),
    ]
    if not q:
        out.append(dict(name="two files, redeclared", fn=history(FILES[:2], 2, disk, ANSWERS, True), reach=["end"]))
        out.append(dict(name="two files, three builds", fn=history(FILES[:2], 3, ["keep", "delete"], ["right", "refused"], False,
                                                                   ("", "A")), reach=["end"]))
    return out
