"""Which files a build treats as added, changed and deleted."""
import os
import shutil
import tempfile

import vanillaplusjs.build.cold_incremental_rebuild as cold
from vanillaplusjs.build.build_context import BuildContext
from vanillaplusjs.build.graph import FileDependencyGraph
from vanillaplusjs.build.hot_incremental_rebuild import hot_incremental_rebuild
from harness.orch import SHM
from harness.sio import TextIn, TextOut

BOUNDS = ("three source files in nested folders (also outside src/public and hidden), each present or absent in the folder and in "
          "the record; sizes and inodes as unbounded integers, modification times as arbitrary reals (integers when the "
          "record is also stored and loaded); one source file of any name of up to 4 (thorough 6) code points in a folder "
          "of any name of 3")
OUTSIDE = "a modification that leaves size, modification time and inode all unchanged; symbolic links to folders"
STUBS = ["scenario names: os.walk lists the folder with the symbolic names",
         "os.lstat of the source files returns the symbolic signature; the folder itself is a real one",
         "hot_incremental_rebuild only records its arguments"]
ASSUMPTIONS = ["numbers written to JSON are read back unchanged (floats are written with repr)"]

FILES = ["src/public/index.html", "src/public/js/deep/a.js", "src/.partial"]


class Stat:
    def __init__(self, size, mtime, ino):
        self.st_size, self.st_mtime, self.st_ino = size, mtime, ino


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("suspended")


def detect(files, stored):
    def fn(s):
        base = tempfile.mkdtemp(prefix="vxo06", dir=SHM)
        s.cleanup.append(lambda: shutil.rmtree(base, ignore_errors=True))
        os.makedirs(os.path.join(base, "src/public/js/empty"))
        stats, old = {}, {}
        num = s.integer if stored else s.real
        graph = FileDependencyGraph()
        for i, f in enumerate(files):
            there, known = s.flag("there%d" % i), s.flag("known%d" % i)
            if there:
                p = os.path.join(base, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w"):
                    pass
                stats[f] = Stat(s.integer("size%d" % i), num("mtime%d" % i), s.integer("inode%d" % i))
            if known:
                old[f] = Stat(s.integer("osize%d" % i), num("omtime%d" % i), s.integer("oinode%d" % i))
                graph.add_file(f, old[f].st_size, old[f].st_mtime, old[f].st_ino)
        ks = list(old)
        for a, b in zip(ks, ks[1:]):
            graph.set_children(a, [b])
        if stored:
            out = TextOut()
            graph.store(out)
            graph = FileDependencyGraph.load(TextIn(out.text))
        seen = []

        async def hot(context, dep, outp, ph, changed, added, deleted):
            seen.append((changed, added, deleted, dep is graph))

        real = os.lstat

        def lstat(path, *a, **k):
            rel = os.path.relpath(path, base)
            return stats[rel] if rel in stats else real(path, *a, **k)

        s.intercept(hot_incremental_rebuild, hot)
        s.intercept(os.lstat, lstat)
        ctx = BuildContext(base, dev=False, symlinks=False)
        ctx.external_files = {}
        drive(cold.cold_incremental_rebuild(ctx, graph, FileDependencyGraph(), FileDependencyGraph()))
        s.check(len(seen) == 1, "no rebuild is started")
        changed, added, deleted, same = seen[0]
        s.check(same, "the rebuild is not given the records")
        for f in files:
            if f in stats and f not in old:
                s.check(f in added and f not in changed and f not in deleted, "new file not treated as added")
                s.reach("added")
            elif f in old and f not in stats:
                s.check(f in deleted and f not in added and f not in changed, "missing file not treated as deleted")
                s.reach("deleted")
            elif f in stats:
                a, b = stats[f], old[f]
                equal = (a.st_size == b.st_size) & (a.st_mtime == b.st_mtime) & (a.st_ino == b.st_ino)
                s.check(f not in added and f not in deleted, "a known file is treated as added or deleted")
                if f in changed:
                    s.check(equal != True, "an unchanged file is treated as changed")
                    s.reach("changed")
                else:
                    s.check(equal, "a changed file is left alone")
                    s.reach("unchanged")
            else:
                s.check(f not in added and f not in changed and f not in deleted, "a file that never was")
            for d in (changed, added):
                if f in d:
                    sig, st = d[f], stats[f]
                    s.check(sig.filesize == st.st_size, "size in the new signature")
                    s.check(sig.mtime == st.st_mtime, "time in the new signature")
                    s.check(sig.inode == st.st_ino, "inode in the new signature")
        s.check(set(changed) | set(added) | set(deleted) <= set(files), "unknown file reported")

    return fn


def names(length, nfolder):
    """A file under any name (and in a folder of any name) is a source file."""
    def fn(s):
        base = "/site"
        name = s.text("name", length)
        dirname = s.text("dir", nfolder) if nfolder else ""
        for x in (name, dirname):
            for c in x:
                s.assume((c != "/") & (c != "\0"))
        for x in (name, dirname):
            s.assume((x != ".") & (x != ".."))
        kind = s.choice("kind", ["added", "changed", "same"])
        sizes = (s.integer("size"), s.integer("osize"))
        sub = "src/public" + ("/" + dirname if nfolder else "")
        rel = sub + "/" + name
        graph = FileDependencyGraph()
        if kind != "added":
            graph.add_file(rel, sizes[1] if kind == "changed" else sizes[0], 5, 7)
        s.assume(sizes[0] != sizes[1])
        seen, walked = [], []

        async def hot(context, dep, outp, ph, changed, added, deleted):
            seen.append((changed, added, deleted))

        def walk(top, *a, **k):
            walked.append(top)
            yield base + "/src", ["public"], []
            if nfolder:
                yield base + "/src/public", [dirname], []
            yield base + "/" + sub, [], [name]

        def lstat(path, *a, **k):
            s.check(path == base + "/" + rel, "signature of another file")
            return Stat(sizes[0], 5, 7)

        s.intercept(hot_incremental_rebuild, hot)
        s.intercept(os.lstat, lstat)
        s.intercept(os.walk, walk)
        ctx = BuildContext(base, dev=False, symlinks=False)
        ctx.external_files = {}
        drive(cold.cold_incremental_rebuild(ctx, graph, FileDependencyGraph(), FileDependencyGraph()))
        s.check(len(seen) == 1, "no rebuild is started")
        if not walked or walked[0] != base + "/src":
            raise NotImplementedError("files are not listed with os.walk: no stand-in for the folder")
        changed, added, deleted = [list(x) for x in seen[0]]
        s.check(len(deleted) == 0, "a file that is there is treated as deleted")
        for got, what in ((added, "added"), (changed, "changed")):
            if kind == what:
                s.check(len(got) == 1, "file not treated as " + what)
                s.check(got[0] == rel, "another file is treated as " + what)
                s.reach(what)
            else:
                s.check(len(got) == 0, "file wrongly treated as " + what)
        s.reach("end")

    return fn


def scenarios(tier):
    reach = ["added", "deleted", "changed", "unchanged"]
    return [
        dict(name="detect", fn=detect(FILES, False), reach=reach),
        dict(name="stored", fn=detect(FILES[:2], True), reach=reach),
    ] + [
        dict(name="names-%d-%d" % (n, d), fn=names(n, d), reach=["added", "changed", "end"])
        for n, d in ((1, 0), (3, 0), (4, 0), (2, 3)) + (((6, 0), (3, 4)) if tier != "quick" else ())
    ]
