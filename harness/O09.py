"""Which rebuilds the dev watcher asks for."""
import io
import json
import os
import time

from watchdog import events as ev

from harness import memfs
from harness.orch import config
import vanillaplusjs.runners.dev as dev
from vanillaplusjs.build.file_signature import FileSignature
from vanillaplusjs.build.graph import FileDependencyGraph

BOUNDS = ("a project with two files, one in a folder, and a third name; every sequence of two to four operations (write, create, "
          "delete, move onto a free or taken name, and for the folder move, delete, move in from elsewhere, with the events "
          "of its files or without) with the events delivered at once, late, or during a rebuild; rebuilds between any two operations, "
          "each of which may fail before or after it took effect, or be impossible to prepare")
OUTSIDE = "changes made before the watcher starts; longer histories; symbolic links; a failed rebuild nothing follows"
STUBS = ["hot_incremental_rebuild: records what it is given, then succeeds or fails as the scenario chooses (O01 to O05 are "
         "about it)", "watchdog: the scenario delivers its events", "the disk is an in-memory tree", "the clock is the scenario's"]
ASSUMPTIONS = ["watchdog reports every change at least for the file or for a folder it is in"]
P = memfs.PROJECT + "/"
A, B, D = "src/public/a.js", "src/d/b.js", "src/c.txt"
NAMES = [A, B, D]


class World:
    def __init__(self, s, build_fails=False):
        self.s = s
        self.fs = memfs.FS(s, {"vanillaplusjs.json": json.dumps(config())}, ["src/public", "src/d", "src/d2"])
        self.now = 1000.0
        self.recorded = {}
        self.queue = []
        self.during = None
        self.fail = None
        self.calls = 0
        s.intercept(time.time, lambda: self.now)
        s.intercept(dev.hot_incremental_rebuild, self.rebuild)
        for f in (A, B):
            self.fs.put(P + f, "x")
        self.recorded = dict((f, self.sig(f)) for f in (A, B))
        self.store()
        self.h = dev.DevEventHandler(memfs.PROJECT, 0.1, False)

    def sig(self, f):
        st = self.fs.stat(P + f)
        return FileSignature(mtime=st.st_mtime, filesize=st.st_size, inode=st.st_ino)

    def disk(self):
        return dict((k[len(P):], self.sig(k[len(P):])) for k in self.fs.files if k.startswith(P + "src/"))

    def store(self):
        g = FileDependencyGraph()
        for f, x in self.recorded.items():
            g.add_file(f, x.filesize, x.mtime, x.inode)
        t = io.StringIO()
        g.store(t)
        self.fs.put(P + "out/dependency_graph.json", t.getvalue())

    async def rebuild(self, context, deps, outs, phs, changed, added, deleted):
        s = self.s
        self.calls += 1
        s.check(context.folder == memfs.PROJECT and context.dev is True, "another project or mode is built")
        if sorted(deps.nodes) != sorted(self.recorded):
            s.fail("the rebuild does not start from the stored graph")
        now = self.disk()
        for role, files in (("changed", changed), ("added", added), ("deleted", deleted)):
            for f in files:
                if (f in now) != (role != "deleted"):
                    s.fail("%s is passed as %s but %s" % (f, role, "exists" if f in now else "does not exist"))
                if (f in self.recorded) != (role != "added"):
                    s.fail("%s is passed as %s but %s in the graph" % (f, role, "is" if f in self.recorded else "is not"))
                if role != "deleted" and files[f] != now[f]:
                    s.fail("%s is passed with a signature it does not have" % f)
        if len(set(changed) | set(added) | set(deleted)) != len(list(changed)) + len(list(added)) + len(list(deleted)):
            s.fail("a file is passed twice")
        if self.during is not None:
            op, self.during = self.during, None
            op()
        if self.fail == "before":
            s.reach("failed")
            raise ValueError("injected")
        self.recorded.update(changed)
        self.recorded.update(added)
        for f in deleted:
            self.recorded.pop(f, None)
        self.store()

    def emit(self, *events):
        self.queue.extend(events)

    def deliver(self):
        while self.queue:
            self.h.dispatch(self.queue.pop(0))

    # ------------------------------------------------------ operations
    def op(self, name, subs):
        """Changes the disk and queues the events; subs: folder events come with
        those of the files in it."""
        fs, s = self.fs, self.s
        has = lambda f: P + f in fs.files
        kind, _, what = name.partition(" ")
        if kind == "write":
            s.assume(has(what))
            fs.clock += 1
            fs.put(P + what, fs.files[P + what] + "x")
            fs.sig[P + what] = fs.clock
            self.emit(ev.FileModifiedEvent(P + what))
        elif kind == "create":
            s.assume(not has(what) and P + os.path.dirname(what) in fs.dirs)
            fs.put(P + what, "n")
            self.emit(ev.FileCreatedEvent(P + what), ev.FileModifiedEvent(P + what))
        elif kind == "delete":
            s.assume(has(what))
            fs.unlink(P + what)
            self.emit(ev.FileDeletedEvent(P + what))
        elif kind == "move":
            a, b = what.split(">")
            s.assume(has(a) and P + os.path.dirname(b) in fs.dirs)
            if has(b):
                fs.unlink(P + b)
            fs.rename(P + a, P + b)
            self.emit(ev.FileMovedEvent(P + a, P + b))
        elif kind == "replace":         # saved by writing another file and moving it here from outside
            s.assume(P + os.path.dirname(what) in fs.dirs)
            if has(what):
                fs.unlink(P + what)
            fs.put(P + what, "r")
            self.emit(ev.FileCreatedEvent(P + what))
        elif kind == "rmdir":
            d, b = "src/d", B
            s.assume(P + d in fs.dirs and has(b))
            fs.rmtree(P + d)
            if subs:
                self.emit(ev.FileDeletedEvent(P + b))
            self.emit(ev.DirDeletedEvent(P + d))
        elif kind == "mvdir":
            s.assume(P + "src/d" in fs.dirs and has(B) and P + "src/e" not in fs.dirs)
            fs.mkdirs(P + "src/e")
            fs.rename(P + B, P + "src/e/b.js")
            fs.rmtree(P + "src/d")
            self.emit(ev.DirMovedEvent(P + "src/d", P + "src/e"))
            if subs:
                self.emit(ev.FileMovedEvent(P + B, P + "src/e/b.js"))
        elif kind == "indir":
            s.assume(P + "src/n" not in fs.dirs)
            fs.mkdirs(P + "src/n/m")
            fs.put(P + "src/n/m/x.js", "n")
            self.emit(ev.DirCreatedEvent(P + "src/n"))
            if subs:
                self.emit(ev.DirCreatedEvent(P + "src/n/m"), ev.FileCreatedEvent(P + "src/n/m/x.js"))
        elif kind == "todir":           # a file becomes a folder
            s.assume(has(D) and P + D not in fs.dirs)
            fs.unlink(P + D)
            fs.mkdirs(P + D)
            fs.put(P + D + "/y.js", "n")
            self.emit(ev.FileDeletedEvent(P + D), ev.DirCreatedEvent(P + D), ev.FileCreatedEvent(P + D + "/y.js"))
        else:
            raise KeyError(name)
        self.now += 0.01

    def turn(self, wait=1.0):
        self.now += wait
        self.h.rebuild_if_appropriate()

    def settle(self):
        """Something harmless happens after whatever failed; then all must be in."""
        self.fail = None
        self.during = None
        self.deliver()
        n = self.calls
        self.turn()
        if self.calls == n and self.disk() != self.recorded:
            self.s.fail("the sources differ from the last build but are not rebuilt: %r" % (
                sorted(set(self.disk().items()) ^ set(self.recorded.items())),))
        if self.disk() != self.recorded:
            self.s.fail("a change is not passed to any rebuild: %r" % (
                sorted(set(self.disk().items()) ^ set(self.recorded.items())),))
        self.deliver()
        n = self.calls
        self.turn()
        self.turn()
        self.s.check(self.calls == n, "rebuilds again and again without changes")


FILE_OPS = ["write " + A, "write " + D, "create " + D, "create " + A, "delete " + A, "delete " + D, "move %s>%s" % (A, D),
            "move %s>%s" % (D, A), "replace " + A, "replace " + D]
DIR_OPS = ["rmdir", "mvdir", "indir", "write " + B, "create " + B, "move %s>%s" % (A, B), "delete " + B]


def history(ops, n, subs=(True,)):
    """Operations with late events, rebuilds in between that may fail."""
    def fn(s):
        w = World(s)
        failed = False
        for i in range(n):
            w.op(s.choice("op%d" % i, ops), s.choice("subs%d" % i, list(subs)) if len(subs) > 1 else subs[0])
            if not s.flag("late%d" % i):
                w.deliver()
                failed = False
            if i < n - 1:
                r = s.choice("rebuild%d" % i, ["no", "ok", "before"])
                if r != "no":
                    w.fail = r
                    c = w.calls
                    w.turn()
                    if r == "before" and w.calls > c:
                        failed = True
        if failed and not w.queue:
            w.emit(ev.FileModifiedEvent(P + "src/public/z.txt"))       # anything at all
        w.settle()
        s.reach("end")

    return fn


def during(ops, deep):
    """Operations while a rebuild is running, which succeeds or fails."""
    def fn(s):
        w = World(s)
        w.op(s.choice("op0", ops), False)
        w.deliver()
        second = s.choice("op1", ops)
        third = s.choice("op2", ops) if deep else None

        def op():
            w.op(second, False)
            if not s.flag("late"):
                w.deliver()
                s.reach("during")

        w.during = op
        w.fail = s.choice("fails", [None, "before"])
        w.turn()
        w.fail = None
        s.assume(w.during is None)
        if third:
            w.deliver()
            w.op(third, False)
        w.settle()
        s.reach("end")

    return fn


def unprepared(s):
    """The configuration or a stored graph cannot be read for a while."""
    w = World(s)
    w.op(s.choice("op0", FILE_OPS), False)
    w.deliver()
    f = s.choice("unreadable", ["vanillaplusjs.json", "out/dependency_graph.json"])
    good = w.fs.files[P + f]
    w.fs.put(P + f, "{")
    w.turn()
    w.fs.put(P + f, good)
    s.check(w.calls == 0, "rebuilds without a configuration or graph")
    w.op(s.choice("op1", FILE_OPS), False)
    w.settle()
    s.reach("end")


def debounce(s):
    """Nothing is rebuilt while changes keep coming."""
    w = World(s)
    w.op(s.choice("op0", FILE_OPS), False)
    w.deliver()
    w.now += 0.05
    w.op(s.choice("op1", FILE_OPS), False)
    w.deliver()
    w.h.rebuild_if_appropriate()
    s.check(w.calls == 0, "rebuilds within the debounce time")
    w.settle()
    s.reach("end")


def scenarios(tier):
    q = tier == "quick"
    return [
        dict(name="files", fn=history(FILE_OPS, 3), reach=["end", "failed"]),
        dict(name="folders", fn=history(DIR_OPS + ["todir", "create " + D], 2 if q else 3, (True, False)), reach=["end", "failed"]),
        dict(name="during", fn=during(FILE_OPS + DIR_OPS[:4], not q), reach=["end", "failed", "during"]),
        dict(name="unprepared", fn=unprepared, reach=["end"]),
        dict(name="debounce", fn=debounce, reach=["end"]),
    ] + ([] if q else [dict(name="files, four", fn=history(FILE_OPS, 4), reach=["end"])])
