"""Drives the real build orchestrator (runners.build -> cold -> hot incremental
rebuild) on small projects. The process pool is replaced by a model that runs
each submitted call atomically at its completion, in an order chosen by the
scenario; the event loop, the graphs, the file signatures and all file
operations are the real ones, in a scratch directory."""
import asyncio
import concurrent.futures
import json
import os
import shutil
import tempfile

import vanillaplusjs.runners.build
import vanillaplusjs.runners.init
import vanillaplusjs.build.handlers.copy_and_hash as cah
import vanillaplusjs.build.handlers.js_constants as jsc
from vanillaplusjs.build.build_file_result import BuildFileResult
from vanillaplusjs.build.exceptions import CyclicDependencyException
from vanillaplusjs.build.graph import FileDependencyGraph
from vanillaplusjs.build.scan_file import scan_file as real_scan_file
from vanillaplusjs.build.scan_file_result import ScanFileResult

SHM = "/dev/shm" if os.path.isdir("/dev/shm") else None


REAL = dict(open=open, unlink=os.unlink, remove=os.remove, rmdir=os.rmdir, rename=os.rename, replace=os.replace)


class Injected(Exception):
    """Failure of a file build or scan."""


class Killed(BaseException):
    """The build process is killed here."""


class Hang(Exception):
    pass


class Task:
    def __init__(self, fn, args):
        self.fn, self.args = fn, args
        self.future = concurrent.futures.Future()
        self.file = next((a for a in args if isinstance(a, str)), "")
        self.kind = None


class Sim:
    """State of one build run."""

    def __init__(self, s, tag, order=True, batch=False, kill=False):
        self.s, self.tag, self.order, self.batch = s, tag, order, batch
        self.pending = []
        self.n = 0
        self.done = []          # (kind, file) in completion order
        self.snap = {}          # file -> (files built before submission, in flight at submission)
        self.running = None
        self.error = None
        self.kill = kill
        self.dead = False
        self.over = False
        self.events = 0
        self.shut = False
        self.before = None      # called before each scan or build

    # -- process pool --
    def submit(self, fn, *args, **kwargs):
        if self.shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        t = Task(fn, args)
        self.snap.setdefault(t.file, []).append(
            (t, [f for k, f in self.done if k == "build"], list(self.pending)))
        self.pending.append(t)
        return t.future

    def event(self):
        """A point at which the build process may be killed."""
        if self.dead:
            raise Killed()
        if self.kill:
            self.events += 1
            if self.s.flag("%s.kill%d" % (self.tag, self.events)):
                self.dead = True
                raise Killed()

    def run_one(self, t):
        self.pending.remove(t)
        self.event()
        if self.before:
            self.before(t)
        self.running = t
        try:
            if not t.future.set_running_or_notify_cancel():
                return
            try:
                r = t.fn(*t.args)
            except Killed:
                raise
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                t.future.set_exception(e)
            else:
                t.future.set_result(r)
            self.done.append((t.kind, t.file))
        finally:
            self.running = None

    def step(self):
        """Something completes."""
        first = self.pending[0]
        if first.fn is real_scan_file or len(self.pending) == 1 or not self.order:
            self.run_one(first)
            return
        opts = sorted(self.pending, key=lambda t: t.file)
        k = self.n
        self.n += 1
        extra = 1 if self.batch else 0
        i = self.s.choice("%s.order%d" % (self.tag, k), list(range(len(opts) + extra)))
        if i == len(opts):
            for t in opts:
                self.run_one(t)
        else:
            self.run_one(opts[i])

    def drain(self):
        while self.pending:
            self.run_one(sorted(self.pending, key=lambda t: t.file)[0])
        self.shut = True


class Executor:
    def __init__(self, sim):
        self.sim = sim

    def submit(self, fn, *args, **kwargs):
        return self.sim.submit(fn, *args, **kwargs)

    def shutdown(self, wait=True, cancel_futures=False):
        self.sim.drain()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, Exception):
            self.sim.drain()
        return False


class Loop(asyncio.SelectorEventLoop):
    sim = None

    def _run_once(self):
        sim = self.sim
        if not self._ready and not self._scheduled:
            if sim.pending:
                sim.step()
            if not self._ready:
                raise Hang("the build waits for something that never happens")
        super()._run_once()


_CONFIG = []


def config():
    if not _CONFIG:
        d = tempfile.mkdtemp(prefix="vxcfg", dir=SHM)
        try:
            cwd = os.getcwd()
            vanillaplusjs.runners.init.main(["--folder", d])
            os.chdir(cwd)
            with open(os.path.join(d, "vanillaplusjs.json")) as f:
                _CONFIG.append(json.load(f))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return dict(_CONFIG[0])


class Base:
    """A project folder on disk."""

    def __init__(self, s, kills=False, **cfg):
        self.s = s
        self.dir = tempfile.mkdtemp(prefix="vxorch", dir=SHM)
        s.cleanup.append(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.clock = 1_000_000_000
        self.nbuild = 0
        self.sim = None

        def new_loop():
            loop = Loop()
            loop.sim = self.sim
            loop.set_exception_handler(lambda l, c: None)
            return loop

        s.intercept(asyncio.new_event_loop, new_loop)
        s.intercept(concurrent.futures.ProcessPoolExecutor, lambda *a, **k: Executor(self.sim))
        if kills:
            self.watch_files()
        c = config()
        c["host"] = "example.com"
        c.update(cfg)
        with open(self.p("vanillaplusjs.json"), "w") as f:
            json.dump(c, f)
        os.makedirs(self.p("src/public"))

    def watch_files(self):
        """Every file operation of the build that changes something is a point
        at which it may be killed: before it, and for a file opened for writing
        also after it was emptied."""
        s = self.s

        def active():
            return self.sim is not None and self.sim.kill and not self.sim.over

        def opened(path, mode="r", *a, **k):
            if active() and "r" not in mode:
                self.sim.event()
                f = REAL["open"](path, mode, *a, **k)
                try:
                    self.sim.event()
                except Killed:
                    f.close()
                    raise
                return f
            return REAL["open"](path, mode, *a, **k)

        def wrap(name):
            def w(*a, **k):
                if active():
                    self.sim.event()
                return REAL[name](*a, **k)

            return w

        s.intercept(open, opened)
        for name, f in (("unlink", os.unlink), ("remove", os.remove), ("rmdir", os.rmdir), ("rename", os.rename),
                        ("replace", os.replace)):
            s.intercept(f, wrap(name))

    def p(self, rel):
        return os.path.join(self.dir, rel)

    def write_file(self, rel, text, tick=True):
        os.makedirs(os.path.dirname(self.p(rel)), exist_ok=True)
        with open(self.p(rel), "w", newline="") as f:
            f.write(text)
        if tick:
            self.clock += 1
        os.utime(self.p(rel), (self.clock, self.clock))

    def remove_file(self, rel):
        os.unlink(self.p(rel))

    def run(self, order=True, batch=False, kill=False, dev=False, before=None):
        """Build. Returns (None | exception, Sim)."""
        s = self.s
        self.nbuild += 1
        sim = self.sim = Sim(s, "b%d" % self.nbuild, order, batch, kill)
        self.dev = dev
        sim.before = before
        try:
            vanillaplusjs.runners.build.build(self.dir, dev, False, [])
            err = None
        except Hang:
            s.fail("the build never finishes")
        except Killed as e:
            err = e
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            err = e
        finally:
            asyncio.set_event_loop(None)
            sim.over = True
        return err, sim

    def tree(self, top="out/www"):
        """path -> contents, and the set of folders."""
        files, dirs = {}, set()
        base = self.p(top)
        if os.path.isdir(base):
            for d, dn, fn in os.walk(base):
                dirs.add(os.path.relpath(d, self.dir))
                for f in fn:
                    p = os.path.join(d, f)
                    with open(p, newline="") as fp:
                        files[os.path.relpath(p, self.dir)] = fp.read()
        return files, dirs

    def stored(self):
        out = {}
        for n in ("dependency_graph", "output_graph", "placeholder_graph"):
            p = self.p("out/%s.json" % n)
            if os.path.exists(p):
                with open(p) as f:
                    out[n] = json.load(f)
        return out

    def stored_raw(self):
        out = {}
        for d, dn, fn in os.walk(self.p("out")):
            if os.path.relpath(d, self.dir).startswith("out/www"):
                continue
            for f in fn:
                with open(os.path.join(d, f), newline="") as fp:
                    out[f] = fp.read()
        return out


class Model(Base):
    """Projects of abstract files: the handler for plain files is replaced by one
    that takes dependencies and outputs from the file's contents. It keeps the
    contract of the real handlers in its strictest form: it fails when something
    it depends on is missing, and an output that exists is reused unread."""

    def __init__(self, s, kills=False, constants=None, **cfg):
        if constants:
            cfg["js_constants"] = dict(config()["js_constants"], relpath=self.src(constants))
        super().__init__(s, kills, **cfg)
        self.partials = ()          # files that are parts of others and have no outputs or dependencies of their own
        self.constants = constants  # what is built of this file depends on the mode
        self.dev = False            # mode of the last build
        self.by_config = ()         # files whose outputs depend on the configuration
        self.site = ("example.com", None)   # host, a constant
        if constants:
            s.intercept(jsc.scan_file, self.scan)
            s.intercept(jsc.build_file, self.build)
        self.files = {}         # name -> dict(v, deps, shared)
        self.fail = {}          # (phase, name) -> when
        self.log = []
        s.intercept(cah.scan_file, self.scan)
        s.intercept(cah.build_file, self.build)

    # deps: list of (kind, name), kind "src" | "out" | "ph"
    def put(self, name, deps=(), shared=(), v=None, ph=None):
        old = self.files.get(name)
        if v is None:
            v = 1 if old is None else old["v"] + 1
        self.files[name] = dict(v=v, deps=[list(d) for d in deps], shared=list(shared), ph=ph)
        self.write_file(self.src(name), json.dumps(self.files[name]))

    def configure(self, host, constant, env=None):
        """Changes the configuration; the constant may come from the environment."""
        self.site = (host, constant)
        c = config()
        c["host"] = host
        shared = {}
        if env is not None:
            os.environ["VP_X"] = constant
            self.s.cleanup.append(lambda: os.environ.pop("VP_X", None))
            shared["X"] = "env://VP_X"
        elif constant is not None:
            shared["X"] = constant
        c["js_constants"] = dict(c["js_constants"], shared=shared)
        if self.constants:
            c["js_constants"]["relpath"] = self.src(self.constants)
        with open(self.p("vanillaplusjs.json"), "w") as f:
            json.dump(c, f)

    @staticmethod
    def site_of(context):
        return (context.host, context.js_constants.shared.get("X"))

    def marked(self, name, site):
        return "@%s/%s" % site if name in self.by_config else ""

    def extra(self, name, site):
        """Outputs that are there for some configurations only."""
        return ["h/" + site[0]] if name in self.by_config and site[0] else []

    def touch(self, name):
        f = self.files[name]
        self.put(name, f["deps"], f["shared"], None, f["ph"])

    def drop(self, name):
        del self.files[name]
        self.remove_file(self.src(name))

    @staticmethod
    def src(name):
        return "src/public/%s.txt" % name

    @staticmethod
    def out(name):
        return "out/www/%s.txt" % name

    @staticmethod
    def name(path):
        return os.path.basename(path)[: -len(".txt")]

    def deppath(self, d):
        kind, n = d
        if kind == "sh":
            return self.shared_path(n)
        return self.out(n) if kind == "out" else self.src(n)

    def shared_path(self, x):
        # "s/x": constant output; "s/=c": derived from c; "artifacts/..." alike
        return (x if x.startswith("artifacts/") else "out/www/" + x) + ".txt"

    def outputs(self, data, name, site=(None, None)):
        out = [self.out(name)] + [self.shared_path(x) for x in data["shared"] + self.extra(name, site)]
        if data["ph"]:
            out.append(self.out(data["ph"]))
        return out

    def _data(self, context, name):
        with open(os.path.join(context.folder, self.src(name))) as f:
            t = f.read()
        return None if t == "placeholder" else json.loads(t)

    def scan(self, context, relpath):
        name = self.name(relpath)
        if self.sim.running is not None:
            self.sim.running.kind = "scan"
        self.log.append(("scan", name))
        if self.fail.get(("scan", name)):
            raise Injected()
        data = self._data(context, name)
        if data is None or name in self.partials:
            return ScanFileResult(dependencies=[], produces=[])
        return ScanFileResult(
            dependencies=self.deppaths(context, data["deps"]),
            produces=self.outputs(data, name, self.site_of(context)),
            placeholders={self.src(data["ph"]): "placeholder"} if data["ph"] else None,
        )

    def deppaths(self, context, deps):
        """With the dependencies of the parts."""
        out = []
        for d in deps:
            out.append(self.deppath(d))
            if d[1] in self.partials:
                out += self.deppaths(context, self._data(context, d[1])["deps"])
        return list(dict.fromkeys(out))

    def value(self, context, name):
        """What a build of the file makes of it: itself and everything below."""
        data = self._data(context, name)
        subs = []
        for kind, d in data["deps"]:
            if kind == "src":
                subs.append(self.value(context, d))
            else:
                with open(os.path.join(context.folder, self.shared_path(d) if kind == "sh" else self.out(d))) as f:
                    subs.append(f.read())
        return "%s%d%s%s(%s)" % (name, data["v"], self.mode(name, context.dev), self.marked(name, self.site_of(context)), ",".join(subs))

    def mode(self, name, dev):
        return ("dev" if dev else "prod") if name == self.constants else ""

    def shared_value(self, context, x):
        if "=" in x:
            n = x[x.index("=") + 1:]
            return "%s:%d" % (x, self._data(context, n)["v"])
        return x

    @staticmethod
    def reads(full):
        with open(full) as f:
            return f.read()

    def build(self, context, relpath):
        name = self.name(relpath)
        if self.sim.running is not None:
            self.sim.running.kind = "build"
        self.log.append(("build", name))
        when = self.fail.get(("build", name))
        if when == "before":
            raise Injected()
        data = self._data(context, name)
        if data is None or name in self.partials:
            return BuildFileResult(children=[], produced=[], reused=[])
        produced, reused = [], []
        todo = [(self.out(name), self.value(context, name))]
        if data["ph"]:
            todo.append((self.out(data["ph"]), "%s%d" % (data["ph"], data["v"])))
        for x in data["shared"] + self.extra(name, self.site_of(context)):
            todo.append((self.shared_path(x), self.shared_value(context, x)))
        for i, (path, text) in enumerate(todo):
            full = os.path.join(context.folder, path)
            if os.path.exists(full) and (not path.startswith("artifacts/") or self.reads(full) == text):
                reused.append(path)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                with open(full, "w") as f:
                    f.write(text)
                produced.append(path)
            if when == "mid" and i == 0:
                raise Injected()
            self.sim.event()
        if when == "after":
            raise Injected()
        return BuildFileResult(children=self.deppaths(context, data["deps"]), produced=produced, reused=reused)

    # ---------------------------------------------------------------- oracle
    def val(self, name):
        f = self.files[name]
        subs = []
        for kind, d in f["deps"]:
            subs.append(self.phval(d) if kind == "ph" else self.shval(d) if kind == "sh" else self.val(d))
        return "%s%d%s%s(%s)" % (name, f["v"], self.mode(name, self.dev), self.marked(name, self.site), ",".join(subs))

    def shval(self, x):
        return "%s:%d" % (x, self.files[x[x.index("=") + 1:]]["v"]) if "=" in x else x

    def phval(self, p):
        g = self.generator(p)
        return "%s%d" % (p, self.files[g]["v"])

    def generator(self, p):
        return next(n for n in sorted(self.files) if self.files[n]["ph"] == p)

    def expected(self):
        out = {}
        for n, f in self.files.items():
            if n in self.partials:
                continue
            out[self.out(n)] = self.val(n)
            if f["ph"]:
                out[self.out(f["ph"])] = self.phval(f["ph"])
            for x in f["shared"] + self.extra(n, self.site):
                out[self.shared_path(x)] = self.shval(x)
        return out

    def needs(self, name):
        """Source files whose build must precede (direct)."""
        out = []
        for kind, d in self.files[name]["deps"]:
            if kind != "sh":
                out.append(self.generator(d) if kind == "ph" else d)
        return out

    def reaches(self, a, b):
        seen, todo = set(), list(self.needs(a))
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(self.needs(x))
        return False

    def cyclic(self):
        return any(self.reaches(n, n) for n in self.files)

    def valid(self):
        """No file depends on something missing."""
        for n, f in self.files.items():
            for kind, d in f["deps"]:
                if kind == "ph":
                    if not any(g["ph"] == d for g in self.files.values()):
                        return False
                elif kind == "sh":
                    if not any(d in g["shared"] for g in self.files.values()):
                        return False
                elif d not in self.files:
                    return False
            for x in f["shared"]:
                if "=" in x and x[x.index("=") + 1:] not in self.files:
                    return False
        return True

    # ---------------------------------------------------------------- checks
    def check_tree(self, orphans=False):
        s = self.s
        want = self.expected()
        got, gdirs = self.tree("out/www")
        art, adirs = self.tree("artifacts")
        got.update(art)
        for p in sorted(set(want) | set(got)):
            if p not in got:
                s.fail("missing output %s" % p)
            if p not in want and orphans and p.startswith("artifacts/"):
                continue
            if p not in want:
                s.fail("left over output %s" % p)
            s.check(got[p] == want[p], "outdated output %s" % p)
        if not orphans:
            for d in sorted(gdirs | adirs - {"artifacts"}):
                if d == "out/www":
                    continue
                s.check(any(p.startswith(d + "/") for p in got), "left over folder %s" % d)

    def check_order(self, sim):
        s = self.s
        built = [f for k, f in sim.done if k == "build"]
        names = [self.name(f) for f in built]
        s.check(len(set(names)) == len(names), "a file is built twice")
        for n in names:
            if n not in self.files:
                continue
            t, before, inflight = sim.snap[self.src(n)][-1]
            done = set(self.name(f) for f in before)
            for d in self.needs(n):
                if d in names:
                    s.check(d in done, "%s is built before %s, which it depends on, is rebuilt" % (n, d))
                    s.reach("dependency first")

    def check_overlap(self, sim, pre):
        """pre: outputs that were there and up to date before the build"""
        s = self.s
        for path, lst in sim.snap.items():
            n = self.name(path)
            t, before, inflight = lst[-1]
            if t.kind != "build" or n not in self.files:
                continue
            mine = set(self.outputs(self.files[n], n))
            ready = set()
            for f in before:
                m = self.name(f)
                if m in self.files:
                    ready.update(self.outputs(self.files[m], m))
            for o in inflight:
                m = self.name(o.file)
                if o.kind == "build" and m in self.files:
                    both = mine & set(self.outputs(self.files[m], m))
                    s.check(both <= (ready | pre), "%s and %s are built at the same time and both write %s"
                            % (n, m, sorted(both - ready - pre)))
            if mine & ready:
                s.reach("shared output")


# ------------------------------------------------------------ project families
KINDS = (None, "src", "out")


def edges(s, tag, name, targets, kinds=KINDS):
    """Symbolic choice of the dependencies of one file."""
    out = []
    for t in targets:
        k = s.choice("%s.%s>%s" % (tag, name, t), kinds)
        if k:
            out.append((k, t))
    return out


def kill_deps_on(m, gone):
    for n, f in m.files.items():
        for kind, d in f["deps"]:
            if kind != "ph" and d == gone:
                return True
    return False


def ok_build(s, m, what, **kw):
    err, sim = m.run(**kw)
    s.check(err is None, "%s fails: %s" % (what, type(err).__name__ if err else ""))
    return sim
