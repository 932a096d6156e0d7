"""A project with external files, a server and a process pool (for O10, O03)."""
import base64
import concurrent.futures
import hashlib

import requests
import secrets

from harness import memfs
import vanillaplusjs.build.cold_incremental_rebuild as cold
from vanillaplusjs.build.build_context import BuildContext, ExternalFile

P = memfs.PROJECT + "/"
FILES = ["src/public/js/lib.js", "vendor/x.css", "lib.bin"]
CONTENT = {"A": b"a" * 5000, "B": b"b", "wrong": b"w", "": b""}
ANSWERS = ["right", "wrong", "status", "refused", "broken"]


class Refused(Exception):
    pass


def integrity(c, kind="sha384"):
    return kind + "-" + base64.b64encode(getattr(hashlib, kind)(CONTENT[c]).digest()).decode("ascii")


class Response:
    def __init__(self, content, status, broken):
        self.content, self.status, self.broken = content, status, broken
        self.status_code = status
        self.ok = status == 200

    def raise_for_status(self):
        if self.status != 200:
            raise Refused("status %d" % self.status)

    def iter_content(self, chunk_size=1, **k):
        for i in range(0, len(self.content), chunk_size):
            yield self.content[i:i + chunk_size]
        if self.broken:
            raise Refused("connection lost")

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Pool:
    """Runs the calls when asked to finish, in an order chosen by the scenario."""

    def __init__(self, s, tag):
        self.s, self.tag, self.todo, self.n = s, tag, [], 0

    def submit(self, fn, *a, **k):
        f = concurrent.futures.Future()
        self.todo.append((f, fn, a, k))
        return f

    def shutdown(self, wait=True, cancel_futures=False):
        while self.todo:
            i = 0
            if len(self.todo) > 1 and self.tag:
                i = self.s.choice("%s.order%d" % (self.tag, self.n), list(range(len(self.todo))))
                self.n += 1
            f, fn, a, k = self.todo.pop(i)
            try:
                r = fn(*a, **k)
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
                f.set_exception(e)
            else:
                f.set_result(r)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


class World:
    """The disk, the server and what is declared: relpath -> content name."""

    def __init__(self, s, order=True):
        self.s = s
        self.fs = memfs.FS(s, {"src/public/own.js": "own", "src/public/js/own2.js": "own", "vanillaplusjs.json": "{}"})
        self.own = [P + "src/public/own.js", P + "src/public/js/own2.js", P + "vanillaplusjs.json"]
        self.declared = {}
        self.kinds = {}
        self.answers = {}
        self.asked = []
        self.n = 0
        self.order = order
        tok = []

        def token(*a):
            tok.append(1)
            return "tok%d" % len(tok)

        s.intercept(secrets.token_urlsafe, token)
        s.intercept(requests.get, self.get)
        s.intercept(concurrent.futures.ProcessPoolExecutor, lambda *a, **k: Pool(s, "pool%d" % self.n if self.order else None))

    def get(self, url, *a, **k):
        rel = url[len("https://cdn/"):]
        self.asked.append(rel)
        ans = self.answers.get(rel, "right")
        if ans == "refused":
            raise Refused("no connection")
        if ans == "status":
            return Response(b"not found", 404, False)
        data = CONTENT["wrong" if ans == "wrong" else self.declared[rel]]
        return Response(data[:len(data) // 2] if ans == "broken" else data, 200, ans == "broken")

    def context(self):
        ctx = BuildContext(memfs.PROJECT, dev=False, symlinks=False)
        ctx.external_files = {f: ExternalFile(relpath=f, url="https://cdn/" + f, integrity=integrity(c, self.kinds.get(f, "sha384")))
                              for f, c in self.declared.items()}
        return ctx

    def put(self, rel, c):
        """Changed by the user (new signature)."""
        if P + rel in self.fs.files:
            self.fs.unlink(P + rel)
        self.fs.put(P + rel, CONTENT[c])

    def has(self, rel):
        d = self.fs.get(rel)
        return None if d is None else next((k for k, v in CONTENT.items() if v == d), "other")

    def check(self):
        """Runs the external file check. Returns the exception or None."""
        self.n += 1
        del self.asked[:]
        co = cold.check_external_files(self.context())
        try:
            co.send(None)
        except StopIteration:
            return None
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            return e
        self.s.fail("the check waits for something")
