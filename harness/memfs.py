"""A folder tree held in memory, standing in for the disk (also in replays).
Paths and contents may be symbolic. Everything under ROOT is here; relative
paths lead to an empty working folder, so code that depends on where it was
started does not see the project."""
import builtins
import io
import os
import pathlib
import shutil
import stat as st_mod
import errno

import fasteners

ROOT = "/vfs"
PROJECT = "/vfs/project"
CWD = "/vfs/elsewhere"

REAL = dict(
    open=builtins.open, exists=os.path.exists, lexists=os.path.lexists, isfile=os.path.isfile, isdir=os.path.isdir,
    unlink=os.unlink, remove=os.remove, rename=os.rename, replace=os.replace, makedirs=os.makedirs, mkdir=os.mkdir,
    rmdir=os.rmdir, scandir=os.scandir, listdir=os.listdir, stat=os.stat, lstat=os.lstat, symlink=os.symlink,
    rmtree=shutil.rmtree, copy=shutil.copy, copyfile=shutil.copyfile, lock=fasteners.InterProcessLock,
    getsize=os.path.getsize, islink=os.path.islink, copy2=shutil.copy2, readlink=os.readlink, getcwd=os.getcwd,
    abspath=os.path.abspath, walk=os.walk, Path=pathlib.Path,
)


class Stat:
    def __init__(self, size, mtime, ino, isdir):
        self.st_size, self.st_mtime, self.st_ino = size, mtime, ino
        self.st_mode = (st_mod.S_IFDIR if isdir else st_mod.S_IFREG) | 0o644


class Entry:
    def __init__(self, fs, folder, name):
        self.fs, self.name, self.path = fs, name, folder + "/" + name

    def is_dir(self, follow_symlinks=True):
        return self.fs.isdir(self.path)

    def is_file(self, follow_symlinks=True):
        return self.fs.isfile(self.path)

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self.fs.stat(self.path)


class Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        self.it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Lock:
    def __init__(self, path, *a, **k):
        self.path = path

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    def __enter__(self):
        return True

    def __exit__(self, *a):
        return False


class TextFile:
    """An open text file."""

    encoding = "utf-8"

    def __init__(self, fs, path, mode, text, newline):
        self.fs, self.path, self.mode, self.newline = fs, path, mode, newline
        self.closed = False
        self.pos = 0
        self.text = text
        self.buf = ""
        self.name = path

    def readable(self):
        return "r" in self.mode

    def writable(self):
        return "r" not in self.mode

    def seekable(self):
        return False

    def read(self, n=-1):
        if n is None or n < 0:
            r = self.text[self.pos:]
        else:
            r = self.text[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        i = self.text.find("\n", self.pos)
        end = len(self.text) if i < 0 else i + 1
        r = self.text[self.pos:end]
        self.pos = end
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def write(self, t):
        self.buf = self.buf + t
        return len(t)

    def flush(self):
        self._store()

    def _store(self):
        if self.writable():
            self.fs.put(self.path, self.buf)

    def close(self):
        if not self.closed:
            self.closed = True
            self._store()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ByteFile:
    def __init__(self, fs, path, mode, data):
        self.fs, self.path, self.mode = fs, path, mode
        self.data = data
        self.closed = False
        self.parts = []
        self.given = False
        self.pos = 0

    def read(self, n=-1):
        d = self.data
        if isinstance(d, (bytes, bytearray)):
            r = d[self.pos:] if n is None or n < 0 else d[self.pos:self.pos + n]
            self.pos += len(r)
            return r
        # symbolic contents are handed out at once (any n is large enough here)
        if self.given:
            return b""
        self.given = True
        return d

    def write(self, b):
        self.parts.append(b)
        return len(b)

    def close(self):
        if not self.closed:
            self.closed = True
            if "r" not in self.mode:
                if all(isinstance(p, (bytes, bytearray)) for p in self.parts):
                    self.fs.put(self.path, b"".join(self.parts))
                else:
                    t = b""
                    for p in self.parts:
                        t = t + p
                    # bytes that are known to be text are kept as text
                    self.fs.put(self.path, t.text if hasattr(t, "text") else t)

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FS:
    def __init__(self, s, files=(), folders=()):
        self.s = s
        self.files = {}
        self.dirs = set()
        self.sig = {}
        self.clock = 1000
        self.reads = []
        self.writes = []
        self.removed = []
        self.hook = None
        for p, t in dict(files).items():
            self.put(PROJECT + "/" + p, t)
        for p in folders:
            self.mkdirs(PROJECT + "/" + p)
        self.reads, self.writes = [], []
        s.intercept(builtins.open, self.open)
        for n in ("exists", "isfile", "isdir", "getsize", "islink"):
            s.intercept(getattr(os.path, n), getattr(self, n))
        if os.path.lexists is not os.path.exists:
            s.intercept(os.path.lexists, self.exists)
        s.intercept(os.path.abspath, self.abspath)
        for n in ("rename", "replace", "mkdir", "rmdir", "scandir", "listdir", "stat", "symlink", "readlink", "getcwd", "walk"):
            s.intercept(getattr(os, n), getattr(self, n))
        s.intercept(os.unlink, self.unlink)
        s.intercept(os.remove, self.unlink)
        s.intercept(os.lstat, self.stat)
        s.intercept(os.makedirs, self.makedirs)
        s.intercept(shutil.rmtree, self.rmtree)
        s.intercept(shutil.copy, self.copy)
        s.intercept(shutil.copy2, self.copy)
        s.intercept(shutil.copyfile, self.copy)
        s.intercept(fasteners.InterProcessLock, Lock)
        s.intercept(pathlib.Path, self.Path, repo_only=True)

    # -------------------------------------------------------------- paths
    def key(self, path):
        """Absolute, normalised; None when the path is not in here."""
        if isinstance(path, int):
            return None
        if isinstance(path, pathlib.PurePath):
            path = str(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = CWD + "/" + path
        path = os.path.normpath(path)
        if path == ROOT or path.startswith(ROOT + "/"):
            return path
        return None

    def abspath(self, path):
        if isinstance(path, (int, bytes)):
            return REAL["abspath"](path)
        return os.path.normpath(os.path.join(CWD, path))

    def getcwd(self):
        return CWD

    def rel(self, key):
        return key[len(PROJECT) + 1:] if key.startswith(PROJECT + "/") else key

    # -------------------------------------------------------------- state
    def change(self):
        """Called before anything on the disk changes."""
        if self.hook is not None:
            self.hook()

    def put(self, key, content):
        self.change()
        if key not in self.sig:
            self.clock += 1
            self.sig[key] = self.clock
        self.files[key] = content
        self.mkdirs(os.path.dirname(key))
        self.writes.append(self.rel(key))

    def mkdirs(self, d):
        while len(d) > 1 and d not in self.dirs:
            self.dirs.add(d)
            d = os.path.dirname(d)

    def get(self, rel):
        """Contents by path relative to the project, or None."""
        k = os.path.normpath(PROJECT + "/" + rel)
        return self.files[k] if k in self.files else None

    def text(self, rel):
        d = self.get(rel)
        return d if d is None else self.astext(d)

    @staticmethod
    def astext(d):
        return d if hasattr(d, "encode") else d.decode("utf-8")

    def tree(self, top="out/www"):
        pre = PROJECT + "/" + top + "/"
        return {k[len(PROJECT) + 1:]: v for k, v in self.files.items() if k.startswith(pre)}

    # --------------------------------------------------------- operations
    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        key = self.key(path)
        if key is None:
            if "r" not in mode or "+" in mode:
                self.outside(path)
            return REAL["open"](path, mode, buffering, encoding, errors, newline, *a, **k)
        if "r" in mode:
            if key in self.dirs:
                raise IsADirectoryError(errno.EISDIR, "Is a directory", key)
            if key not in self.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
            self.reads.append(self.rel(key))
            d = self.files[key]
            if "b" in mode:
                return ByteFile(self, key, mode, d.encode("utf-8") if hasattr(d, "encode") else d)
            t = self.astext(d)
            if newline is None:
                t = t.replace("\r\n", "\n").replace("\r", "\n")
            return TextFile(self, key, mode, t, newline)
        if "x" in mode and key in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", key)
        if key in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", key)
        if os.path.dirname(key) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        if "b" in mode:
            self.put(key, b"")
            return ByteFile(self, key, mode, b"")
        f = TextFile(self, key, mode, "", newline)
        if "a" in mode and key in self.files:
            f.buf = self.astext(self.files[key])
        else:
            self.put(key, "")
        return f

    def exists(self, path):
        key = self.key(path)
        if key is None:
            return REAL["exists"](path)
        return key in self.files or key in self.dirs

    def isfile(self, path):
        key = self.key(path)
        return REAL["isfile"](path) if key is None else key in self.files

    def isdir(self, path):
        key = self.key(path)
        return REAL["isdir"](path) if key is None else key in self.dirs

    def islink(self, path):
        return REAL["islink"](path) if self.key(path) is None else False

    def getsize(self, path):
        return self.stat(path).st_size

    def stat(self, path, *a, **k):
        key = self.key(path)
        if key is None:
            return REAL["stat"](path, *a, **k)
        if key in self.dirs:
            return Stat(4096, 1.0, 1, True)
        if key not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        d = self.files[key]
        return Stat(d.nbytes if hasattr(d, "nbytes") else len(d), float(self.sig[key]), self.sig[key], False)

    def outside(self, path):
        """Nothing outside of the tree is ever changed, whatever the code asks for."""
        self.s.fail("changes %r, which is outside of the project" % (path,))

    def unlink(self, path, *a, **k):
        key = self.key(path)
        if key is None:
            self.outside(path)
        if key in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", key)
        if key not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        self.change()
        del self.files[key]
        del self.sig[key]
        self.removed.append(self.rel(key))

    def _move(self, a, b, name):
        ka, kb = self.key(a), self.key(b)
        if ka is None or kb is None:
            self.outside(a if ka is None else b)
        if ka not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", ka)
        if os.path.dirname(kb) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", kb)
        self.change()
        d, sg = self.files[ka], self.sig[ka]
        del self.files[ka]
        del self.sig[ka]
        self.files[kb] = d
        self.sig[kb] = sg
        self.writes.append(self.rel(kb))
        self.removed.append(self.rel(ka))

    def rename(self, a, b, **k):
        self._move(a, b, "rename")

    def replace(self, a, b, **k):
        self._move(a, b, "replace")

    def mkdir(self, path, *a, **k):
        key = self.key(path)
        if key is None:
            self.outside(path)
        if key in self.dirs or key in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", key)
        if os.path.dirname(key) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        self.dirs.add(key)

    def makedirs(self, path, mode=0o777, exist_ok=False):
        key = self.key(path)
        if key is None:
            self.outside(path)
        if key in self.files or (key in self.dirs and not exist_ok):
            raise FileExistsError(errno.EEXIST, "File exists", key)
        d = key
        while len(d) > 1:
            if d in self.files:
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", key)
            d = os.path.dirname(d)
        self.mkdirs(key)

    def children(self, key):
        pre = key + "/"
        names = []
        for k in list(self.files) + sorted(self.dirs):
            if k.startswith(pre) and len(k) > len(pre):
                n = k[len(pre):].split("/")[0]
                if n not in names:
                    names.append(n)
        return names

    def rmdir(self, path, *a, **k):
        key = self.key(path)
        if key is None:
            self.outside(path)
        if key not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        if self.children(key):
            raise OSError(errno.ENOTEMPTY, "Directory not empty", key)
        self.dirs.discard(key)

    def rmtree(self, path, ignore_errors=False, *a, **k):
        key = self.key(path)
        if key is None:
            self.outside(path)
        if key not in self.dirs:
            if ignore_errors:
                return
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        for f in list(self.files):
            if f.startswith(key + "/"):
                del self.files[f]
                del self.sig[f]
                self.removed.append(self.rel(f))
        self.dirs = set(d for d in self.dirs if d != key and not d.startswith(key + "/"))

    def scandir(self, path="."):
        key = self.key(path)
        if key is None:
            return REAL["scandir"](path)
        if key not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        return Scan([Entry(self, key, n) for n in self.children(key)])

    def listdir(self, path="."):
        key = self.key(path)
        if key is None:
            return REAL["listdir"](path)
        if key not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", key)
        return self.children(key)

    def walk(self, top, *a, **k):
        key = self.key(top)
        if key is None:
            yield from REAL["walk"](top, *a, **k)
            return
        todo = [key]
        while todo:
            d = todo.pop(0)
            if d not in self.dirs:
                continue
            names = self.children(d)
            dn = [n for n in names if d + "/" + n in self.dirs]
            yield d, dn, [n for n in names if d + "/" + n in self.files]
            todo.extend(d + "/" + n for n in dn)

    def copy(self, a, b, **k):
        ka, kb = self.key(a), self.key(b)
        if kb is None:
            self.outside(b)
        if kb in self.dirs:
            kb = kb + "/" + os.path.basename(ka)
        if ka not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", ka)
        if os.path.dirname(kb) not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", kb)
        self.reads.append(self.rel(ka))
        self.put(kb, self.files[ka])
        return b

    def symlink(self, a, b, *x, **k):
        """Links are followed when made (the target never changes in one call)."""
        kb = self.key(b)
        if kb is None:
            self.outside(b)
        if kb in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", kb)
        self.copy(a, b)

    def readlink(self, p, *a, **k):
        if self.key(p) is None:
            return REAL["readlink"](p)
        raise OSError(errno.EINVAL, "Invalid argument", p)

    def Path(self, *parts):
        if len(parts) == 1 and not isinstance(parts[0], pathlib.PurePath) and self.key(parts[0]) is not None:
            return FPath(self, parts[0])
        return REAL["Path"](*parts)


class FPath:
    def __init__(self, fs, path):
        self.fs, self.path = fs, path

    def touch(self, *a, **k):
        key = self.fs.key(self.path)
        if key not in self.fs.files:
            with self.fs.open(self.path, "w"):
                pass

    def exists(self):
        return self.fs.exists(self.path)

    def unlink(self, missing_ok=False):
        try:
            self.fs.unlink(self.path)
        except FileNotFoundError:
            if not missing_ok:
                raise

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents:
            self.fs.makedirs(self.path, exist_ok=exist_ok)
        else:
            self.fs.mkdir(self.path)
