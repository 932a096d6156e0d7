"""posixpath / urllib functions on symbolic strings: instrumented copies of the
standard library's own pure-Python source."""
import os
import posixpath
import urllib.parse
import inspect
from . import rewrite, rt


def _fspath(p):
    return p


def install():
    src = inspect.getsource(posixpath)
    # the C accelerated normpath has a pure-Python twin in the same file
    src = src.replace("from posix import _path_normpath", "raise ImportError")
    src = src.replace("os.fspath", "_fspath")
    code, pure = rewrite.instrument(src, "<symx posixpath>")
    ns = {"__name__": "symx_posixpath", rewrite.RT: rt, "_fspath": _fspath}
    exec(code, ns)
    ns["_fspath"] = _fspath
    import genericpath

    class _gp:
        @staticmethod
        def _check_arg_types(*a):
            for x in a:
                if not isinstance(x, (str, rt.Sym)):
                    raise TypeError("join() argument must be str")

    for k in ("genericpath",):
        ns[k] = _gp

    def splitext(p):
        sep = "/"
        dot = "."
        return ns["_splitext_sx"](p)

    gsrc = inspect.getsource(genericpath).replace("os.fspath", "_fspath")
    gcode, _ = rewrite.instrument(gsrc, "<symx genericpath>")
    gns = {"__name__": "symx_genericpath", rewrite.RT: rt, "_fspath": _fspath}
    exec(gcode, gns)
    ns["_splitext_sx"] = lambda p: gns["_splitext"](p, "/", None, ".")
    cns = gns
    for name in ("join", "normpath", "dirname", "basename", "split", "isabs", "relpath", "abspath", "commonpath"):
        rt.PYPATHS[getattr(posixpath, name)] = ns[name]
    rt.PYPATHS[posixpath.splitext] = splitext
    rt.PYPATHS[posixpath.commonprefix] = cns["commonprefix"]
    ns["commonprefix"] = cns["commonprefix"]
    # C function: posixpath.normpath may be a builtin
    rt.NORMPATH = posixpath.normpath
    rt.PY_NORMPATH = ns["normpath"]
    rt.URLENCODE = urllib.parse.urlencode
    import functools

    usrc = inspect.getsource(urllib.parse).replace("@functools.lru_cache(typed=True)\n", "").replace("@functools.lru_cache\n", "")
    ucode, _ = rewrite.instrument(usrc, "<symx urllib.parse>")
    uns = {"__name__": "symx_urllib_parse", rewrite.RT: rt}
    exec(ucode, uns)
    for name in ("urljoin", "urlsplit", "urlparse", "urlunsplit", "urlunparse", "urldefrag"):
        rt.PYPATHS[getattr(urllib.parse, name)] = uns[name]
