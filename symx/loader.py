"""Import hook: modules of the repository (and the harnesses) are read from
their source files now and instrumented before execution."""
import importlib.abc
import importlib.machinery
import os
import sys
from . import rewrite, rt

REPO = os.environ.get("VERIF_REPO", "/repo")


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        if module.__name__.endswith("derived_core_properties"):
            # 1500 lines of data: plain execution
            code = compile(src, self.path, "exec")
        else:
            code, pure = rewrite.instrument(src, self.path)
            for c in rewrite.code_objects(code):
                if (c.co_name, c.co_firstlineno) in pure:
                    rt.PURE_CODES.add(c)
                # decorated functions report the decorator's line
            module.__dict__[rewrite.RT] = rt
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> directory

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        p = os.path.join(root, *fullname.split("."))
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [p]
            if os.path.exists(init):
                spec = importlib.machinery.ModuleSpec(
                    fullname, Loader(init, True), origin=init, is_package=True
                )
                spec.submodule_search_locations = [p]
            return spec
        f = p + ".py"
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(fullname, Loader(f, False), origin=f)
        return None


def install(extra=None):
    roots = {"vanillaplusjs": REPO}
    roots.update(extra or {})
    sys.meta_path.insert(0, Finder(roots))
