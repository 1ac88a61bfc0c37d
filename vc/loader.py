"""Instrument and load every module of /repo/rxls from the current working tree (fresh each time)."""
from __future__ import annotations
import ast, hashlib, importlib.abc, importlib.util, os, sys, types
from . import transform, runtime

REPO = os.environ.get("VC_REPO", "/repo")
SRC = {}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != "rxls" and not name.startswith("rxls."):
            return None
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            s = importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[p])
            return s
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_file_location(name, p + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        f = m.__spec__.origin
        src = open(f, encoding="utf-8").read()
        SRC[f] = hashlib.sha256(src.encode()).hexdigest()
        tree = transform.instrument(src, f, m.__name__)
        m.__dict__.update(runtime.HOOKS)
        exec(compile(tree, f, "exec"), m.__dict__)


def load():
    """import the instrumented package (as `rxls`)"""
    for k in [k for k in sys.modules if k == "rxls" or k.startswith("rxls.")]:
        del sys.modules[k]
    if not any(isinstance(x, Finder) for x in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    import rxls   # noqa: F401
    return sys.modules
