"""Imports /repo/src/skspatial so that its modules see the symbolic numpy/math/builtins.

The sources are read from the working tree and executed unmodified; only the
names `numpy`, `numpy.linalg`, `math` and a few builtins resolve to stand-ins.
"""
from __future__ import annotations

import builtins
import importlib
import importlib.abc
import importlib.util
import os
import sys

npshim = None  # set by load_symbolic; the concrete replay never loads it
SRC = os.environ.get("SKS_SRC", "/repo/src")


def _sub(name):
    if name == "numpy":
        return npshim.NP
    if name == "numpy.linalg":
        return npshim.LINALG
    if name == "math":
        return npshim.MATH
    return None


def _importer(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == "numpy":
            return npshim.NP
        if name == "math":
            return npshim.MATH
        if name == "numpy.linalg":
            return npshim.LINALG if fromlist else npshim.NP
        if name.startswith("numpy."):
            m = builtins.__import__(name, globals, locals, fromlist, level)
            return m if fromlist else npshim.NP
    return builtins.__import__(name, globals, locals, fromlist, level)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            code = compile(f.read(), self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = npshim.make_builtins(_importer)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "skspatial" and not fullname.startswith("skspatial."):
            return None
        base = os.path.join(SRC, *fullname.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            if not os.path.exists(p):
                return None
            return importlib.util.spec_from_file_location(
                fullname, p, loader=_Loader(p), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(p))
        return None


MODULES = []


def load_symbolic():
    """Import every skspatial module under the symbolic stand-ins."""
    global npshim
    from . import npshim as shim

    npshim = shim
    npshim.build()
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import mpl_toolkits.mplot3d  # noqa: F401
    import scipy.optimize  # noqa: F401

    for m in list(sys.modules):
        if m == "skspatial" or m.startswith("skspatial."):
            raise RuntimeError("skspatial already imported")
    sys.meta_path.insert(0, _Finder())
    _load_all()


def load_concrete():
    """Import the real package with the real numpy."""
    sys.path.insert(0, SRC)
    _load_all()


def _load_all():
    importlib.import_module("skspatial")
    root = os.path.join(SRC, "skspatial")
    names = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), SRC)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                names.append(rel)
    for n in names:
        importlib.import_module(n)
    MODULES[:] = names
    import skspatial

    assert skspatial.__file__.startswith(SRC), skspatial.__file__
