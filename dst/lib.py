"""Loads the code under test from the repository's working tree.

Every simulated run gets freshly executed modules (no module-level state survives from
one run to the next), from source compiled once per worker process.  While the package
is imported for the numeric simulators, the process-spawning seam answers "no such
program", so importing never runs real processes.
"""
import importlib
import importlib.abc
import importlib.machinery
import os
import re
import subprocess
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "kalmankit")

_code = {}
OPTIMIZE = [0]        # python -O (1) and -OO (2)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        key = (self.path, OPTIMIZE[0])
        code = _code.get(key)
        if code is None:
            with open(self.path, "rb") as fh:
                src = fh.read()
            code = _code[key] = compile(src, self.path, "exec", dont_inherit=True, optimize=OPTIMIZE[0])
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "kalmankit" and not name.startswith("kalmankit."):
            return None
        rel = name.split(".")
        base = os.path.join(SRC, *rel)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(name, _Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            p = base + ".py"
            spec = importlib.machinery.ModuleSpec(name, _Loader(p), origin=p)
        else:
            return None
        spec.has_location = True
        spec.cached = None
        return spec


_finder = _Finder()


def purge():
    for k in [k for k in sys.modules if k == "kalmankit" or k.startswith("kalmankit.")]:
        del sys.modules[k]


class _NoSpawn:
    def __init__(self, *a, **k):
        raise FileNotFoundError(2, "No such file or directory (simulated)")


def fresh():
    """Freshly executed kalmankit package."""
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    purge()
    real = subprocess.Popen
    subprocess.Popen = _NoSpawn
    try:
        return importlib.import_module("kalmankit")
    finally:
        subprocess.Popen = real


_all = (0, [])


def codes():
    """Every code object of the package executed so far."""
    global _all
    if _all[0] != len(_code):
        out, todo = [], list(_code.values())
        while todo:
            c = todo.pop()
            out.append(c)
            todo.extend(x for x in c.co_consts if isinstance(x, types.CodeType))
        _all = (len(_code), out)
    return _all[1]


_names = None


def setting_names():
    """Names in the package that look like environment variables of its own (a dictionary for environment faults)."""
    global _names
    if _names is None:
        found, todo = set(), []
        for base, dirs, files in os.walk(PKG):
            for f in files:
                if f.endswith(".py"):
                    with open(os.path.join(base, f), "rb") as fh:
                        try:
                            todo.append(compile(fh.read(), f, "exec", dont_inherit=True))
                        except SyntaxError:
                            pass
        while todo:
            for c in todo.pop().co_consts:
                if isinstance(c, types.CodeType):
                    todo.append(c)
                elif isinstance(c, (tuple, frozenset)):
                    found.update(x for x in c if isinstance(x, str))
                elif isinstance(c, str):
                    found.add(c)
        known = ("GIT_", "LC_", "PYTHON", "LD_", "OPENBLAS", "OMP_", "MKL_")
        _names = sorted(x for x in found if re.fullmatch(r"[A-Z][A-Z0-9]*(_[A-Z0-9]+)+", x) and not x.startswith(known))
    return _names
