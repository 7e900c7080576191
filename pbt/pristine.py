"""Fresh copies of the library, as a newly started interpreter would have them.

with pristine() as lib: ... lib.Bezier.Bezier(...) ... runs against modules that have never
been called before: a value that some earlier call left behind in a module, a class or a
default argument is not there. The source is compiled once per process.
"""
import contextlib
import importlib
import importlib.machinery
import importlib.util
import os
import sys

from . import core

_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        if name not in _code:
            _code[name] = super().get_code(name)
        return _code[name]


class _Finder:
    active = False

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if not cls.active or not (name == "PathLib" or name.startswith("PathLib.")):
            return None
        base = os.path.join(core.REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(name, init, loader=_Loader(name, init), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(name, base + ".py"))
        return None


def _mine():
    return [k for k in sys.modules if k == "PathLib" or k.startswith("PathLib.")]


class Lib:
    """lib.Bezier is the module PathLib.Bezier of this copy, imported when first asked for."""

    def __getattr__(self, name):
        return importlib.import_module("PathLib." + name)


@contextlib.contextmanager
def pristine():
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    old = {k: sys.modules.pop(k) for k in _mine()}
    was, _Finder.active = _Finder.active, True
    try:
        yield Lib()
    finally:
        _Finder.active = was
        for k in _mine():
            del sys.modules[k]
        sys.modules.update(old)


def current():
    """The library as everything else in this process uses it."""
    return Lib()
