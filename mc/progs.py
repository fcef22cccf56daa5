"""Building dataflow modules from generated source (so that inspect.getsource works), and reference evaluation."""
from __future__ import annotations
import itertools, linecache, sys, types

_counter = itertools.count()


def make_module(src, name=None, env=None, register=True):
    """A real module object whose functions have retrievable source."""
    n = next(_counter)
    name = name or "vmod_%d" % n
    fname = "/vmod/%s_%d.py" % (name, n)
    mod = types.ModuleType(name)
    mod.__file__ = fname
    if env:
        mod.__dict__.update(env)
    if register:
        sys.modules[name] = mod
    linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
    exec(compile(src, fname, "exec", dont_inherit=True), mod.__dict__)
    return mod


def drop_module(mod):
    sys.modules.pop(mod.__name__, None)
    linecache.cache.pop(getattr(mod, "__file__", None), None)


class Log(list):
    """Call log shared with generated functions (list of names)."""
    pass


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    hi = len(xs) if hi is None else hi
    for r in range(lo, hi + 1):
        yield from itertools.combinations(xs, r)
