"""C32 Any kind of sequence and number will do."""
import copy
import re
from hypothesis import strategies as st
from ..core import Clause, require, fail
from .. import gen, geom
from ..pristine import current
from . import c31
from .c06 import same

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def plain(r):
    """Texts taken apart, so that 1 and 1.0 are the same."""
    if isinstance(r, str):
        return ["text", NUMBER.sub("#", r)] + [float(x) for x in NUMBER.findall(r)]
    if isinstance(r, list):
        return [plain(x) for x in r]
    return r


def whole(v):
    """floats as ints where they are"""
    return int(v) if float(v).is_integer() else v


KINDS = {
    "tuples": (lambda p: tuple(tuple(x) for x in p), lambda p, k: tuple(c31.split_contour(p, k)), lambda v: v),
    "floats": (lambda p: [(float(x), float(y)) for x, y in p], c31.split_contour, float),
    "ints": (lambda p: [(whole(x), whole(y)) for x, y in p], c31.split_contour, whole),
    "tuples of floats": (lambda p: tuple((float(x), float(y)) for x, y in p), lambda p, k: tuple(c31.split_contour(p, k)), float),
}


def run(kind, a, how=None):
    was = c31.As.tup, c31.As.contour
    c31.As.seq = tuple if how and how.startswith("tuples") else list
    a = copy.deepcopy(a)
    if how:
        c31.As.tup, c31.As.contour = staticmethod(KINDS[how][0]), staticmethod(KINDS[how][1])
        a.update({v: KINDS[how][2](a[v]) for v in ("t", "d")}, i=[KINDS[how][2](v) for v in a["i"]])
    try:
        g, out = c31.SCRIPTS[kind](current(), a), []
        while True:
            r = c31.step(g)
            if r is None:
                return out
            out.append(plain(r[0]))
    finally:
        c31.As.seq = list
        c31.As.tup, c31.As.contour = staticmethod(was[0]), staticmethod(was[1])


def c_kinds(case):
    lab = []
    for kind, a in case["scripts"]:
        if kind == "colour":
            continue
        # a negative zero has no counterpart among the ints
        a = dict(a, p=[[[x + 0.0 if x == 0 and isinstance(x, float) else x for x in q] for q in p] for p in a["p"]])
        base = run(kind, a)
        for how in KINDS:
            got = run(kind, a, how)
            require(len(got) == len(base), "%s %r: %d answers, %d when given %s", kind, a, len(base), len(got), how)
            for n, (x, y) in enumerate(zip(base, got)):
                if kind == "lines" and n == 20:
                    # which of two opposite signs a zero has decides whether an angle is 0 or pi
                    x, y = x[:4], y[:4]
                require(same(x, y, 1e-9), "step %d of %s %r answers %r, but %r when given %s", n, kind, a, x, y, how)
        if any(x[:1] != ["raises"] for x in base if isinstance(x, list)):
            lab.append("*" + kind)
    return sorted(set(lab))


CLAUSES = [
    Clause("kinds", st.fixed_dictionaries(dict(scripts=c31.scripts())), c_kinds, quick=5000, thorough=80000, shards=7, rule="some script gave answers"),
]
