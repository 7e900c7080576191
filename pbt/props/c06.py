"""C06 Curve queries do not depend on what was asked before."""
from decimal import Decimal, getcontext
from hypothesis import strategies as st
from ..core import Clause, require, fail, Violation
from .. import gen, geom
from .c07 import state
from ..pristine import pristine
from PathLib.Bezier import Bezier


def norm(r):
    """A deep, comparable copy of a query's answer."""
    if hasattr(r, "controlPoints"):
        return ["curve", [norm(p) for p in r.controlPoints], r.direction, norm(r.boundsRectangle) if r.order < 4 else None]
    if hasattr(r, "bottom"):
        return ["rect", float(r.left), float(r.bottom), float(r.right), float(r.top)]
    if isinstance(r, dict):
        return ["dict"] + [[str(k), norm(r[k])] for k in sorted(r, key=str)]
    if isinstance(r, (list, tuple)):
        return [norm(x) for x in r]
    if r is None or isinstance(r, (str, bool)):
        return r
    return float(r)


def same(a, b, tol):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    return type(a) is type(b) and a == b


# name -> (orders, function(curve, other, arguments))
QUERIES = {
    "get": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.get(x["t"])),
    "lut": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.getLUT(x["n"])),
    "lutdefault": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.getLUT()),
    "hull": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.hull(x["t"])),
    "bbox": ((1, 2, 3), lambda b, o, x: b.bbox),
    "rect": ((1, 2, 3), lambda b, o, x: b.boundsRectangle),
    "skeleton": ((1, 2, 3), lambda b, o, x: b.skeletonBounds),
    "tight": ((1, 2, 3), lambda b, o, x: b.tightbbox),
    "extrema": ((1, 2, 3), lambda b, o, x: b.extrema),
    "dcpoints": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.dcPoints),
    "length": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.length),
    "mid": ((1, 2, 3, 4, 5, 6), lambda b, o, x: [b.midpoint, b.start, b.end, b.order, b.direction]),
    "split1": ((2, 3), lambda b, o, x: b.split(x["t"])),
    "split2": ((2, 3), lambda b, o, x: b.split(*x["i"])),
    "normal": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.normal(x["t"])),
    "offsetpt": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.offset(x["t"], x["d"])),
    "offset": ((2, 3), lambda b, o, x: b.offset(x["d"])),
    "scale": ((2, 3), lambda b, o, x: b.scale(x["d"])),
    "scalefn": ((2, 3), lambda b, o, x: b.scale(lambda v: x["d"] * (1 + v))),
    "reduce": ((2, 3), lambda b, o, x: b.reduce()),
    "simple": ((2, 3), lambda b, o, x: b.simple()),
    "roots": ((2, 3), lambda b, o, x: b.roots()),
    "rootsline": ((2, 3), lambda b, o, x: b.roots(x["l"])),
    "lineint": ((2, 3), lambda b, o, x: b.lineIntersects(x["l"])),
    "withline": ((1, 2, 3), lambda b, o, x: b.intersectWithLine(type(b)(x["l"]))),
    "self": ((2, 3), lambda b, o, x: b.selfIntersects(x["th"])),
    "intersects": ((2, 3), lambda b, o, x: b.intersects(o, x["th"]) if o.order in (2, 3) else None),
    "overlaps": ((1, 2, 3), lambda b, o, x: b.overlaps(o) if o.order < 4 else None),
    "align": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.align()),
    "alignto": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.align(x["l"])),
    "raise": ((1, 2, 3, 4, 5, 6), lambda b, o, x: b.raiseOrder()),
    "abc": ((2, 3), lambda b, o, x: b.getABC(x["t"])),
}
NAMES = sorted(QUERIES)
FILLS = ["bbox", "rect", "extrema", "lut", "length", "reduce", "dcpoints"]


def ask(name, b, o, x):
    try:
        return QUERIES[name][1](b, o, x)
    except (ZeroDivisionError, ValueError, TypeError, ArithmeticError) as e:
        return ["raises", type(e).__name__]


def c_history(case):
    curves = [geom.tup(p) for p in case["curves"]]
    sc = geom.scale_of(*curves)
    th = max(max(geom.extent(p) for p in curves) / 30, 1e-3)
    context = getcontext()
    prec = case["prec"]
    saved = context.prec
    context.prec = prec
    before = state(context)
    try:
        pool = [Bezier(list(p)) for p in curves]
        cps = [list(p) for p in curves]
        keep = []      # (raw result, what it was)
        lab = set()
        asked = {}
        for k, (name, i, j, x) in enumerate(case["ops"]):
            b, o = pool[i % len(pool)], pool[j % len(pool)]
            cp, co = cps[i % len(pool)], cps[j % len(pool)]
            if len(cp) - 1 not in QUERIES[name][0]:
                continue
            x = dict(x, th=th, l=[tuple(p) for p in x["l"]])
            # in a copy of the library nothing has been asked of before
            with pristine() as lib:
                B = lib.Bezier.Bezier
                fresh = norm(ask(name, B(list(cp)), B(list(co)), dict(x, l=list(x["l"]))))
            raw = ask(name, b, o, x)
            got = norm(raw)
            require(same(got, fresh, 1e-9), "%s on curve %r answers %r after the queries %r, a fresh curve answers %r",
                    name, cp, got, [q[0] for q in case["ops"][:k]], fresh)
            require(getcontext() is context and state(context) == before, "%s left the Decimal context at %r instead of %r", name, state(getcontext()), before)
            require([tuple(p) for p in b.controlPoints] == cp and len(b.controlPoints) == len(cp), "%s changed the control points to %r", name, b.controlPoints)
            keep.append((raw, got, name, k))
            if got[:1] != ["raises"] if isinstance(got, list) else True:
                if asked.get(id(b)):
                    lab.add("*repeat of a query" if name in asked[id(b)] else "*after other queries")
                asked.setdefault(id(b), set()).add(name)
                who = {tuple(c) for c in (cps[q % len(pool)] for n2, q, _, _ in case["ops"][:k + 1] if n2 == name)}
                if len(who) > 1:
                    lab.add("*the same of different curves")
            if x["adopt"] and isinstance(raw, (list, tuple, Bezier)):
                new = [r for r in ([raw] if isinstance(raw, Bezier) else raw) if isinstance(r, Bezier) and r.order <= 3][:2]
                for r in new:
                    if len(pool) < 6:
                        pool.append(r)
                        cps.append([tuple(p) for p in r.controlPoints])
                        lab.add("derived curve adopted")
        for raw, got, name, k in keep:
            now = norm(raw)
            require(same(now, got, 0), "the result of query %d (%s) changed later from %r to %r", k, name, got, now)
        return sorted(lab)
    finally:
        context.prec = saved


def grid(x):
    # parameters that a lookup table of n points holds
    if x["i"][0] < 0.3:
        x = dict(x, t=[0, 1 / (x["n"] - 1), 0.5, (x["n"] - 2) / (x["n"] - 1), 1][x["n"] % 5])
    return x


args = st.fixed_dictionaries(dict(
    t=gen.unit, n=st.sampled_from([2, 3, 4, 5, 8, 10, 11, 20, 50, 99, 100, 101]), d=st.one_of(gen.ints(-20, 20), gen.ints(-200, 200).map(lambda v: v / 8)),
    i=gen.interval, l=st.lists(gen.pt("font"), min_size=2, max_size=2), adopt=st.booleans())).map(grid)
op = st.tuples(st.one_of(st.sampled_from(NAMES), st.sampled_from(FILLS)), gen.ints(0, 5), gen.ints(0, 5), args).map(list)
flav = ["small", "font", "half", "noisy", "milli"]
curves = st.sampled_from(flav).flatmap(lambda f: st.lists(st.one_of(gen.curve((1, 2, 3, 3), [f]), gen.curve((1, 2, 3, 3, 4, 5, 6), [f]), gen.tame_curve()), min_size=1, max_size=3))
history = st.fixed_dictionaries(dict(curves=curves, ops=st.lists(op, min_size=2, max_size=9), prec=st.sampled_from([28, 28, 28, 15, 40])))

# the same query twice in a row with something in between, over every ordered pair of queries
pair = st.tuples(st.sampled_from(NAMES), st.sampled_from(NAMES), args, args, gen.ints(0, 1)).map(
    lambda t: [[t[0], 0, 1, t[2]], [t[1], t[4], 1, t[3]], [t[0], 0, 1, t[2]]])
# a query that fills some cache, before another one
after = st.tuples(st.sampled_from(FILLS + ["lutdefault"] * 3), st.sampled_from(NAMES), args, args).map(
    lambda t: [[t[0], 0, 1, t[2]], [t[1], 0, 1, t[3]]])
pair = pair | after
pairs = st.fixed_dictionaries(dict(curves=st.sampled_from(flav).flatmap(lambda f: st.lists(gen.curve((2, 3), [f]), min_size=2, max_size=2)), ops=pair, prec=st.just(28)))

RULE = "some curve was asked at least two queries that both gave an answer"
# lookup tables and point queries at the parameters they hold
LOOK = ["lut", "lut", "get", "hull", "mid", "split1", "abc", "normal", "offsetpt", "length", "extrema"]
n = st.sampled_from([2, 3, 3, 4, 5, 6, 9, 11, 21, 101, 129, 301, 512, 1001])
look = st.tuples(args, n, st.lists(st.tuples(st.sampled_from(LOOK), gen.ints(0, 100), n), min_size=2, max_size=6)).map(
    lambda t: [[q, 0, 1, dict(t[0], n=m, t=(k % t[1]) / (t[1] - 1))] for q, k, m in [(t[2][0][0], t[2][0][1], t[1])] + t[2][1:]])
looks = st.fixed_dictionaries(dict(curves=st.sampled_from(flav).flatmap(lambda f: st.lists(gen.curve((1, 2, 3, 3, 4, 5), [f]), min_size=2, max_size=2)), ops=look.map(lambda o: [["lut"] + o[0][1:]] + o), prec=st.just(28)))

# the same queries of curves that are nearly, but not quite, the same
alike = st.fixed_dictionaries(dict(
    curves=st.sampled_from(flav).flatmap(lambda f: gen.family(gen.curve((1, 2, 3, 3, 3, 4, 5), [f]), 2, 4)),
    ops=st.tuples(st.one_of(st.sampled_from(NAMES), st.sampled_from(FILLS)), args, st.lists(gen.ints(0, 3), min_size=2, max_size=5), gen.ints(0, 3)).map(
        lambda t: [[t[0], i, t[3], t[1]] for i in t[2]]),
    prec=st.just(28)))

CLAUSES = [
    Clause("alike", alike, c_history, quick=4000, thorough=60000, shards=4, rule="two different curves were asked the same query, and both gave an answer"),
    Clause("history", history, c_history, quick=2500, thorough=60000, shards=4, rule=RULE),
    Clause("lookup", looks, c_history, quick=1200, thorough=25000, shards=2, rule=RULE),
    Clause("pairs", pairs, c_history, quick=6500, thorough=80000, shards=4, rule=RULE),
]
