"""C23 Closest-point search is consistent and at least as good as sampling."""
import copy
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import BContour, Bezier


def power(ps, d):
    n = len(ps) - 1
    c = []
    for k in range(n + 1):
        c.append(math.comb(n, k) * sum((-1) ** (k - i) * math.comb(k, i) * ps[i][d] for i in range(k + 1)))
    return np.array(c, dtype=float)


def curve_distance(ps, q):
    """Distance from q to the curve: stationary points of the squared distance, polished."""
    def f(t):
        x, y = geom.bernf(ps, t)
        return math.hypot(x - q[0], y - q[1])
    sh = [(x - q[0], y - q[1]) for x, y in ps]
    X, Y = power(sh, 0), power(sh, 1)
    P = np.polynomial.polynomial
    g = P.polyadd(P.polymul(X, P.polyder(X)), P.polymul(Y, P.polyder(Y)))
    ts = [0.0, 1.0]
    m = np.abs(g).max()
    if m > 0:
        g = np.trim_zeros(np.where(np.abs(g) < 1e-15 * m, 0, g), "b")
        if len(g) > 1:
            ts += [min(1.0, max(0.0, r.real)) for r in P.polyroots(g) if -0.01 < r.real < 1.01 and abs(r.imag) < 1e-2]
    ts += [k / 32 for k in range(33)]
    t = min(ts, key=f)
    lo, hi = max(0.0, t - 1 / 32), min(1.0, t + 1 / 32)
    best = f(t)
    for _ in range(60):
        a, b = lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618
        fa, fb = f(a), f(b)
        best = min(best, fa, fb)
        if fa < fb:
            hi = b
        else:
            lo = a
    return best


def tables(C, steps):
    """Lookup tables as the statement defines them, from fresh curves."""
    own = [[geom.bernf([(float(x), float(y)) for x, y in s], k / (steps - 1)) for k in range(steps)] for s in C]
    return own


def check_query(b, C, p, steps, sc):
    got = seq(b.findClosestPoint(p, steps), "findClosestPoint", 2)
    d, q = num(got[0], "distance"), point(got[1], "closest point")
    tol = 1e-9 * max(sc, abs(p[0]), abs(p[1]))
    require(close(d, math.hypot(q[0] - p[0], q[1] - p[1]), tol), "findClosestPoint(%r, %d): distance %r, but the point is %r", p, steps, d, q)
    sample = [x for t in tables(C, steps) for x in t]
    best = min(math.hypot(x - p[0], y - p[1]) for x, y in sample)
    require(d <= best + tol, "findClosestPoint(%r, %d) on %r: distance %r, a lookup table point is at %r", p, steps, C, d, best)
    near = min(curve_distance(s, q) for s in C)
    require(near <= 1e-6 * sc, "findClosestPoint(%r, %d) on %r: %r is not on the contour (off by %r)", p, steps, C, q, near)
    return d, best


def query_point(C, case):
    """near or on the contour, at a joint, or anywhere"""
    s = C[case["i"] % len(C)]
    if case["where"] == "free":
        return tuple(case["p"])
    if case["where"] == "between":
        # on the contour, a simple fraction of a lookup table step past an entry
        n = case["steps"] - 1
        return tuple(geom.bernf(s, min(1, (round(case["t"] * n) + case["part"]) / n)))
    if case["where"] == "after":
        # on one of the later curves, before its first lookup table entry
        s = C[-1 - case["i"] % max(1, len(C) - 1)]
        return tuple(geom.bernf(s, (0.5 - abs(case["part"]) / 5) / (case["steps"] - 1)))
    t = {"on": case["t"], "near": case["t"], "joint": 1.0, "start": 0.0}[case["where"]]
    x, y = geom.bernf(s, t)
    if case["where"] in ("on", "start"):
        return (x, y)
    e = geom.scale_of(s) * case["e"]
    return (x + e * case["dir"][0], y + e * case["dir"][1])


def c_closest(case):
    C = [geom.tup(s) for s in case["c"]]
    C0 = copy.deepcopy(C)
    b = BContour(C)
    sc = max(geom.scale_of(s) for s in C)
    p = query_point(C, case)
    d, best = check_query(b, C, p, case["steps"], sc)
    d2, _ = check_query(b, C, p, case["steps2"], sc)
    d3, _ = check_query(b, C, p, case["steps"], sc)
    require(d == d3, "findClosestPoint(%r, %d) is first %r, then %r", p, case["steps"], d, d3)
    require(C == C0, "the contour was modified")
    return ["*%s curves" % (len(C) if len(C) < 18 else "18 or more"), case["where"], "refined" if d < best * (1 - 1e-12) else "sample"]


def c_lut(case):
    C = [geom.tup(s) for s in case["c"]]
    b = BContour(C)
    sc = max(geom.scale_of(s) for s in C)
    for steps in case["steps"]:
        got = points(b.getLUT(steps), "getLUT(%d)" % steps)
        want = []
        for t in tables(C, steps):
            want += t[1:] if want else t
        require(len(got) == len(want), "getLUT(%d) of %d curves has %d points, expected %d (asked for %r)", steps, len(C), len(got), len(want), case["steps"])
        for g, w in zip(got, want):
            require(pclose(g, w, 1e-12 * sc), "getLUT(%d): %r instead of %r", steps, g, w)
    if case["default"]:
        require(len(seq(b.getLUT())) == 99 * len(C) + 1, "getLUT() has %d points", len(b.getLUT()))
    return ["*%s curves" % (len(C) if len(C) < 20 else "20 or more"), "*changing steps" if len(set(case["steps"])) > 1 else "one table"]


def unimodal(f, a, b, tol, n=96):
    """(least value of f on [a, b]) if f first falls and then rises there, else None"""
    ts = [a + (b - a) * k / n for k in range(n + 1)]
    v = [f(t) for t in ts]
    k = min(range(n + 1), key=lambda j: v[j])
    if any(x - y < tol for x, y in zip(v[:k], v[1:k])) or any(y - x < tol for x, y in zip(v[k + 1:], v[k + 2:])):
        return None
    lo, hi = ts[max(0, k - 1)], ts[min(n, k + 1)]
    best = v[k]
    for _ in range(50):
        p, q = lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618
        fp, fq = f(p), f(q)
        best = min(best, fp, fq)
        if fp < fq:
            hi = q
        else:
            lo = p
    return best


def c_refine(case):
    """The search goes on between the lookup table's points next to the nearest one."""
    C = [geom.tup(s) for s in case["c"]]
    n = case["steps"]
    b = BContour([list(s) for s in C])
    sc = max(geom.scale_of(s) for s in C)
    p = query_point(C, case)
    d = num(b.findClosestPoint(p, n)[0], "distance")
    table = sorted((math.hypot(x - p[0], y - p[1]), k, j) for k, t in enumerate(tables(C, n)) for j, (x, y) in enumerate(t))
    # the nearest point, which may be the one where two curves meet
    near = [(k, j) for v, k, j in table if v <= table[0][0] + 1e-7 * sc]
    k, j = near[0]
    if len(near) == 2 and near[1][0] - k == 1 and j == n - 1 and near[1][1] == 0:
        spans = [(k, j - 1, j), (k + 1, 0, 1)]
    elif len(near) == 1 and (len(C) == 1 or j not in (0, n - 1) or (k, j) in ((0, 0), (len(C) - 1, n - 1))):
        spans = [(k, max(0, j - 1), min(n - 1, j + 1))]
    else:
        return "several nearest points"
    bound, best = math.inf, math.inf
    for k, u, v in spans:
        s = C[k]
        low = unimodal(lambda t: math.hypot(*(x - y for x, y in zip(geom.bernf(s, t), p))), u / (n - 1), v / (n - 1), 1e-9 * sc)
        if low is None:
            return "several local minima"
        h = geom.hodograph(s)
        speed = max(math.hypot(*geom.bernf(h, u / (n - 1) + (v - u) / (n - 1) * i / 64)) for i in range(65))
        best = min(best, low)
        bound = min(bound, low + speed * 1.02 * (0.2 / (n - 1) + 0.006) + 1e-9 * sc)
    require(d <= bound, "findClosestPoint(%r, %d) on %r: distance %r, but there is a point of the contour next to the nearest lookup table point (at %r) at distance %r", p, n, C, d, table[0][0], best)
    return ["at a joint" if len(spans) > 1 else "inside", "*gains" if table[0][0] > bound else "table is close enough"]


steps = st.one_of(gen.ints(2, 12), gen.ints(2, 12), st.sampled_from([2, 3, 5, 9, 17, 50, 100, 199, 200, 201, 202, 300, 401, 500]), gen.ints(2, 600))
near_steps = gen.ints(2, 14)
CLAUSES = [
    Clause("closest", st.fixed_dictionaries(dict(c=gen.contour(1, 5, flavours=["tiny", "small", "font", "half", "noisy", "int16"]), p=gen.pt("font") | gen.pt("small") | gen.pt("big"), i=gen.ints(0, 20),
                                                 where=st.sampled_from(["free", "on", "near", "near", "joint", "joint", "start", "between"]), t=gen.unit, part=st.sampled_from([j / 10 for j in range(-9, 10)] + [0.25, 0.75, 1 / 3]), e=st.sampled_from([0, 1e-3, 0.01, 0.1, 0.5, 2]),
                                                 dir=st.tuples(gen.ints(-3, 3), gen.ints(-3, 3)).map(list), steps=steps, steps2=steps)), c_closest, quick=2700, thorough=30000, shards=6, rule="every case (number of curves label)"),
    Clause("refine", st.fixed_dictionaries(dict(c=gen.contour(1, 3, flavours=["small", "font", "half", "noisy", "int16"]), p=gen.pt("font") | gen.pt("small"), i=gen.ints(0, 20),
                                                where=st.sampled_from(["free", "near", "joint"] + ["between"] * 7 + ["after"] * 2), t=gen.unit, part=st.sampled_from([j / 10 for j in range(-9, 10)] + [0.4, 0.45, 0.5, 0.55, 0.6] * 4 + [1 / 3]), e=st.sampled_from([0, 1e-3, 0.01, 0.1, 0.5]),
                                                dir=st.tuples(gen.ints(-3, 3), gen.ints(-3, 3)).map(list), steps=gen.ints(2, 12) | gen.ints(3, 20) | gen.ints(4, 48))), c_refine, quick=4250, thorough=40000, shards=4,
           rule="the table alone misses the nearest point by more than the search may"),
    Clause("lut", st.fixed_dictionaries(dict(c=gen.contour(1, 6), steps=st.lists(st.one_of(near_steps, steps), min_size=1, max_size=4), default=st.booleans())), c_lut, quick=2550, thorough=20000, shards=2, rule="every case"),
    Clause("many-curves", st.fixed_dictionaries(dict(c=gen.seeded_log(lambda r, n: gen.rnd_contour(r, n, large=False), 6, 60), p=gen.pt("font"), i=gen.ints(0, 60),
                                                     where=st.sampled_from(["free", "on", "near", "joint", "between"]), t=gen.unit, part=st.just(0.5), e=st.sampled_from([0, 1e-3, 0.01, 0.1]),
                                                     dir=st.tuples(gen.ints(-3, 3), gen.ints(-3, 3)).map(list), steps=gen.ints(2, 14), steps2=gen.ints(2, 14))), c_closest, quick=60, thorough=1000, shards=2, rule="every case (number of curves label)"),
    Clause("many-refine", st.fixed_dictionaries(dict(c=gen.seeded_log(lambda r, n: gen.rnd_contour(r, n, large=False), 4, 60), p=gen.pt("font"), i=gen.ints(0, 60),
                                                     where=st.sampled_from(["free", "near", "joint", "between", "between", "between", "after", "after", "after"]), t=gen.unit, part=st.sampled_from([0.4, 0.45, 0.5, 0.55, 0.6]), e=st.sampled_from([0, 1e-3, 0.01, 0.1]),
                                                     dir=st.tuples(gen.ints(-3, 3), gen.ints(-3, 3)).map(list), steps=gen.ints(3, 30))), c_refine, quick=300, thorough=4000, shards=3,
           rule="the table alone misses the nearest point by more than the search may"),
    Clause("many-lut", st.fixed_dictionaries(dict(c=gen.seeded_log(gen.rnd_contour, 6, 100), steps=st.lists(gen.ints(2, 20), min_size=1, max_size=3), default=st.booleans())), c_lut, quick=60, thorough=1000, rule="every case"),
]
