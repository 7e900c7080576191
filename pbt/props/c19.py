"""C19 Curve fitting interpolates and is least-squares optimal."""
import copy
import math
import types
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib import CurveFitting as CF


def mat(m, what, r=None, c=None):
    return [[num(v, what) for v in seq(x, what + " row", c)] for x in seq(m, what, r)]


def bern_row(n, t):
    return [math.comb(n, i) * t ** i * (1 - t) ** (n - i) for i in range(n + 1)]


def chord_times(ps):
    d = [0.0]
    for a, b in zip(ps, ps[1:]):
        d.append(d[-1] + math.hypot(a[0] - b[0], a[1] - b[1]))
    return [v / d[-1] for v in d] if d[-1] else None


def c_times(case):
    ps = geom.tup(case["p"])
    n = len(ps)
    want = chord_times(ps)
    if want is None:
        return "point"
    got = [num(v) for v in seq(CF.computeTimeValues(list(ps)), "time values", n)]
    require(got[0] == 0 and close(got[-1], 1, 1e-12), "time values of %r are %r", ps, got)
    require(all(a <= b for a, b in zip(got, got[1:])), "time values decrease: %r", got)
    for g, w in zip(got, want):
        require(close(g, w, 1e-12), "time values of %r are %r, expected %r", ps, got, want)
    u = [num(v) for v in seq(CF.computeTimeValues(list(ps), polygonal=False), "time values", n)]
    for i, g in enumerate(u):
        require(close(g, i / (n - 1), 1e-12), "uniform time values of %d points are %r", n, u)
    for i, (a, b) in enumerate(zip(ps, ps[1:])):
        h = math.hypot(a[0] - b[0], a[1] - b[1])
        require(close(num(CF.dist(a, b)), h, 1e-12 * (1 + h)), "dist(%r, %r) is %r", a, b, CF.dist(a, b))
    return "*%d points" % n


def control(c, n):
    cx, cy = seq(c, "control points", 2)
    X, Y = mat(cx, "x control points", n, 1), mat(cy, "y control points", n, 1)
    return [(a[0], b[0]) for a, b in zip(X, Y)]


def condition(s, n):
    T = np.array([[t ** i for i in range(n)] for t in s])
    return np.linalg.cond(T.T @ T), T


def c_fit(case):
    ps = geom.tup(case["p"])
    n = len(ps)
    poly = case["poly"]
    s = chord_times(ps) if poly else [i / (n - 1) for i in range(n)]
    if s is None or min(b - a for a, b in zip(s, s[1:])) < 0.02:
        return "points too close"
    k, _ = condition(s, n)
    if k > 1e10:
        return "ill-conditioned"
    arg = list(ps)
    P, M, S, C = seq(CF.fit(arg, polygonal=poly) if not poly or case["kw"] else CF.fit(arg), "fit", 4)
    require(arg == list(ps) and [tuple(p) for p in P] == list(ps), "fit modified the points or returned others: %r", P)
    S = [num(v) for v in seq(S, "time values", n)]
    for g, w in zip(S, s):
        require(close(g, w, 1e-12), "time values are %r, expected %r", S, s)
    mat(M, "basis matrix", n, n)
    cp = control(C, n)
    sc = geom.scale_of(ps)
    tol = 1e-15 * k * 1e2 * sc + 1e-9 * sc
    for p, t in zip(ps, S):
        q = geom.bernf(cp, t)
        require(pclose(q, p, tol), "fit(%r, %r): the curve %r passes %r at %r, not %r", ps, poly, cp, q, t, p)
    return "*%d points%s" % (n, "" if poly else " uniform")


def c_least(case):
    """bestFit with fewer control points than points"""
    ps = geom.tup(case["p"])
    N, n = len(ps), case["n"]
    if n > N:
        return "underdetermined"
    s = [0.0]
    for w in case["w"][:N - 1]:
        s.append(s[-1] + w)
    s = [v / s[-1] for v in s]
    k, T = condition(s, n)
    if k > 1e8:
        return "ill-conditioned"
    M = CF.basisMatrix(n)
    M0, s0 = copy.deepcopy(M), list(s)
    cp = control(CF.bestFit(list(ps), M, s, n), n)
    require(M == M0 and s == s0, "bestFit modified its arguments")
    B = np.array([bern_row(n - 1, t) for t in s])
    X = np.array(ps, dtype=float)
    best, *_ = np.linalg.lstsq(B, X, rcond=None)
    sc = geom.scale_of(ps)
    e_best = float(((B @ best - X) ** 2).sum())
    e_got = float(((B @ np.array(cp) - X) ** 2).sum())
    slack = (1e-15 * k * 100 * sc) ** 2 + 1e-12 * sc * sc
    require(e_got <= e_best * (1 + 1e-6) + slack, "bestFit(%r, %r control points) has the square error %r, the optimum is %r", ps, n, e_got, e_best)
    return "*%d of %d" % (n, N)


def c_basis(case):
    n = case["n"]
    raw = CF.basisMatrix(n)
    m = mat(raw, "basis matrix", n, n)
    if isinstance(raw, list) and isinstance(raw[0], list):
        # whoever asked for it may go on with it in place; the next one is right all the same
        raw[0][0] += 1
        raw.append([0] * n)
        m2 = mat(CF.basisMatrix(n), "basis matrix", n, n)
        require(m2 == m, "basisMatrix(%d) is %r when asked again, after the first one was changed", n, m2)
    for r in range(n):
        for c in range(n):
            # coefficient of t^r in the c-th Bernstein polynomial of degree n - 1
            w = math.comb(n - 1, c) * math.comb(n - 1 - c, r - c) * (-1) ** (r - c) if r >= c else 0
            # integers, though computed in floats
            require(abs(m[r][c] - w) <= (0 if abs(w) < 2 ** 50 else 1e-15 * abs(w)), "basisMatrix(%d): entry %d, %d is %r, expected %d", n, r, c, m[r][c], w)
    return "*n=%d" % n


CODE = compile(open(CF.__file__).read(), CF.__file__, "exec")


def fresh():
    """The module as it is right after import, whatever was computed with it before."""
    m = types.ModuleType(CF.__name__)
    m.__package__, m.__file__ = CF.__package__, CF.__file__
    exec(CODE, m.__dict__)
    return m


def c_binomial(case):
    """any order of calls from the state after import"""
    m = fresh()
    for n, k in case["calls"]:
        k = min(k, n)
        g = m.binomial(n, k)
        require(g == math.comb(n, k), "binomial(%d, %d) is %r after %r", n, k, g, case["calls"])
    for n in [*range(30), *case["more"]]:
        g = [m.binomial(n, k) for k in range(n + 1)]
        require(g == [math.comb(n, k) for k in range(n + 1)], "binomial(%d, k) is %r for k = 0, 1, ... after %r", n, g, case["calls"])
    return "*large" if any(n > 6 for n, _ in case["calls"]) else "table"


def c_ops(case):
    A, B = case["a"], case["b"]
    A0, B0 = copy.deepcopy(A), copy.deepcopy(B)
    r, k, c = len(A), len(B), len(B[0])
    got = mat(CF.multiply(A, B), "product", r, c)
    for i in range(r):
        for j in range(c):
            w = sum(F(A[i][x]) * F(B[x][j]) for x in range(k))
            m = sum(abs(A[i][x] * B[x][j]) for x in range(k))
            require(abs(got[i][j] - float(w)) <= 1e-14 * m, "multiply(%r, %r): entry %d, %d is %r, expected %r", A, B, i, j, got[i][j], float(w))
    t = mat(CF.transpose(A), "transpose", k, r)
    require(all(t[j][i] == A[i][j] for i in range(r) for j in range(k)), "transpose(%r) is %r", A, t)
    for i in range(r):
        require(list(CF.row(A, i)) == A[i], "row(%r, %d) is %r", A, i, CF.row(A, i))
    for j in range(k):
        require(list(CF.col(A, j)) == [x[j] for x in A], "col(%r, %d) is %r", A, j, CF.col(A, j))
    require(A == A0 and B == B0, "arguments were modified")
    return "*%dx%dx%d" % (r, k, c)


def c_tmatrix(case):
    s, n = case["s"], case["n"]
    if n is None:
        tp, t = seq(CF.formTMatrix(list(s)), "formTMatrix", 2)
        n = len(s)
    else:
        tp, t = seq(CF.formTMatrix(list(s), n), "formTMatrix", 2)
    tp, t = mat(tp, "transposed matrix", n, len(s)), mat(t, "matrix", len(s), n)
    for i in range(n):
        for j, v in enumerate(s):
            w = float(F(v) ** i)
            require(close(tp[i][j], w, 1e-13 * abs(w)) and close(t[j][i], w, 1e-13 * abs(w)), "formTMatrix(%r, %d): power %d of %r is %r, %r", s, n, i, v, tp[i][j], t[j][i])
    for i in range(n):
        g = [num(v) for v in seq(CF.raiseRowPower(list(s), i), "raiseRowPower", len(s))]
        require(all(close(a, float(F(b) ** i), 1e-13 * abs(float(F(b) ** i))) for a, b in zip(g, s)), "raiseRowPower(%r, %d) is %r", s, i, g)
    ps = list(zip(s, s[::-1]))
    for v in (0, 1):
        g = mat(CF.getPointValuesColumn(ps, v), "column", len(s), 1)
        require([x[0] for x in g] == [p[v] for p in ps], "getPointValuesColumn(%r, %d) is %r", ps, v, g)
    return "*"


def rect(entry, r, c):
    return st.lists(st.lists(entry, min_size=c, max_size=c), min_size=r, max_size=r)


entry = st.sampled_from([gen.ints(-9, 9), gen.milli, gen.noisy])
ops = st.tuples(gen.ints(1, 5), gen.ints(1, 5), gen.ints(1, 5), entry).flatmap(lambda t: st.fixed_dictionaries(dict(a=rect(t[3], t[0], t[1]), b=rect(t[3], t[1], t[2]))))


@st.composite
def spread(draw):
    """points along a wandering path, no two in a row close together"""
    n = draw(gen.ints(2, 7))
    x, y = draw(gen.pt(draw(st.sampled_from(["small", "font", "half", "noisy"]))))
    ps = [[x, y]]
    for _ in range(n - 1):
        L, a = draw(gen.ints(30, 120)), math.radians(draw(gen.ints(0, 359)))
        ps.append([ps[-1][0] + L * math.cos(a), ps[-1][1] + L * math.sin(a)])
    return ps




def walk(r, n):
    """n points along a wandering path"""
    ps = [[r.randint(-500, 500), r.randint(-500, 500)]]
    for _ in range(n - 1):
        L, a = r.uniform(30, 120), r.uniform(0, 2 * math.pi)
        ps.append([ps[-1][0] + L * math.cos(a), ps[-1][1] + L * math.sin(a)])
    return ps


def rnd_ops(r, n):
    m, k, c = (r.choice([n, r.randint(1, n), r.randint(1, 3)]) for _ in range(3))
    f = r.choice([lambda: r.randint(-9, 9), lambda: r.uniform(-1000, 1000)])
    return dict(a=[[f() for _ in range(k)] for _ in range(m)], b=[[f() for _ in range(c)] for _ in range(k)])


CLAUSES = [
    Clause("times", st.fixed_dictionaries(dict(p=st.one_of(gen.pts_range(2, 8), gen.pts_range(2, 8), gen.pts_range(2, 60)))), c_times, quick=3750, thorough=20000, rule="the points do not coincide"),
    Clause("fit", st.fixed_dictionaries(dict(p=st.one_of(spread(), spread(), gen.pts_range(2, 6)), poly=st.sampled_from([True, True, False]), kw=st.booleans())), c_fit, quick=5000, thorough=40000, shards=2,
           rule="time steps of at least 0.02, condition number of the normal equations below 1e10"),
    Clause("least", st.fixed_dictionaries(dict(p=st.one_of(spread(), gen.pts_range(3, 9), gen.pts_range(3, 31)), n=gen.ints(2, 5), w=st.lists(gen.ints(20, 100), min_size=30, max_size=30))), c_least, quick=5000, thorough=40000, shards=2,
           rule="condition number of the normal equations below 1e8"),
    Clause("basis", st.fixed_dictionaries(dict(n=gen.ints(1, 40))), c_basis, quick=120, thorough=120, rule="every size"),
    Clause("binomial", st.fixed_dictionaries(dict(calls=st.lists(st.one_of(st.tuples(gen.ints(0, 24), gen.ints(0, 24)), st.tuples(gen.ints(0, 120), gen.ints(0, 120))).map(list), min_size=1, max_size=8), more=st.lists(gen.ints(30, 150), max_size=2))), c_binomial, quick=2500, thorough=10000, rule="n beyond the initial table"),
    Clause("operations", ops, c_ops, quick=3750, thorough=20000, rule="every case (shape label)"),
    Clause("tmatrix", st.fixed_dictionaries(dict(s=st.lists(st.one_of(gen.unit, gen.ints(-30, 30).map(lambda n: n / 10)), min_size=1, max_size=12), n=st.one_of(st.none(), gen.ints(1, 6)))), c_tmatrix, quick=2500, thorough=15000, rule="every case"),
    Clause("many-times", st.fixed_dictionaries(dict(p=gen.seeded_log(gen.rnd_points, 30, 600))), c_times, quick=150, thorough=1500, rule="the points do not coincide"),
    Clause("many-points", st.fixed_dictionaries(dict(p=gen.seeded_log(walk, 10, 300), n=gen.ints(2, 5), w=gen.seeded(lambda r, n: [r.randint(n, 100) for _ in range(299)], 20, 99))), c_least, quick=150, thorough=1500, rule="condition number of the normal equations below 1e8"),
    Clause("large-operations", gen.seeded_log(rnd_ops, 4, 60), c_ops, quick=60, thorough=800, shards=2, rule="every case (shape label)"),
    Clause("large-tmatrix", st.fixed_dictionaries(dict(s=gen.seeded_log(lambda r, n: [r.choice([r.random(), r.randint(0, 20) / 20, r.uniform(-3, 3)]) for _ in range(n)], 4, 120), n=st.one_of(st.none(), gen.ints(1, 40)))), c_tmatrix, quick=40, thorough=500, shards=2, rule="every case"),
]
