"""C15 Transforms compose and apply point by point."""
import copy
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Transform import Transform

EPS = 2.0 ** -52


def fm(m):
    return [[F(v) for v in r] for r in m]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def mabs(m):
    return [[abs(v) for v in r] for r in m]


def product(ms):
    p, q = fm(ms[0]), mabs(fm(ms[0]))
    for m in ms[1:]:
        p, q = mul(p, fm(m)), mul(q, mabs(fm(m)))
    return p, q


def image(M, A, p, k):
    """Exact image of p under M and a bound on its rounding error; None if (nearly) at infinity.
    A bounds the magnitude of the terms, k the number of roundings per term."""
    v = mul([[F(p[0]), F(p[1]), F(1)]], M)[0]
    a = mul([[abs(F(p[0])), abs(F(p[1])), F(1)]], A)[0]
    err = [float(x) * EPS * k for x in a]
    w = abs(float(v[2]))
    if v[2] == 0 or err[2] > 1e-4 * w:
        return None
    x, y = v[0] / v[2], v[1] / v[2]
    ex = (err[0] + abs(float(x)) * err[2]) / w * 1.01 + abs(float(x)) * EPS * 2 + 1e-300
    ey = (err[1] + abs(float(y)) * err[2]) / w * 1.01 + abs(float(y)) * EPS * 2 + 1e-300
    return (float(x), float(y)), ex, ey


def near(got, im):
    return abs(got[0] - im[0][0]) <= im[1] and abs(got[1] - im[0][1]) <= im[2]


def c_compose(case):
    ms, ps = case["m"], geom.tup(case["p"])
    ms0 = copy.deepcopy(ms)
    T = Transform(*ms)
    M, A = product(ms)
    got = [[num(v, "matrix entry") for v in seq(r, "matrix row", 3)] for r in seq(T.transform, "transform", 3)]
    k = 8 * len(ms) + 8
    for i in range(3):
        for j in range(3):
            require(abs(got[i][j] - float(M[i][j])) <= float(A[i][j]) * EPS * k, "Transform(%r).transform is %r: entry %d, %d should be %r", ms, got, i, j, float(M[i][j]))
    single = [Transform(m) for m in ms]
    finite = 0
    for p in ps:
        im = image(M, A, p, k)
        if im is None:
            continue
        g = point(T.applyToPoint(p), "image")
        require(near(g, im), "Transform(%r) maps %r to %r, expected %r", ms, p, g, im[0])
        # one after the other (exactly the same map as long as nothing is sent to infinity on the way)
        q, ok, Mi, Ai = p, True, None, None
        for i, s in enumerate(single):
            Mi, Ai = product(ms[:i + 1])
            if image(Mi, Ai, p, k) is None:
                ok = False
                break
        if ok:
            w = F(1)
            tol_x = tol_y = 0.0
            q = p
            for i, s in enumerate(single):
                one, oa = product([ms[i]])
                im1 = image(one, oa, q, 16)
                if im1 is None:
                    ok = False
                    break
                q2 = point(s.applyToPoint(q), "image")
                require(near(q2, im1), "Transform(%r) maps %r to %r, expected %r", ms[i], q, q2, im1[0])
                q = q2
        finite += ok
    require(ms == ms0, "matrices were modified: %r", ms0)
    if not finite:
        return "all at infinity"
    persp = any(r[2] for m in ms for r in m[:2]) or any(m[2][2] != 1 for m in ms)
    return "*%d matrices%s" % (len(ms), ", perspective" if persp else "")


def c_apply(case):
    ms = case["m"]
    C = [[geom.tup(s) for s in c] for c in case["c"]]
    if case["lists"]:
        C = [[[list(p) for p in s] for s in c] for c in C]
    # tiny gaps between consecutive segments
    g = case["gap"]
    if g:
        C = [[(type(s[0])([s[0][0] + g, s[0][1] - g]),) + tuple(s[1:]) if type(s) is tuple else [type(s[0])([s[0][0] + g, s[0][1] - g])] + s[1:] for s in c] for c in C]
    C0 = copy.deepcopy(C)
    T = Transform(*ms)

    def img(p):
        try:
            return point(T.applyToPoint(p), "image")
        except ZeroDivisionError:
            return None

    want = [[[img(p) for p in s] for s in c] for c in C]
    if any(p is None for c in want for s in c for p in s):
        return "infinity"
    got = [[points(s, "segment") for s in seq(c, "contour")] for c in seq(T.applyToContours(C), "applyToContours")]
    require([[len(s) for s in c] for c in got] == [[len(s) for s in c] for c in want], "applyToContours(%r) changes the structure: %r", C, got)

    def eq(g, w, what):
        for p, q in zip(g, w):
            t = 1e-12 * max(1, abs(q[0]), abs(q[1]))
            require(pclose(p, q, t), "%s: %r instead of %r", what, p, q)

    for gc, wc in zip(got, want):
        for g, w in zip(gc, wc):
            eq(g, w, "applyToContours")
    for c, wc in zip(C, want):
        g = [points(s, "segment") for s in seq(T.applyToContour(c), "applyToContour", len(c))]
        for s, gs, w in zip(c, g, wc):
            require(len(gs) == len(w), "applyToContour changes a segment's length")
            eq(gs, w, "applyToContour")
            eq(points(T.applyToSegment(s), "applyToSegment", len(s)), w, "applyToSegment")
    require(C == C0, "the contours were modified")
    return "*%d contours" % len(C) if any(C) else "no segments"


entry = st.one_of(st.sampled_from([0, 0, 1, -1, 0.5, 2]), gen.ints(-9, 9), gen.ints(-4000, 4000).map(lambda n: n / 1000), gen.noisy.map(lambda v: v / 100))
shift = st.one_of(gen.font, gen.noisy, st.just(0))
persp = st.one_of(st.just(0), gen.ints(-20, 20).map(lambda n: n / 10000), gen.ints(-3, 3))
affine = st.tuples(entry, entry, entry, entry, shift, shift).map(lambda t: [[t[0], t[1], 0], [t[2], t[3], 0], [t[4], t[5], 1]])
general = st.tuples(affine, persp, persp, st.sampled_from([1, 1, 2, 0.5, -1, 3])).map(lambda t: [t[0][0][:2] + [t[1]], t[0][1][:2] + [t[2]], t[0][2][:2] + [t[3]]])
free = st.lists(st.lists(entry, min_size=3, max_size=3), min_size=3, max_size=3)
matrix = st.one_of(affine, affine, general, free)



def outline(r, n):
    """n segments, or fewer but of many points"""
    C = gen.rnd_contours(r, n, large=False)
    if r.random() < 0.3:
        C = [[gen.rnd_points(r, r.randint(1, n), False) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 3))]
    return C


CLAUSES = [
    Clause("compose", st.fixed_dictionaries(dict(m=gen.lists(matrix, 1, 5, 20), p=gen.pts_range(1, 3, gen.MODERATE))), c_compose, quick=3000, thorough=50000, shards=4,
           rule="at least one point whose images stay finite"),
    Clause("apply", st.fixed_dictionaries(dict(m=st.lists(matrix, min_size=1, max_size=2), c=gen.lists(gen.contour(0, 4), 0, 3, 10), lists=st.booleans(), gap=st.sampled_from([0] * 6 + [1e-3, -1e-4, 1e-6, -1e-8]))), c_apply, quick=1500, thorough=25000, shards=2,
           rule="at least one segment, all images finite"),
    Clause("large", st.fixed_dictionaries(dict(m=st.lists(st.one_of(affine, affine, matrix), min_size=1, max_size=2), c=gen.seeded_log(outline, 8, 300), lists=st.booleans(), gap=st.just(0))), c_apply, quick=200, thorough=3000, shards=2,
           rule="at least one segment, all images finite"),
]
