"""C13 getABC satisfies the projection identity."""
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def c_abc(case):
    k = case["k"]
    ps = [(x * k, y * k) for x, y in geom.tup(case["p"])]
    b = Bezier(list(ps))
    t = case["t"]
    n = len(ps) - 1
    A, B, C, ratio, hull = seq(b.getABC(t), "getABC(%r)" % t, 5)
    T = F(t)
    S = 1 - T
    u = S ** n / (T ** n + S ** n)
    want_ratio = abs((T ** n + S ** n - 1) / (T ** n + S ** n))
    wB = geom.bern(ps, T)
    if n == 2:
        wA = geom.fr(ps[1])
    else:
        q = [geom.fr(p) for p in ps]
        wA = tuple(q[1][d] * S + q[2][d] * T for d in (0, 1))
    p0, pn = geom.fr(ps[0]), geom.fr(ps[-1])
    wC = tuple(u * p0[d] + (1 - u) * pn[d] for d in (0, 1))
    sc = geom.scale_of(ps)
    tl = 1e-12 * sc
    require(pclose(point(A, "A"), geom.f2(wA), tl), "A = %r, expected %r", A, geom.f2(wA))
    require(pclose(point(B, "B"), geom.f2(wB), tl), "B = %r is not the curve point %r", B, geom.f2(wB))
    require(close(num(ratio, "ratio"), float(want_ratio), 1e-12), "ratio = %r, expected %r", ratio, float(want_ratio))
    h1, h2 = points(hull), points(b.hull(t))
    require(len(h1) == len(h2) and all(pclose(x, y, tl) for x, y in zip(h1, h2)), "fifth result is not hull(t)")
    # C is where line AB meets the chord: conditioned by the angle between them and |AB|
    ab = (wB[0] - wA[0], wB[1] - wA[1])
    ch = (pn[0] - p0[0], pn[1] - p0[1])
    cross = float(ab[0] * ch[1] - ab[1] * ch[0])
    lab_ = geom.hyp(ab)
    lch = geom.hyp(ch)
    # rounding of the intersection, relative to its condition
    tc = 1e-11 * sc * sc / abs(cross) if abs(cross) > 1e-12 * sc * sc else 1
    if tc < 1e-4:
        require(C is not None, "C is None although line AB crosses the chord (A=%r, B=%r, chord %r-%r)", A, B, ps[0], ps[-1])
        require(pclose(point(C, "C"), geom.f2(wC), tc * sc), "C = %r, expected %r on the chord", C, geom.f2(wC))
        return ["*order%d" % n]
    # eighths of whole numbers are computed without any rounding
    if k == 1 and t * 8 == int(t * 8) and all(isinstance(v, int) and abs(v) <= 2000 for p in case["p"] for v in p):
        if ab[0] * ch[1] != ab[1] * ch[0]:
            require(C is not None, "C is None although line AB crosses the chord (A=%r, B=%r, chord %r-%r)", A, B, ps[0], ps[-1])
            require(pclose(point(C, "C"), geom.f2(wC), 1e-9 * sc), "C = %r, expected %r on the chord", C, geom.f2(wC))
            return ["*order%d" % n, "exact"]
    if C is not None:
        point(C, "C")
    return ["ill-conditioned C"]


CLAUSES = [Clause("abc", st.fixed_dictionaries(dict(p=gen.curve((2, 3)), t=st.one_of(gen.inner, gen.inner, gen.unit, gen.ints(0, 8).map(lambda n: n / 8)), k=st.sampled_from([1, 1, 1, 1, 1e-3, 1e-4, 1e3]))), c_abc, quick=12500, thorough=80000, shards=3,
                  rule="line AB crosses the chord at a clear angle, or at all where no rounding occurs")]
