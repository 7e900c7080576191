"""C04 Bounding boxes are tight and extrema are complete."""
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def box(b):
    bb = b.bbox
    out = []
    for d in (0, 1):
        try:
            lo, hi = bb[d]
        except (KeyError, IndexError, TypeError, ValueError):
            fail("bbox has no (min, max) for dimension %d: %r", d, bb)
        out.append((num(lo), num(hi)))
    return out


def c_box(case):
    # moving the curve far away keeps its floating point coordinates exact representations of themselves
    ps = [(x + case["far"][0], y + case["far"][1]) for x, y in geom.tup(case["p"])]
    b = Bezier(list(ps))
    if case["first"] == "rect":
        r = b.boundsRectangle
        got = box(b)
    else:
        got = box(b)
        r = b.boundsRectangle
    want = geom.bbox(ps)
    t = 1e-11 * geom.scale_of(ps)
    for d in (0, 1):
        require(close(got[d][0], want[d][0], t) and close(got[d][1], want[d][1], t),
                "bbox[%d] = %r, the curve's extent is %r (control points %r)", d, got[d], want[d], ps)
    rect = (num(r.left), num(r.right)), (num(r.bottom), num(r.top))
    for d in (0, 1):
        require(close(rect[d][0], want[d][0], t) and close(rect[d][1], want[d][1], t),
                "boundsRectangle covers %r in dimension %d, the curve's extent is %r", rect[d], d, want[d])
    lab = ["order%d" % (len(ps) - 1)]
    for d in (0, 1):
        ends = sorted((float(ps[0][d]), float(ps[-1][d])))
        if want[d][0] < ends[0] - t or want[d][1] > ends[1] + t:
            lab.append("*interior extremum")
    if max(abs(v) for w in want for v in w) > 32768:
        lab.append("beyond int16")
    return lab


def c_skeleton(case):
    """skeletonBounds: the control points, and room for their labels on the right"""
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    for w in case["warm"] if len(ps) <= 4 else ():
        getattr(b, w)
    for _ in range(2):
        r = b.skeletonBounds
        got = tuple(num(v) for v in (r.left, r.bottom, r.right, r.top))
        xs, ys = [p[0] for p in ps], [p[1] for p in ps]
        require(got[0] == min(xs) and got[1] == min(ys) and got[3] == max(ys) and got[2] > max(xs), "skeletonBounds of %r is %r (left, bottom, right, top)", ps, got)
    if len(ps) > 4:
        return "*higher order"
    r = b.boundsRectangle
    want = geom.bbox(ps)
    t = 1e-11 * geom.scale_of(ps)
    got = (num(r.left), num(r.right)), (num(r.bottom), num(r.top))
    require(all(close(g, w, t) for a, c in zip(got, want) for g, w in zip(a, c)), "boundsRectangle is %r after asking for skeletonBounds, the curve's extent is %r", got, want)
    return "*order%d" % (len(ps) - 1)


def roots_of(coefs):
    """(well-conditioned interior sign-changing roots as floats) of exact Bernstein coefficients"""
    c = geom.power(coefs)
    m = max([abs(x) for x in c] + [F(1, 10 ** 300)])
    out = []
    for r in geom.isolate(c):
        if not F(1, 10 ** 6) < r < 1 - F(1, 10 ** 6):
            continue
        if abs(geom.polyval(geom.polyder(c), r)) > m / 1000:
            out.append(float(r))
    return out


def c_extrema(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    ex = b.extrema
    order = len(ps) - 1
    per = []
    for d in (0, 1, 2):
        try:
            per.append([num(t, "extremum") for t in ex[d]])
        except (KeyError, IndexError, TypeError):
            fail("extrema has no list for key %d: %r", d, ex)
    lab = ["order%d" % order]
    h1 = geom.hodograph(ps)
    h2 = geom.hodograph(h1) if order == 3 else None
    noise = 1e-12 * geom.scale_of(ps)
    for d in (0, 1):
        c1 = [p[d] for p in h1]
        c2 = [p[d] for p in h2] if h2 else None
        sc = float(max(abs(x) for x in c1)) or 1.0
        sc2 = max(float(max(abs(x) for x in c2)), sc) if c2 else None
        for t in per[d]:
            require(0 <= t <= 1, "extremum parameter %r outside [0, 1]", t)
            v1 = abs(float(geom.polyval(geom.power(c1), F(t))))
            ok = v1 <= 1e-9 * sc + noise
            if not ok and c2:
                ok = abs(float(geom.polyval(geom.power(c2), F(t)))) <= 1e-9 * sc2 + noise
            require(ok, "extrema[%d] contains %r, where the derivative is %r, not 0 (control points %r)", d, t, v1, ps)
        # derivatives that vanish identically up to rounding have no meaningful zeros
        want = roots_of(c1) if sc > 1e4 * noise else []
        if c2 and float(max(abs(x) for x in c2)) > max(1e4 * noise, 1e-7 * sc):
            want += roots_of(c2)
        for t in want:
            require(any(close(t, g, 1e-8) for g in per[d]), "extrema[%d] = %r misses the zero of the derivative at %r (control points %r)", d, per[d], t, ps)
            lab.append("*extremum present")
        # zeros right at an end, where the arithmetic is exact
        if all(isinstance(v, int) and abs(v) <= 2 ** 20 for p in ps for v in p):
            for c in (c1, c2) if c2 else (c1,):
                for t, at, slope in ((0, c[0], c[1] - c[0]), (1, c[-1], c[-1] - c[-2])) if len(c) > 1 else ():
                    if at == 0 and slope != 0 and sc > 1e4 * noise:
                        require(any(close(t, g, 1e-8) for g in per[d]), "extrema[%d] = %r misses the zero of the derivative at the end %r (control points %r)", d, per[d], t, ps)
                        lab.append("*extremum at an end")
    u = sorted(set(per[0]) | set(per[1]))
    require(per[2] == u, "extrema[2] = %r is not the sorted union of %r and %r", per[2], per[0], per[1])
    return lab


def c_overlaps(case):
    p, q = geom.tup(case["p"]), geom.tup(case["q"])
    a, b = Bezier(list(p)), Bezier(list(q))
    A, B = geom.bbox(p), geom.bbox(q)
    exact = len(p) == 2 and len(q) == 2
    t = 0 if exact else 1e-9 * geom.scale_of(p, q)
    gap = max(max(A[d][0], B[d][0]) - min(A[d][1], B[d][1]) for d in (0, 1))
    got = (bool(a.overlaps(b)), bool(b.overlaps(a)))
    if gap > t:
        require(got == (False, False), "overlaps = %r for boxes %r and %r that are apart", got, A, B)
        return "*apart"
    if gap <= -t:
        require(got == (True, True), "overlaps = %r for boxes %r and %r that meet", got, A, B)
        return "*touching" if gap == 0 else "*overlapping"
    return "undecided"


pair = st.sampled_from(gen.ALL).flatmap(lambda f: st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3), [f]), q=gen.curve((1, 2, 3), [f]))))

far = st.one_of(*[st.just([0, 0])] * 3, st.tuples(*[st.tuples(gen.ints(-9, 9), gen.ints(0, 11)).map(lambda t: t[0] * 10 ** t[1])] * 2).map(list))

CLAUSES = [
    Clause("bbox", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 3, 3)), first=st.sampled_from(["rect", "bbox"]), far=far)), c_box, quick=10200, thorough=100000, shards=3,
           rule="an extreme coordinate is reached strictly inside the parameter range"),
    Clause("extrema", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 3)))), c_extrema, quick=6800, thorough=80000, shards=3,
           rule="a well-conditioned zero of a derivative lies strictly inside (0,1)"),
    Clause("skeleton", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 3, 4, 5, 6, 8)), warm=st.lists(st.sampled_from(["bbox", "boundsRectangle", "skeletonBounds", "extrema"]), max_size=2))), c_skeleton, quick=1000, thorough=8000, rule="every case"),
    Clause("overlaps", pair, c_overlaps, quick=3400, thorough=30000, shards=1, rule="the boxes' relation is decided beyond rounding"),
]
