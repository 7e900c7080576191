"""C14 Bounds rectangles form a sound rectangle algebra."""
import copy
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.PathUtilities import BoundsRectangle as BR

REL = {BR.relationEncloses: "encloses", BR.relationEnclosed: "enclosed", BR.relationIntersects: "intersects", BR.relationSeparate: "separate"}


# ---- the model: None (empty) or (l, b, r, t) ----

def hull(ps):
    ps = list(ps)
    if not ps:
        return None
    xs, ys = [p[0] for p in ps], [p[1] for p in ps]
    return (min(xs), min(ys), max(xs), max(ys))


def m_union(a, b):
    if a is None or b is None:
        return a or b
    return (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))


def m_inter(a, b):
    if a is None or b is None:
        return None
    r = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    return r if r[0] <= r[2] and r[1] <= r[3] else None


def m_inside(a, p):
    return a is not None and a[0] <= p[0] <= a[2] and a[1] <= p[1] <= a[3]


def m_encloses(a, b):
    return a is not None and b is not None and a[0] <= b[0] and b[2] <= a[2] and a[1] <= b[1] and b[3] <= a[3]


def read(r, what):
    """Edges of a rectangle of the code under test; None if empty."""
    require(isinstance(r, BR), "%s is not a BoundsRectangle: %r", what, r)
    e = (r.left, r.bottom, r.right, r.top)
    if e[0] > e[2] and e[1] > e[3]:
        return None
    return tuple(num(v, what) for v in e)


def same(r, want, what):
    got = read(r, what)
    require(got == want, "%s is %r, expected %r (left, bottom, right, top)", what, got, want)


def probes(a, b):
    xs = sorted({v for r in (a, b) if r for v in (r[0], r[2])} | {0})
    ys = sorted({v for r in (a, b) if r for v in (r[1], r[3])} | {0})
    xs = xs + [(p + q) / 2 for p, q in zip(xs, xs[1:])] + [xs[0] - 1, xs[-1] + 1]
    ys = ys + [(p + q) / 2 for p, q in zip(ys, ys[1:])] + [ys[0] - 1, ys[-1] + 1]
    return xs, ys


def c_pair(case):
    P, Q = geom.tup(case["p"]), geom.tup(case["q"])
    require(len(REL) == 4, "relation constants are not distinct: %r", REL)
    P0, Q0 = copy.deepcopy(P), copy.deepcopy(Q)
    A, B = BR(*P), BR(*Q)
    a, b = hull(P), hull(Q)
    same(A, a, "BoundsRectangle of %r" % (P,))
    same(B, b, "BoundsRectangle of %r" % (Q,))
    same(A.union(B), m_union(a, b), "union of %r and %r" % (a, b))
    same(B.union(A), m_union(a, b), "union of %r and %r" % (b, a))
    i = m_inter(a, b)
    for X, Y, x, y in ((A, B, a, b), (B, A, b, a)):
        got = X.intersection(Y)
        if i is None:
            require(got is None, "intersection of %r and %r is %s, they have no common point", x, y, got)
        else:
            require(got is not None, "intersection of %r and %r is None, they share %r", x, y, i)
            same(got, i, "intersection of %r and %r" % (x, y))
        if x is None or y is not None:
            e = m_encloses(x, y)
            require(bool(X.encloses(Y)) == e, "%r encloses %r is %r", x, y, X.encloses(Y))
        if x is not None and y is not None:
            want = "encloses" if m_encloses(x, y) else "enclosed" if m_encloses(y, x) else "intersects" if i else "separate"
            got = REL.get(X.relationTo(Y), "unknown")
            # equal rectangles enclose each other
            ok = got == want or (x == y and got == "enclosed")
            require(ok, "relation of %r to %r is %s, expected %s", x, y, got, want)
    xs, ys = probes(a, b)
    for x in xs:
        require(bool(A.crossesX(x)) == (a is not None and a[0] <= x <= a[2]), "crossesX(%r) of %r is %r", x, a, A.crossesX(x))
        for y in ys:
            g = bool(A.enclosesPoint((x, y)))
            require(g == m_inside(a, (x, y)), "enclosesPoint(%r) of %r is %r", (x, y), a, g)
    for y in ys:
        require(bool(A.crossesY(y)) == (a is not None and a[1] <= y <= a[3]), "crossesY(%r) of %r is %r", y, a, A.crossesY(y))
    same(A, a, "rectangle after queries")
    same(B, b, "rectangle after queries")
    require(P == P0 and Q == Q0, "points were modified")
    if a is None or b is None:
        return "*empty"
    if a == b:
        return "*equal"
    return "*" + ("encloses" if m_encloses(a, b) else "enclosed" if m_encloses(b, a) else "separate" if i is None else
                  "touching" if i[0] == i[2] or i[1] == i[3] else "overlapping")


def c_one(case):
    P = geom.tup(case["p"])
    A = BR(*P)
    l, b, r, t = hull(P)
    same(A, (l, b, r, t), "BoundsRectangle of %r" % (P,))
    sc = max(1, *(abs(v) for v in (l, b, r, t)))
    e = 1e-12 * sc
    require(close(num(A.width), r - l, e) and close(num(A.height), t - b, e), "width, height of %r are %r, %r", (l, b, r, t), A.width, A.height)
    require(close(num(A.area), (r - l) * (t - b), 1e-12 * sc * sc), "area of %r is %r", (l, b, r, t), A.area)
    require(points(A.diagonal, "diagonal", 2) == [(l, b), (r, t)], "diagonal of %r is %r", (l, b, r, t), A.diagonal)
    require(pclose(point(A.centerPoint), ((l + r) / 2, (b + t) / 2), e), "centerPoint of %r is %r", (l, b, r, t), A.centerPoint)
    require(tuple(num(v) for v in seq(A.points, "points", 4)) == (l, b, r, t), "points of %r is %r", (l, b, r, t), A.points)
    f = case["f"]
    require(close(num(A.xFromLeft(f)), l + (r - l) * f, e * 3 * max(1, abs(f))), "xFromLeft(%r) of %r is %r", f, (l, b, r, t), A.xFromLeft(f))
    require(close(num(A.yFromBottom(f)), b + (t - b) * f, e * 3 * max(1, abs(f))), "yFromBottom(%r) of %r is %r", f, (l, b, r, t), A.yFromBottom(f))
    c = [points(s, "contour segment", 2) for s in seq(A.contour, "contour", 4)]
    for s, n in zip(c, c[1:] + c[:1]):
        require(s[1] == n[0], "contour of %r is not closed: %r", (l, b, r, t), c)
    require(sorted(s[0] for s in c) == sorted([(l, b), (l, t), (r, b), (r, t)]), "corners of the contour of %r are %r", (l, b, r, t), c)
    for (x0, y0), (x1, y1) in c:
        require(x0 == x1 or y0 == y1, "contour side of %r is diagonal: %r", (l, b, r, t), c)
    same(BR.fromContour(A.contour), (l, b, r, t), "fromContour(contour)")
    same(A, (l, b, r, t), "rectangle after queries")
    return "*%s" % ("point" if l == r and b == t else "flat" if l == r or b == t else "rectangle")


def c_contours(case):
    C = [[geom.tup(s) for s in c] for c in case["c"]]
    C0 = copy.deepcopy(C)
    same(BR.fromCoutours(C), hull(p for c in C for s in c for p in s), "fromCoutours(%r)" % (C,))
    for c in C:
        same(BR.fromContour(c), hull(p for s in c for p in s), "fromContour(%r)" % (c,))
    require(C == C0, "contours were modified")
    n = sum(len(c) for c in C)
    return "no segments" if n == 0 else ["*segments", "with empty contour" if not all(C) else "full"]


def c_chain(case):
    """union is associative, the empty rectangle neutral: folding any way gives the hull of all points"""
    G = [geom.tup(g) for g in case["g"]]
    total = hull(p for g in G for p in g)
    R = [BR(*g) for g in G]
    acc = BR()
    for x in R:
        acc = acc.union(x)
    same(acc, total, "union from the left of %r" % (G,))
    acc = BR()
    for x in reversed(R):
        acc = x.union(acc)
    same(acc, total, "union from the right of %r" % (G,))
    while len(R) > 1:
        R = [R[i].union(R[i + 1]) if i + 1 < len(R) else R[i] for i in range(0, len(R), 2)]
    if R:
        same(R[0], total, "pairwise union of %r" % (G,))
    return "*%s" % ("empty" if total is None else "mixed" if any(not g for g in G) else "full")


@st.composite
def pair(draw):
    """rectangles over few grid values, so that shared edges, touching and nesting are frequent"""
    k = draw(gen.ints(0, 5))
    if k < 2:
        return dict(p=draw(gen.pts_range(0, 4)), q=draw(gen.pts_range(0, 4)))
    f = gen.FLAVOURS[draw(st.sampled_from(gen.ALL))]
    off = draw(st.sampled_from([0, 0, 40000, -40000, 10 ** 6, -10 ** 6]))
    vs = [v + off for v in draw(st.lists(f, min_size=2, max_size=5))]
    ws = [v + draw(st.sampled_from([0, off, -off])) for v in draw(st.lists(f, min_size=2, max_size=5))]
    P = st.tuples(st.sampled_from(vs), st.sampled_from(ws)).map(list)
    return dict(p=draw(st.lists(P, min_size=1, max_size=4)), q=draw(st.lists(P, min_size=1, max_size=4)))


# segments of any number of points, single ones and none included
ragged = st.sampled_from(gen.ALL).flatmap(lambda f: st.lists(st.lists(gen.pt(f), max_size=5), max_size=6))


def groups(r, n):
    """points of n rectangles, some of them empty"""
    c = gen.rnd_coord(r)
    return [[[c(), c()] for _ in range(r.randint(0, 3))] for _ in range(n)]


CLAUSES = [
    Clause("pair", pair(), c_pair, quick=10200, thorough=80000, shards=3, rule="every case (relation label)"),
    Clause("one", st.fixed_dictionaries(dict(p=st.one_of(gen.pts_range(1, 5), gen.pts_range(1, 25)), f=st.one_of(gen.unit, gen.ints(-30, 30).map(lambda n: n / 10)))), c_one, quick=5100, thorough=40000, rule="every case"),
    Clause("contours", st.fixed_dictionaries(dict(c=gen.lists(st.one_of(gen.contour(0, 4), gen.contour(0, 4), st.just([]), ragged), 0, 4, 12))), c_contours, quick=2550, thorough=20000, rule="at least one segment"),
    Clause("chain", st.fixed_dictionaries(dict(g=gen.lists(gen.pts_range(0, 3), 0, 6, 20))), c_chain, quick=2550, thorough=20000, rule="every case"),
    Clause("many-points", st.fixed_dictionaries(dict(p=gen.seeded_log(gen.rnd_points, 12, 800), f=gen.unit)), c_one, quick=250, thorough=4000, rule="every case"),
    Clause("many-segments", st.fixed_dictionaries(dict(c=gen.seeded_log(gen.rnd_contours, 8, 600))), c_contours, quick=250, thorough=4000, rule="at least one segment"),
    Clause("many-rectangles", st.fixed_dictionaries(dict(g=gen.seeded_log(groups, 12, 500))), c_chain, quick=150, thorough=2000, rule="every case"),
]
