"""Independent reference geometry: exact rational arithmetic where it matters."""
import math
from fractions import Fraction as F
from math import comb


def fr(p):
    return (F(p[0]), F(p[1]))


def scale_of(*lists):
    """Largest coordinate magnitude (at least 1)."""
    m = 1.0
    for l in lists:
        for p in l:
            m = max(m, abs(float(p[0])), abs(float(p[1])))
    return m


def extent(ps):
    xs = [float(p[0]) for p in ps]
    ys = [float(p[1]) for p in ps]
    return max(max(xs) - min(xs), max(ys) - min(ys))


def tup(ps):
    return [tuple(p) for p in ps]


def bern(ps, t):
    """Exact Bernstein value at t (Fractions)."""
    n = len(ps) - 1
    t = F(t)
    s = 1 - t
    x = y = F(0)
    for i, p in enumerate(ps):
        w = comb(n, i) * t ** i * s ** (n - i)
        x += w * F(p[0])
        y += w * F(p[1])
    return (x, y)


def bernf(ps, t):
    """Float evaluation by de Casteljau (for dense sampling)."""
    p = [(float(a), float(b)) for a, b in ps]
    while len(p) > 1:
        p = [(a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t) for a, b in zip(p, p[1:])]
    return p[0]


def hodograph(ps):
    """Exact control points of the derivative."""
    n = len(ps) - 1
    q = [fr(p) for p in ps]
    return [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(q, q[1:])]


def blossom(ps, args):
    q = [fr(p) for p in ps]
    for u in args:
        u = F(u)
        q = [(a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u) for a, b in zip(q, q[1:])]
    return q[0]


def subcurve(ps, a, b):
    """Exact control points of the part of the curve on [a, b]."""
    n = len(ps) - 1
    a, b = F(a), F(b)
    return [blossom(ps, [a] * (n - i) + [b] * i) for i in range(n + 1)]


def f2(p):
    return (float(p[0]), float(p[1]))


def power(coef):
    """Bernstein coefficients (exact) -> power basis, low degree first."""
    n = len(coef) - 1
    c = [F(v) for v in coef]
    out = []
    for j in range(n + 1):
        s = F(0)
        for i in range(j + 1):
            s += (-1) ** (i + j) * comb(j, i) * c[i]
        out.append(comb(n, j) * s)
    return out


def polyval(c, t):
    r = F(0)
    for v in reversed(c):
        r = r * t + v
    return r


def polyder(c):
    return [i * v for i, v in enumerate(c)][1:]


def trim(c):
    c = list(c)
    while len(c) > 1 and c[-1] == 0:
        c.pop()
    return c


def isolate(c, lo=F(0), hi=F(1), eps=F(1, 2 ** 60)):
    """All sign-changing real roots of a polynomial of degree <= 3 (low degree first, exact) in
    [lo, hi] to within eps, as Fractions: recursion over derivative roots, bisection between them.
    Roots of even multiplicity are found too when a critical point is an exact or near-exact zero
    is NOT guaranteed; callers use this for sign changes only."""
    c = trim(c)
    if len(c) == 1:
        return []
    if len(c) == 2:
        r = -c[0] / c[1]
        return [r] if lo <= r <= hi else []
    crit = isolate(polyder(c), lo, hi, eps)
    knots = [lo] + [k for k in sorted(crit) if lo < k < hi] + [hi]
    roots = []
    for a, b in zip(knots, knots[1:]):
        fa, fb = polyval(c, a), polyval(c, b)
        if fa == 0:
            if not roots or abs(roots[-1] - a) > 2 * eps:
                roots.append(a)
            continue
        if fb == 0:
            roots.append(b)
            continue
        if (fa < 0) == (fb < 0):
            continue
        while b - a > eps:
            m = (a + b) / 2
            m = F(round(m * 2 ** 70), 2 ** 70)
            fm = polyval(c, m)
            if fm == 0:
                a = b = m
                break
            if (fm < 0) == (fa < 0):
                a = m
            else:
                b = m
        roots.append((a + b) / 2)
    return sorted(set(roots))


def extremes(coef):
    """Exact-enough (2^-60) minimum and maximum over [0,1] of the polynomial with the given
    Bernstein coefficients, as Fractions."""
    c = power(coef)
    cand = [F(0), F(1)] + isolate(polyder(c)) if len(c) > 1 else [F(0)]
    vals = [polyval(c, t) for t in cand]
    return min(vals), max(vals)


def bbox(ps):
    xlo, xhi = extremes([p[0] for p in ps])
    ylo, yhi = extremes([p[1] for p in ps])
    return (float(xlo), float(xhi)), (float(ylo), float(yhi))


def hyp(p):
    return math.hypot(float(p[0]), float(p[1]))


def nearest(ps, q, eps=None, good=None):
    """(distance, t) of the curve point nearest to q to within eps, by branch and bound on the
    convex hull of the control points. Stops early once a distance <= good has been found."""
    import heapq
    pts = [(float(x) - float(q[0]), float(y) - float(q[1])) for x, y in ps]
    if eps is None:
        eps = 1e-10 * scale_of(ps, [q])

    def low(c):
        # lower bound for the distance from the origin to the curve: distance to the
        # first control point minus the farthest any control point is from it
        return math.hypot(*c[0]) - max(math.hypot(p[0] - c[0][0], p[1] - c[0][1]) for p in c)

    best = min((math.hypot(*pts[0]), 0.0), (math.hypot(*pts[-1]), 1.0))
    heap = [(low(pts), 0, 0.0, 1.0, pts)]
    k = 0
    while heap:
        lo, _, a, b, c = heapq.heappop(heap)
        if lo >= best[0] - eps or (good is not None and best[0] <= good):
            break
        left, right = [c[0]], [c[-1]]
        while len(c) > 1:
            c = [((p[0] + r[0]) / 2, (p[1] + r[1]) / 2) for p, r in zip(c, c[1:])]
            left.append(c[0])
            right.append(c[-1])
        right.reverse()
        m = (a + b) / 2
        best = min(best, (math.hypot(*c[0]), m))
        if b - a < 1e-13:
            continue
        for s, e, d in ((a, m, left), (m, b, right)):
            l = low(d)
            if l < best[0] - eps:
                k += 1
                heapq.heappush(heap, (l, k, s, e, d))
    return best
