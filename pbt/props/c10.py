"""C10 Curve-curve and self intersections are found and located."""
import math
import cmath
import random
import numpy as np
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def pairs_of(r, what):
    out = []
    for x in seq(r, what):
        try:
            a, b = x
        except (TypeError, ValueError):
            fail("%s contains %r, not a pair", what, x)
        out.append((num(a), num(b)))
    return out


def sound(p, q, got, th, what):
    sc = geom.scale_of(p, q)
    for a, b in got:
        require(-1e-9 <= a <= 1 + 1e-9 and -1e-9 <= b <= 1 + 1e-9, "%s contains %r", what, (a, b))
        u, v = geom.bernf(p, a), geom.bernf(q, b)
        require(pclose(u, v, 2 * th + 1e-9 * sc), "%s of %r and %r with threshold %r contains %r, but the points there, %r and %r, are apart", what, p, q, th, (a, b), u, v)


def near(got, p, q, X, th, sc):
    return any(pclose(geom.bernf(p, a), X, th + 1e-9 * sc) and pclose(geom.bernf(q, b), X, th + 1e-9 * sc) for a, b in got)


def deriv(p, t):
    h = [(len(p) - 1) * (b[0] - a[0]) + 1j * (len(p) - 1) * (b[1] - a[1]) for a, b in zip(p, p[1:])]
    while len(h) > 1:
        h = [a + (b - a) * t for a, b in zip(h, h[1:])]
    return h[0]


def angle(p, s, q, u):
    a, b = deriv(p, s), deriv(q, u)
    if abs(a) < 1e-6 or abs(b) < 1e-6:
        return 0.0
    x = abs(math.degrees(cmath.phase(b / a)))
    return min(x, 180 - x)


def ask(p, q, th):
    a, b = Bezier(list(p)), Bezier(list(q))
    r = a.intersects(b) if th is None else a.intersects(b, th)
    require([tuple(x) for x in a.controlPoints] == p and [tuple(x) for x in b.controlPoints] == q, "intersects altered a curve")
    return pairs_of(r, "intersects")


def threshold(case, *ps):
    """The threshold asked for and its value: the default, or a fraction of the extent."""
    e = max(geom.extent(p) for p in ps)
    th = case["th"]
    if th == "default":
        if 20 <= e <= 3000:
            return None, 0.5
        th = 0.003
    v = max(th * e, 1e-6)
    return v, v


def c_made(case):
    """Two curves placed to cross at chosen parameters."""
    p = geom.tup(case["p"])
    q0 = geom.tup(case["q"])
    s, u = case["s"], case["u"]
    A, B = deriv(p, s), deriv(q0, u)
    if abs(A) < 1e-6 or abs(B) < 1e-6:
        return "stationary"
    X = geom.bernf(p, s)
    rot = cmath.exp(1j * math.radians(case["ang"])) * (A / abs(A)) / (B / abs(B)) if case["ang"] is not None else 1
    Y = geom.bernf(q0, u)
    q = []
    for x, y in q0:
        z = complex(x - Y[0], y - Y[1]) * rot
        q.append((z.real + X[0], z.imag + X[1]))
    if case["grid"]:
        p = [tuple(round(v * 4) / 4 for v in x) for x in p]
        q = [tuple(round(v * 4) / 4 for v in x) for x in q]
    th, thv = threshold(case, p, q)
    got = ask(p, q, th)
    sound(p, q, got, thv, "intersects")
    sc = geom.scale_of(p, q)
    lab = ["default threshold" if th is None else "threshold %g" % case["th"] if case["th"] != "default" else "threshold 0.003"]
    if not Bezier(list(p)).reduce() or not Bezier(list(q)).reduce():
        return lab + ["irreducible"]
    if not case["grid"] and angle(p, s, q, u) > 10:
        require(near(got, p, q, X, thv, sc), "intersects of %r and %r with threshold %r = %r misses the crossing at t = %r, %r", p, q, thv, got, s, u)
        back = ask(q, p, th)
        sound(q, p, back, thv, "intersects")
        require(near(back, q, p, X, thv, sc), "intersects of %r and %r with threshold %r = %r misses the crossing at t = %r, %r", q, p, thv, back, u, s)
        lab.append("*made crossing")
    for (a, b, Z) in polyline_crossings(p, q):
        require(near(got, p, q, Z, thv, sc), "intersects of %r and %r with threshold %r = %r misses the crossing near t = %r, %r", p, q, thv, got, a, b)
        lab.append("*found crossing")
    return lab


def cut(b, ops):
    """Successive splits of a curve; the interval of the source that is left."""
    a, z = 0.0, 1.0
    for kind, x, y in ops:
        x, y = min(x, y), max(x, y)
        if kind == "between":
            if y - x < 0.2:
                continue
            b = b.split(x, y)
            a, z = a + (z - a) * x, a + (z - a) * y
        else:
            x = min(0.8, max(0.2, x))
            l, r, _ = b.split(x)
            m = a + (z - a) * x
            b, a, z = (l, a, m) if kind == "left" else (r, m, z)
    return b, a, z


def c_pieces(case):
    """Curves that are pieces of other curves."""
    p, q0 = geom.tup(case["p"]), geom.tup(case["q"])
    if min(geom.extent(p), geom.extent(q0)) == 0 or case["how"] != "intersects" and (flat(p) or flat(q0)):
        return "point or straight"
    _, a, z = cut(Bezier(list(p)), case["cp"])
    _, c, w = cut(Bezier(list(q0)), case["cq"])
    s, u = a + (z - a) * case["s"], c + (w - c) * case["u"]
    A, B = deriv(p, s), deriv(q0, u)
    if abs(A) < 1e-6 or abs(B) < 1e-6:
        return "stationary"
    X, Y = geom.bernf(p, s), geom.bernf(q0, u)
    rot = cmath.exp(1j * math.radians(case["ang"])) * (A / abs(A)) / (B / abs(B))
    q = [(v.real + X[0], v.imag + X[1]) for v in (complex(x - Y[0], y - Y[1]) * rot for x, y in q0)]
    P, Q = Bezier(list(p)), Bezier(list(q))
    for name in case["warm"]:
        getattr(P, name), getattr(Q, name)
    b1, b2 = cut(P, case["cp"])[0], cut(Q, case["cq"])[0]
    p1, q1 = points(b1.controlPoints, "piece"), points(b2.controlPoints, "piece")
    sc = geom.scale_of(p, q)
    th = case["th"] * max(geom.extent(p1), geom.extent(q1))
    what = "(pieces [%r, %r] and [%r, %r] of %r and %r)" % (a, z, c, w, p, q)
    ok = angle(p, s, q, u) > 10
    if case["how"] == "intersects":
        # a piece is a curve of its own: its parameters run from 0 to 1
        got = pairs_of(b1.intersects(b2, th), "intersects")
        sound(p1, q1, got, th, "intersects " + what)
        if not b1.reduce() or not b2.reduce():
            return "irreducible"
        if ok:
            require(near(got, p1, q1, X, th, sc), "intersects %s with threshold %r = %r misses the crossing at %r, %r of the way", what, th, got, case["s"], case["u"])
    else:
        # pieces given as such are located on the curves they were split off
        m = {"pieces": lambda: ([b1], [b2]), "halves": lambda: (list(P.split(s * 0.7 + 0.1)[:2]), [b2]), "reduced": lambda: (P.reduce(), [b2])}[case["how"]]()
        if not m[0]:
            return "irreducible"
        got = pairs_of(Bezier.curveIntersects(m[0], m[1], th), "curveIntersects")
        sound(p, q, got, th, "curveIntersects " + what)
        if ok:
            require(near(got, p, q, X, th, sc), "curveIntersects (%s) %s with threshold %r = %r misses the crossing at %r, %r", case["how"], what, th, got, s, u)
        for x, y, Z in polyline_crossings(p, q):
            if c + 0.01 < y < w - 0.01 and (case["how"] != "pieces" or a + 0.01 < x < z - 0.01):
                require(near(got, p, q, Z, th, sc), "curveIntersects (%s) %s with threshold %r = %r misses the crossing near %r, %r", case["how"], what, th, got, x, y)
    return ["*" + case["how"], "whole curves" if z - a == 1 == w - c else "proper pieces"] if ok else "flat angle"


def samples(p, n):
    t = np.linspace(0, 1, n + 1)
    m = len(p) - 1
    z = sum(math.comb(m, i) * t ** i * (1 - t) ** (m - i) * complex(*p[i]) for i in range(m + 1))
    return t, z


def polyline_crossings(p, q, n=160):
    """Transversal crossings of two curves, away from their ends and refined by Newton's method."""
    t, z = samples(p, n)
    u, w = samples(q, n)
    dz, dw = z[1:] - z[:-1], w[1:] - w[:-1]
    den = dz.real[:, None] * dw.imag[None, :] - dz.imag[:, None] * dw.real[None, :]
    g = w[None, :-1] - z[:-1, None]
    with np.errstate(all="ignore"):
        a = (g.real * dw.imag[None, :] - g.imag * dw.real[None, :]) / den
        b = (g.real * dz.imag[:, None] - g.imag * dz.real[:, None]) / den
    out = []
    for i, j in zip(*np.nonzero((a >= 0) & (a <= 1) & (b >= 0) & (b <= 1))):
        s, v = (i + a[i, j]) / n, (j + b[i, j]) / n
        ok = False
        for _ in range(20):
            P, Q = geom.bernf(p, s), geom.bernf(q, v)
            A, B = deriv(p, s), deriv(q, v)
            e = complex(Q[0] - P[0], Q[1] - P[1])
            D = A.real * -B.imag + A.imag * B.real
            if D == 0:
                break
            ds = (e.real * -B.imag + e.imag * B.real) / D
            dv = (A.real * e.imag - A.imag * e.real) / D
            s, v = s + ds, v + dv
            if not (-1 < s < 2 and -1 < v < 2):
                break
            if abs(ds) + abs(dv) < 1e-13:
                ok = True
                break
        if ok and 1e-6 < s < 1 - 1e-6 and 1e-6 < v < 1 - 1e-6 and angle(p, s, q, v) > 10:
            Z = geom.bernf(p, s)
            if not any(abs(s - o[0]) + abs(v - o[1]) < 1e-9 for o in out):
                out.append((s, v, Z))
    return out


def c_free(case):
    p, q = geom.tup(case["p"]), geom.tup(case["q"])
    if geom.extent(p) == 0 or geom.extent(q) == 0:
        return "point"
    th, thv = threshold(case, p, q)
    got = ask(p, q, th)
    sound(p, q, got, thv, "intersects")
    lab = ["pairs reported"] if got else []
    if min(geom.extent(p), geom.extent(q)) < 1:
        return lab + ["tiny"]
    if not Bezier(list(p)).reduce() or not Bezier(list(q)).reduce():
        return lab + ["irreducible"]
    sc = geom.scale_of(p, q)
    for (a, b, Z) in polyline_crossings(p, q):
        require(near(got, p, q, Z, thv, sc), "intersects of %r and %r with threshold %r = %r misses the crossing near t = %r, %r", p, q, thv, got, a, b)
        lab.append("*found crossing")
    return lab or "*apart"


def loop(ps):
    """Parameters s < t in the real line with B(s) = B(t) for a cubic, or None."""
    P = [complex(*p) for p in ps]
    a = P[3] - 3 * P[2] + 3 * P[1] - P[0]
    b = 3 * (P[2] - 2 * P[1] + P[0])
    c = 3 * (P[1] - P[0])
    cross = lambda x, y: x.real * y.imag - x.imag * y.real
    ba = cross(b, a)
    size = max(abs(a), abs(b), abs(c))
    if size == 0 or abs(ba) < 1e-6 * size * size:
        return None
    u = -cross(c, a) / ba
    v = u * u + ((b * u + c) * a.conjugate()).real / abs(a) ** 2
    disc = u * u - 4 * v
    if disc <= 0:
        return None
    r = math.sqrt(disc)
    return (u - r) / 2, (u + r) / 2


def flat(p):
    """All control points (nearly) on one line: such a curve may run back over itself."""
    z = [complex(*x) for x in p]
    a, b = max(((u, v) for u in z for v in z), key=lambda t: abs(t[0] - t[1]))
    d = (b - a) / abs(b - a)
    return all(abs(((x - a) / d).imag) <= 1e-3 * abs(b - a) for x in z)


def c_self(case):
    p = geom.tup(case["p"])
    if geom.extent(p) == 0 or flat(p):
        return "point or straight"
    th, thv = threshold(case, p)
    b = Bezier(list(p))
    call = {"self": lambda: b.selfIntersects() if th is None else b.selfIntersects(th),
            "none": lambda: b.intersects(None) if th is None else b.intersects(None, th)}[case["via"]]
    got = pairs_of(call(), "selfIntersects")
    sound(p, p, got, thv, "selfIntersects")
    l = loop(p) if len(p) == 4 else None
    if l is None:
        return "no loop"
    s, t = l
    if not (0.01 < s and t < 0.99):
        return "no loop"
    if t - s < 0.05 or angle(p, s, p, t) < 10:
        return "tight loop"
    if not b.reduce():
        return "irreducible"
    X = geom.bernf(p, s)
    sc = geom.scale_of(p)
    sp = max(abs(deriv(p, s)), 1e-9), max(abs(deriv(p, t)), 1e-9)
    ok = any(pclose(geom.bernf(p, x), X, thv + 1e-9 * sc) and pclose(geom.bernf(p, y), X, thv + 1e-9 * sc) and abs(x - y) > (t - s) / 2 for x, y in got)
    require(ok, "selfIntersects of %r with threshold %r = %r misses the self-crossing at t = %r and %r", p, thv, got, s, t)
    return "*loop"


def c_none(case):
    p = geom.tup(case["p"])
    th, thv = threshold(case, p)
    b = Bezier(list(p))
    got = pairs_of(b.selfIntersects() if th is None else b.selfIntersects(th), "selfIntersects")
    require(not got, "selfIntersects of the curve %r with threshold %r, which turns by less than 180 degrees, = %r", p, thv, got)
    return "*none"


ths = st.sampled_from(["default", "default", 0.01, 0.003, 0.001, 0.03])
param = st.one_of(st.sampled_from([0.5, 0.25, 0.75, 0.125, 0.1, 0.9]), gen.ints(20, 980).map(lambda n: n / 1000), st.sampled_from([0.001, 0.002, 0.005, 0.01, 0.99, 0.995, 0.998, 0.999]))
nice = gen.tame_curve(turn=60)


@st.composite
def loopy(draw):
    f = draw(st.sampled_from(["font", "half", "noisy"]))
    x, y = draw(gen.pt(f))
    w, h = draw(gen.ints(20, 400)), draw(gen.ints(60, 800))
    k = draw(gen.ints(-40, 40))
    over = draw(gen.ints(10, 400))
    q = [[0, 0], [w + over, h + k], [-over + draw(gen.ints(-10, 10)), h], [w, draw(gen.ints(-60, 60))]]
    a = math.radians(draw(gen.ints(0, 359)))
    c, s = math.cos(a), math.sin(a)
    q = [[x + u * c - v * s, y + u * s + v * c] for u, v in q]
    if draw(st.booleans()):
        q.reverse()
    return q


@st.composite
def latecomer(draw):
    """Loops anywhere in the curve, often near one end: the part of a cubic from before
    its self-crossing to well after it, or the other way round."""
    q = draw(loopy())
    l = loop([tuple(x) for x in q])
    if l is None or l[1] - l[0] < 0.05:
        return q
    s, t = l
    d = t - s
    a = s - d * draw(gen.ints(3, 300)) / 100
    b = t + d * draw(gen.ints(3, 300)) / 100
    n = len(q) - 1
    out = []
    for i in range(n + 1):
        p = [complex(*x) for x in q]
        for u in [a] * (n - i) + [b] * i:
            p = [x + (y - x) * u for x, y in zip(p, p[1:])]
        out.append([p[0].real, p[0].imag])
    # keep the size moderate
    e = geom.extent(out)
    k = 300 / e if e > 3000 else 1
    if k != 1:
        x, y = out[0]
        out = [[x + (u - x) * k, y + (v - y) * k] for u, v in out]
    if draw(st.booleans()):
        out.reverse()
    return out


@st.composite
def looping(draw):
    """A cubic with a loop of any shape: handles in all directions, ends anywhere (the
    first that has a self-crossing among some drawn with a seed)."""
    r = random.Random(draw(gen.ints(0, 2 ** 40)))
    w = draw(gen.ints(1, 100)) / 50
    digits = draw(gen.ints(0, 3))
    box = draw(st.sampled_from([60, 60, 150]))
    for _ in range(40):
        a, b = r.uniform(-100, 100), r.uniform(-100, 100)
        q = [(0, 0), (a + r.uniform(-200, 200), b + r.uniform(-200, 200)), (a + r.uniform(-250, 250), b + r.uniform(-250, 250)), (r.uniform(-box, box), r.uniform(-box, box))]
        q = [(round(x * w, digits), round(y * w, digits)) for x, y in q]
        l = loop(q)
        if l and 0.02 < l[0] and l[1] < 0.98 and l[1] - l[0] > 0.06:
            break
    return [list(x) for x in q]


made = st.fixed_dictionaries(dict(p=nice, q=nice, s=param, u=param, ang=st.one_of(st.none(), gen.ints(15, 165), gen.ints(195, 345), st.sampled_from([90, 270])),
                                  th=ths, grid=st.sampled_from([False, False, True])))
cuts = st.one_of(st.just([]), st.lists(st.tuples(st.sampled_from(["left", "right", "between"]), gen.unit, gen.unit).map(list), min_size=0, max_size=3))
wild = gen.curve((2, 3, 3), ["font", "half", "noisy"])
pieces = st.fixed_dictionaries(dict(p=st.one_of(nice, wild), q=st.one_of(nice, wild), cp=cuts, cq=cuts, s=param, u=param, ang=gen.ints(15, 165) | gen.ints(195, 345), th=st.sampled_from([0.01, 0.003, 0.001, 0.03]),
                                    how=st.sampled_from(["intersects", "pieces", "pieces", "halves", "reduced"]), warm=st.lists(st.sampled_from(["length", "bbox", "extrema", "boundsRectangle", "dcPoints"]), max_size=2)))
free = st.sampled_from(["small", "font", "half", "noisy"]).flatmap(lambda f: st.fixed_dictionaries(dict(p=gen.curve((2, 3), [f]), q=gen.curve((2, 3), [f]), th=st.sampled_from([0.01, 0.02, 0.03]))))
CLAUSES = [
    Clause("made", made, c_made, quick=700, thorough=16000, shards=5, rule="a transversal crossing was constructed or found by the reference search"),
    Clause("pieces", pieces, c_pieces, quick=1200, thorough=16000, shards=4, rule="a transversal crossing was constructed inside both pieces"),
    Clause("free", free, c_free, quick=600, thorough=16000, shards=4, rule="a transversal crossing found by the reference search, or curves apart"),
    Clause("self", st.fixed_dictionaries(dict(p=st.one_of(loopy(), latecomer(), looping(), looping(), looping(), gen.curve((2, 3, 3), ["small", "font", "half"])), th=st.sampled_from(["default", 0.01, 0.003]), via=st.sampled_from(["self", "none"]))),
           c_self, quick=1500, thorough=30000, shards=5, rule="the cubic has a transversal self-crossing inside its parameter range"),
    Clause("none", st.fixed_dictionaries(dict(p=st.one_of(gen.tame_curve(), gen.tame_curve(turn=60)), th=st.sampled_from(["default", 0.003]))), c_none, quick=800, thorough=20000, shards=3, rule="every case"),
]
