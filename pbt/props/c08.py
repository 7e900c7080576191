"""C08 reduce() tiles a curve with simple pieces."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from .c04 import roots_of
from PathLib.Bezier import Bezier


def fsub(ps, a, b):
    """Control points of the part on [a, b], in floats by blossoming."""
    n = len(ps) - 1
    out = []
    for i in range(n + 1):
        q = [(float(x), float(y)) for x, y in ps]
        for u in [a] * (n - i) + [b] * i:
            q = [(p[0] + (r[0] - p[0]) * u, p[1] + (r[1] - p[1]) * u) for p, r in zip(q, q[1:])]
        out.append(q[0])
    return out


def diffs(q):
    """First, second, ... differences of the control points at the start."""
    out = []
    q = list(q)
    while len(q) > 1:
        q = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(q, q[1:])]
        out.append(q[0])
    return out


def dist(p, q):
    return max(max(abs(a[0] - b[0]), abs(a[1] - b[1])) for a, b in zip(p, q))


def tile(ps, pieces, tol, known):
    """The interval ends of consecutive pieces, recovered from the geometry alone."""
    bounds = [0.0]
    for k, piece in enumerate(pieces):
        a = bounds[-1]
        rest = diffs(fsub(ps, a, 1.0))
        best = None
        cand = [1.0] + [t for t in known if t > a - 1e-12]
        for j, (d, r) in enumerate(zip(diffs(piece), rest), 1):
            h = math.hypot(*r)
            if h > 0:
                cand.append(a + (math.hypot(*d) / h) ** (1 / j) * (1 - a))
        for b in cand:
            b = min(max(b, a), 1.0)
            e = dist(piece, fsub(ps, a, b))
            # near-ties prefer the value that is not the forced end
            if best is None or e < best[0] * (1 - 1e-9):
                best = (e, b)
        # the ratio of differences is refined by local search, which matters only where they are tiny
        e, b = best
        if e > tol:
            for h in (1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9):
                for _ in range(40):
                    nb = min(((dist(piece, fsub(ps, a, x)), x) for x in (b - h, b + h) if a <= x <= 1), default=(e, b))
                    if nb[0] < e:
                        e, b = nb
                    else:
                        break
        if e > tol:
            # where the curve (nearly) stops, the end of the piece before doesn't tell this one's start
            p0 = fsub(ps, a, 1.0)[0]
            best = (e, a, b)
            for h in (1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9):
                for _ in range(60):
                    near = [(dist(piece, fsub(ps, x, y)), x, y) for x in (best[1] - h, best[1], best[1] + h) for y in (best[2] - h, best[2], best[2] + h)
                            if 0 <= x <= y <= 1 and dist([fsub(ps, x, 1.0)[0]], [p0]) <= tol]
                    if near and min(near)[0] < best[0]:
                        best = min(near)
                    else:
                        break
            e, a, b = best
            bounds[-1] = a
        require(e <= tol, "piece %d of reduce() = %r is not the part of %r that starts at t = %r (off by %g)", k, piece, ps, a, e)
        bounds.append(b)
    return bounds


def direction(q, eps=1e-7):
    for a in q[1:]:
        if max(abs(a[0] - q[0][0]), abs(a[1] - q[0][1])) > eps * geom.scale_of(q):
            return (a[0] - q[0][0], a[1] - q[0][1])
    return None


def is_simple(q):
    """Simple with a little slack; None when the directions are not decidable."""
    d0 = direction(q)
    d1 = direction(q[::-1])
    if d0 is None or d1 is None:
        return None
    d1 = (-d1[0], -d1[1])
    ang = abs(math.degrees(math.atan2(d0[0] * d1[1] - d0[1] * d1[0], d0[0] * d1[0] + d0[1] * d1[1])))
    if ang > 60 + 1e-3:
        return False
    if len(q) == 4:
        c = (q[3][0] - q[0][0], q[3][1] - q[0][1])
        s = []
        for p in q[1:3]:
            v = (p[0] - q[0][0], p[1] - q[0][1])
            x = c[0] * v[1] - c[1] * v[0]
            m = math.hypot(*c) * math.hypot(*v)
            s.append(0 if abs(x) <= 1e-6 * m + 1e-9 * geom.scale_of(q) * math.hypot(*c) else math.copysign(1, x))
        if s[0] * s[1] < 0:
            return False
    return True


def reduced(ps, warm=()):
    b = Bezier(list(ps))
    for w in warm:
        getattr(b, w)
    pieces = seq(b.reduce(), "reduce()")
    require([tuple(p) for p in b.controlPoints] == ps, "reduce() altered the curve")
    return b, [points(p.controlPoints, "piece of reduce()", len(ps)) for p in pieces]


def c_tiles(case):
    ps = geom.tup(case["p"])
    if geom.extent(ps) == 0:
        b, pieces = reduced(ps, case["warm"])
        tol = 1e-12 * geom.scale_of(ps)
        require(all(pclose(q, ps[0], tol) for p in pieces for q in p), "reduce() of the point %r is %r", ps, pieces)
        return "point"
    sc = geom.scale_of(ps)
    b, pieces = reduced(ps, case["warm"])
    if not pieces:
        return "empty"
    tol = 1e-8 * sc
    fps = [geom.f2(p) for p in ps]
    require(pclose(pieces[0][0], fps[0], 1e-12 * sc) and pclose(pieces[-1][-1], fps[-1], 1e-12 * sc),
            "reduce() of %r runs from %r to %r", ps, pieces[0][0], pieces[-1][-1])
    for k, (p, q) in enumerate(zip(pieces, pieces[1:])):
        require(pclose(p[-1], q[0], 1e-11 * sc), "piece %d ends at %r, the next one starts at %r", k, p[-1], q[0])
    order = len(ps) - 1
    h1 = geom.hodograph(ps)
    h2 = geom.hodograph(h1)
    known, second = [], []
    for d in (0, 1):
        known += roots_of([p[d] for p in h1])
        if order == 3 and float(max(abs(p[d]) for p in h2)) > 1e-6 * sc:
            second += roots_of([p[d] for p in h2])
    bounds = tile(fps, pieces, tol, known + second)
    fwd = fsub(fps, bounds[-2], 1.0)
    require(dist(pieces[-1], fwd) <= tol, "the last piece of reduce() of %r is %r, but the curve from t = %r to the end is %r", ps, pieces[-1], bounds[-2], fwd)
    lab = ["order%d" % order]
    speed_ok = min(math.hypot(*diffs(fsub(fps, t / 50, 1.0))[0]) / (1 - t / 50) for t in range(50)) > 1e-3 * sc
    for k, p in enumerate(pieces):
        for d in (0, 1):
            lo, hi = geom.extremes([F(q[d]) for q in p])
            e = sorted((p[0][d], p[-1][d]))
            require(float(lo) >= e[0] - 1e-7 * sc and float(hi) <= e[1] + 1e-7 * sc,
                    "piece %d of reduce() = %r was not cut at its extremum in dimension %d", k, p, d)
    if speed_ok:
        for t in known + second:
            require(any(close(t, x, 1e-5) for x in bounds), "reduce() of %r cuts at %r, not at the extremum %r", ps, bounds, t)
            lab.append("*cut at extremum")
        for k, p in enumerate(pieces):
            a, e = bounds[k], bounds[k + 1]
            if e - a <= 0.0105:
                continue
            states = [is_simple(p)] + [is_simple(fsub(fps, a, e - j * 0.0105 / 20)) for j in range(1, 21)]
            require(any(s is not False for s in states), "piece %d of reduce() = %r is not simple", k, p)
        lab.append("*several pieces" if len(pieces) > 1 else "*one piece")
    else:
        lab.append("nearly singular")
    return lab


def c_tame(case):
    ps = geom.tup(case["p"])
    b, pieces = reduced(ps)
    require(pieces, "reduce() of the gently turning curve %r is empty", ps)
    if len(pieces) == 1:
        # the step search may overshoot by one step
        states = [is_simple(fsub(pieces[0], 0, 1 - j * 0.0105 / 20)) for j in range(21)]
        require(any(x is not False for x in states), "reduce() leaves %r in one piece, which is not simple", ps)
    got = b.simple()
    d = direction(ps), direction(ps[::-1])
    turn = abs(math.degrees(math.atan2(d[0][0] * -d[1][1] + d[0][1] * d[1][0], -d[0][0] * d[1][0] - d[0][1] * d[1][1])))
    if abs(turn - 60) > 0.01:
        require(bool(got) == (turn < 60), "simple() of %r, whose ends turn by %r degrees, is %r", ps, turn, got)
    tile(ps, pieces, 1e-8 * geom.scale_of(ps), [])
    return "*turns by 60 or more" if turn >= 60 else "*turns by less than 60"


def c_simple(case):
    ps = geom.tup(case["p"])
    d0, d1 = direction(ps, 0), direction(ps[::-1], 0)
    if d0 is None or d1 is None or min(math.hypot(*d0), math.hypot(*d1)) < 1e-3 * geom.scale_of(ps):
        Bezier(list(ps)).simple() if geom.extent(ps) > 0 else None
        return "no direction"
    got = Bezier(list(ps)).simple()
    d1 = (-d1[0], -d1[1])
    ang = abs(math.degrees(math.atan2(d0[0] * d1[1] - d0[1] * d1[0], d0[0] * d1[0] + d0[1] * d1[1])))
    want = ang < 60
    sure = abs(ang - 60) > 1e-4
    sides = ""
    if len(ps) == 4:
        c = [F(ps[3][i]) - F(ps[0][i]) for i in (0, 1)]
        x = [c[0] * (F(p[1]) - F(ps[0][1])) - c[1] * (F(p[0]) - F(ps[0][0])) for p in ps[1:3]]
        lim = 1e-9 * geom.scale_of(ps) ** 2
        if all(abs(v) > lim for v in x):
            if (x[0] > 0) != (x[1] > 0):
                want, sure, sides = False, True, "*opposite sides"
        else:
            sure = False if want else sure
    if not sure:
        return "undecided"
    require(bool(got) == want, "simple() of %r is %r: end normals %r degrees apart%s", ps, got, ang, sides and ", control points on opposite sides")
    return [sides or ("*simple" if want else "*turns too much")]


@st.composite
def barely(draw):
    """Ends turning by about 60 degrees: right at the limit of simplicity."""
    a = math.radians(draw(gen.ints(0, 3599)) / 10)
    turn = draw(st.sampled_from([1, -1])) * (60 + draw(st.sampled_from([1, -1])) * 10.0 ** -draw(gen.ints(0, 3)))
    n = draw(st.sampled_from([2, 2, 3]))
    out = [[float(v) for v in draw(gen.pt("font"))]]
    for i in range(n):
        b = a + math.radians(turn) * i / (n - 1)
        r = draw(gen.ints(5, 400))
        out.append([out[-1][0] + r * math.cos(b), out[-1][1] + r * math.sin(b)])
    return out


warm = st.lists(st.sampled_from(["bbox", "extrema", "length", "boundsRectangle"]), max_size=2)
CLAUSES = [
    Clause("tiles", st.fixed_dictionaries(dict(p=st.one_of(gen.curve((2, 3, 3)), gen.curve((2, 3, 3)), gen.tame_curve()), warm=warm)), c_tiles, quick=4000, thorough=60000, shards=5,
           rule="reduce() gave pieces and the curve has no (near) stationary point"),
    Clause("tame", st.fixed_dictionaries(dict(p=st.one_of(gen.tame_curve(), gen.tame_curve(turn=80), gen.tame_curve(turn=80)))), c_tame, quick=1250, thorough=12000, shards=2, rule="every case"),
    Clause("simple", st.fixed_dictionaries(dict(p=st.one_of(gen.curve((2, 3, 3)), gen.tame_curve(), barely()))), c_simple, quick=7500, thorough=60000, shards=1, rule="simplicity is decided beyond rounding"),
]
