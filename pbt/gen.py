"""Strategies. Every strategy yields JSON-able values (lists of ints/floats/strings).

Coordinates are font-like numbers: integers, halves, thousandths and "noisy" binary floats,
small (so that coincidences are frequent) up to well beyond the 16-bit range.
"""
import math
import random
from hypothesis import strategies as st


def ints(lo, hi):
    return st.integers(lo, hi)


tiny = ints(-3, 3)
small = ints(-12, 12)
font = ints(-2000, 2000)
int16 = ints(-32768, 32767)
big = ints(-1000000, 1000000)
half = ints(-4000, 4000).map(lambda n: n / 2)
milli = ints(-3000000, 3000000).map(lambda n: n / 1000)
noisy = ints(-10 ** 15, 10 ** 15).map(lambda n: n / 1e12 * 1.1)       # |x| < 1100, full mantissa
bigmilli = ints(-10 ** 8, 10 ** 8).map(lambda n: n / 1000)

FLAVOURS = dict(tiny=tiny, small=small, font=font, int16=int16, big=big, half=half, milli=milli, noisy=noisy, bigmilli=bigmilli)
ALL = list(FLAVOURS)
MODERATE = ["tiny", "small", "font", "half", "milli", "noisy"]


def pt(flavour):
    c = FLAVOURS[flavour]
    return st.tuples(c, c).map(list)


def pts(n, flavours=None):
    """n points, all of one flavour."""
    return st.sampled_from(flavours or ALL).flatmap(lambda f: st.lists(pt(f), min_size=n, max_size=n))


def pts_range(lo, hi, flavours=None):
    return st.tuples(st.sampled_from(flavours or ALL), ints(lo, hi)).flatmap(
        lambda fn: st.lists(pt(fn[0]), min_size=fn[1], max_size=fn[1]))


def lists(e, lo, hi, big):
    """Lists, mostly of lo to hi elements, now and then of up to big."""
    return size(lo, hi, big).flatmap(lambda n: st.lists(e, min_size=n, max_size=n))


def size(lo, hi, big):
    return st.one_of(*[ints(lo, hi)] * 9, ints(hi + 1, big))


def seeded(f, lo, hi):
    """f(random, n) for lo <= n <= hi: long inputs that would be slow to draw piece by piece."""
    return st.tuples(ints(lo, hi), ints(0, 2 ** 30)).map(lambda t: f(random.Random(t[1]), t[0]))


def seeded_log(f, lo, hi):
    """Like seeded, every magnitude of n between lo and hi about as often as any other."""
    return st.tuples(ints(0, 1000), ints(0, 2 ** 30)).map(lambda t: f(random.Random(t[1]), round(lo * (hi / lo) ** (t[0] / 1000))))


def rnd_points(r, n, large=True):
    c = rnd_coord(r, large)
    return [[c(), c()] for _ in range(n)]


def rnd_contours(r, n, orders=(1, 1, 2, 3), large=True):
    """n segments altogether, in one contour, in as many as possible, or in between."""
    k = r.randrange(3)
    out = []
    while n > 0:
        m = n if k == 0 else min(n, r.randint(1, 2)) if k == 1 else r.randint(1, n)
        out.append(rnd_contour(r, m, orders, large))
        n -= m
    return out


def rnd_coord(r, large=True):
    """A function giving coordinates of one flavour."""
    k = r.randrange(6 if large else 5)
    if k == 0:
        return lambda: r.randint(-3, 3)
    if k == 1:
        return lambda: r.randint(-2000, 2000)
    if k == 2:
        return lambda: r.randint(-4000, 4000) / 2
    if k == 3:
        return lambda: r.uniform(-1000, 1000)
    if k == 4:
        return lambda: r.choice([0, 100, 250, 700])
    return lambda: r.randint(-10 ** 6, 10 ** 6)


def rnd_contour(r, n, orders=(1, 1, 2, 3), large=True):
    """A connected contour of n segments."""
    c = rnd_coord(r, large)
    pen = [c(), c()]
    start = list(pen)
    out = []
    for i in range(n):
        s = [list(pen)] + [[c(), c()] for _ in range(r.choice(orders))]
        if len(s) == 2 and r.random() < 0.5:
            d = r.randrange(2)
            s[1][d] = pen[d]
        out.append(s)
        pen = s[-1]
    if r.random() < 0.5:
        out[-1][-1] = start
    return out


# parameters in [0, 1]
unit = st.one_of(
    st.sampled_from([0, 1, 0.5, 0.25, 0.75, 0.0, 1.0]),
    ints(0, 1000).map(lambda n: n / 1000),
    ints(0, 100).map(lambda n: n / 100),
    ints(0, 10 ** 15).map(lambda n: n / 1e15),
    ints(1, 9).map(lambda k: 10.0 ** -k),
    ints(1, 9).map(lambda k: 1 - 10.0 ** -k),
)
inner = st.one_of(ints(1, 999).map(lambda n: n / 1000), ints(1, 99).map(lambda n: n / 100), ints(1, 10 ** 15 - 1).map(lambda n: n / 1e15),
                  st.sampled_from([0.5, 0.25, 0.75]))

# proper parameter intervals [a, b], 0 <= a < b <= 1, the ends hit often
_prop = st.one_of(st.tuples(ints(0, 20), ints(1, 20)).map(lambda t: [min(t[0], 19) / 20, (min(t[0], 19) + 1 + (t[1] - 1) % (20 - min(t[0], 19))) / 20]),
                  st.tuples(ints(0, 999), ints(0, 10 ** 6)).map(lambda t: [t[0] / 1000, (t[0] + 1 + t[1] % (1000 - t[0])) / 1000]),
                  st.tuples(ints(0, 10 ** 15 - 1), ints(0, 10 ** 15)).map(lambda t: [t[0] / 1e15, (t[0] + 1 + t[1] % (10 ** 15 - t[0])) / 1e15]))
interval = st.tuples(_prop, st.sampled_from(["", "", "", "0", "1", "01"])).map(
    lambda t: [0 if "0" in t[1] else t[0][0], 1 if "1" in t[1] else t[0][1]])


def _lerp(a, b, r):
    return [a[0] + (b[0] - a[0]) * r, a[1] + (b[1] - a[1]) * r]


@st.composite
def curve(draw, orders=(2, 3), flavours=None):
    """Control points of one curve, with degenerate shapes given their own share."""
    order = draw(st.sampled_from(list(orders)))
    flavour = draw(st.sampled_from(flavours or ALL))
    P = pt(flavour)
    p = [draw(P) for _ in range(order + 1)]
    if order < 2:
        return p
    shape = draw(st.sampled_from(["free"] * 6 + ["retract0", "retract1", "retract01", "line", "evenline", "elevated", "closed", "arch", "sshape",
                                                 "monotone", "axis", "collinear3", "nearquad", "level", "circle"]))
    q = [list(x) for x in p]
    n = order
    if shape == "retract0":
        q[1] = list(q[0])
    elif shape == "retract1":
        q[n - 1] = list(q[n])
    elif shape == "retract01":
        q[1] = list(q[0])
        q[n - 1] = list(q[n])
    elif shape == "line":
        for i in range(1, n):
            q[i] = _lerp(q[0], q[n], draw(ints(-4, 8)) / 4)
    elif shape == "evenline":
        for i in range(1, n):
            q[i] = _lerp(q[0], q[n], i / n)
    elif shape == "elevated":
        k = draw(ints(1, n - 1)) if n > 1 else 1
        b = p[:n + 1 - k]
        for _ in range(k):
            m = len(b)
            b = [b[0]] + [_lerp(b[i], b[i - 1], i / m) for i in range(1, m)] + [b[-1]]
        q = b
    elif shape == "closed":
        q[n] = list(q[0])
    elif shape == "arch" and n == 3:
        # symmetric about a vertical axis
        w = draw(FL(flavour))
        h = draw(FL(flavour))
        a, b = draw(FL(flavour)), draw(FL(flavour))
        x, y = q[0]
        q = [[x, y], [x + a, y + b], [x + w - a, y + b], [x + w, y]]
    elif shape == "sshape" and n == 3:
        # point symmetric
        q[3] = [q[0][0] + 2 * p[3][0], q[0][1] + 2 * p[3][1]]
        q[2] = [q[0][0] + q[3][0] - q[1][0], q[0][1] + q[3][1] - q[1][1]]
    elif shape == "monotone":
        xs = sorted(x for x, _ in q)
        ys = sorted((y for _, y in q), reverse=draw(st.booleans()))
        q = [[x, y] for x, y in zip(xs, ys)]
    elif shape == "axis":
        # tangents along the axes at the ends, as font outlines have at extrema
        if draw(st.booleans()):
            q[1][0] = q[0][0]
            q[n - 1][1] = q[n][1]
        else:
            q[1][1] = q[0][1]
            q[n - 1][0] = q[n][0]
    elif shape == "collinear3":
        q[1] = _lerp(q[0], q[2], draw(ints(-4, 8)) / 4)
    elif shape == "nearquad" and n == 3:
        b = p[:3]
        q = [b[0]] + [_lerp(b[i], b[i - 1], i / 3) for i in range(1, 3)] + [b[-1]]
        e = 10.0 ** -draw(ints(0, 9))
        q[1] = [q[1][0] + e * draw(tiny), q[1][1] + e * draw(tiny)]
    elif shape == "level":
        d = draw(ints(0, 1))
        for i in range(1, n + 1):
            if draw(ints(0, 3)):
                q[i][d] = q[0][d]
    elif shape == "circle" and n == 3:
        r = abs(draw(FL(flavour))) + 1
        k = 0.5522847498307936 * r
        x, y = p[0]
        q = [[x + r, y], [x + r, y + k], [x + k, y + r], [x, y + r]]
        for _ in range(draw(ints(0, 3))):
            q = [[x - (b - y), y + (a - x)] for a, b in q]
        if draw(st.booleans()):
            q.reverse()
    return q


def FL(flavour):
    return FLAVOURS[flavour]


@st.composite
def tame_curve(draw, orders=(2, 3), flavours=("font", "half", "noisy", "small"), turn=40):
    """Gently turning curve: control polygon turns by a bounded amount."""
    order = draw(st.sampled_from(list(orders)))
    f = draw(st.sampled_from(list(flavours)))
    x, y = draw(pt(f))
    ang = draw(ints(0, 359))
    sgn = draw(st.sampled_from([1, -1]))
    out = [[x, y]]
    for i in range(order):
        L = draw(ints(20, 400))
        out.append([out[-1][0] + L * math.cos(math.radians(ang)), out[-1][1] + L * math.sin(math.radians(ang))])
        ang += sgn * draw(ints(3, turn))
    return out


def contour(lo=1, hi=5, orders=(1, 2, 3), flavours=None, closed=None):
    """Connected segments of mixed order; some zero-length lines, some axis-parallel ones; now
    and then more than hi of them."""
    e = _contour(lo, hi, orders, flavours, closed)
    if closed is not None:
        return e
    return st.one_of(*[e] * 9, seeded(lambda r, n: rnd_contour(r, n, orders, flavours is None), hi + 1, 3 * hi + 2))


@st.composite
def _contour(draw, lo=1, hi=5, orders=(1, 2, 3), flavours=None, closed=None):
    """Connected segments of mixed order; some zero-length lines, some axis-parallel ones."""
    f = draw(st.sampled_from(flavours or ALL))
    n = draw(ints(lo, hi))
    pen = draw(pt(f))
    start = list(pen)
    segs = []
    for i in range(n):
        o = draw(st.sampled_from(list(orders)))
        seg = [list(pen)]
        for j in range(o):
            p = draw(pt(f))
            if o == 1:
                k = draw(ints(0, 9))
                if k < 3:
                    p = [pen[0], p[1]]
                elif k < 6:
                    p = [p[0], pen[1]]
                elif k == 6:
                    p = list(pen)
            seg.append(p)
        if i == n - 1 and (closed or (closed is None and draw(st.booleans()))):
            seg[-1] = list(start)
        segs.append(seg)
        pen = seg[-1]
    return segs


# values that are easily mistaken for one another: alike in some respect, yet different
@st.composite
def sibling(draw, p):
    """Another list of points of the same length as p (or, seldom, p itself)."""
    q = [list(x) for x in p]
    n = len(q)
    i, j = draw(ints(0, n - 1)), draw(ints(0, n - 1))
    d = draw(ints(0, 1))
    kind = draw(st.sampled_from(["same", "nudge", "nudge", "nudge", "nudge", "inner", "swap points", "transfer", "swap xy", "mirror", "turn", "shift", "reverse", "double", "order", "rotate list", "float"]))
    if kind == "nudge":
        q[i][d] += draw(st.sampled_from([1, -1])) * draw(ints(1, 9)) * 10.0 ** -draw(ints(0, 8))
    elif kind == "inner" and n > 2:
        q[1 + i % (n - 2)][d] += draw(ints(1, 40))
    elif kind == "swap points":
        q[i], q[j] = q[j], q[i]
    elif kind == "transfer":
        # sums over the points, or over one point, stay
        v = draw(ints(1, 20))
        q[i][d] += v
        if draw(st.booleans()):
            q[i][1 - d] -= v
        else:
            q[j][d] -= v
    elif kind == "swap xy":
        q = [[y, x] for x, y in q]
    elif kind == "mirror":
        for x in q:
            x[d] = -x[d]
    elif kind == "turn":
        q = [[-x, -y] for x, y in q]
    elif kind == "shift":
        v = draw(ints(-50, 50))
        for x in q:
            x[d] += v
    elif kind == "reverse":
        q.reverse()
    elif kind == "double":
        q = [[2 * x, 2 * y] for x, y in q]
    elif kind == "order":
        q[:] = sorted(q)
    elif kind == "rotate list":
        q = q[1:] + q[:1]
    elif kind == "float":
        q = [[float(x), float(y)] for x, y in q]
    return q


@st.composite
def family(draw, first, lo=2, hi=4):
    """first (a strategy of point lists) and some lists that resemble it or one another."""
    out = [draw(first)]
    for _ in range(draw(ints(lo, hi)) - 1):
        out.append(draw(sibling(draw(st.sampled_from(out)))))
    return out
