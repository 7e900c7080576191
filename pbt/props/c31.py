"""C31 Calls do not influence one another."""
import copy
from hypothesis import strategies as st
from ..core import Clause, require, fail
from .. import gen, geom, standin  # the latter for FontDocTools
from ..pristine import pristine, current
from .c06 import same, QUERIES
from .c20 import LOG

def norm(r):
    """A deep, comparable copy of an answer, whichever copy of the library gave it."""
    if hasattr(r, "controlPoints"):
        return ["curve", [norm(p) for p in r.controlPoints], r.direction]
    if hasattr(r, "beziers"):
        return ["contour", [norm(b) for b in r], norm(r.boundsRectangle)]
    if hasattr(r, "bContours"):
        return ["outline", [norm(c) for c in r.bContours], norm(r.boundsRectangle)]
    if hasattr(r, "bottom"):
        return ["rect", float(r.left), float(r.bottom), float(r.right), float(r.top)]
    if hasattr(r, "transform"):
        return ["transform", norm(r.transform)]
    if hasattr(r, "components"):
        return ["colour"] + list(r.components)
    if isinstance(r, dict):
        return ["dict"] + [[str(k), norm(r[k])] for k in sorted(r, key=str)]
    if isinstance(r, (list, tuple)):
        return [norm(x) for x in r]
    if r is None or isinstance(r, (str, bool)):
        return r
    return float(r)


ERRORS = (ZeroDivisionError, ValueError, TypeError, ArithmeticError, IndexError, KeyError)


def spoil(r, depth=0):
    """What the receiver of lists of his own may do to them."""
    if isinstance(r, list):
        if depth < 3:
            for x in r:
                spoil(x, depth + 1)
        if r and isinstance(r[0], (int, float)):
            r[0] = 4711.25
        r.append(r[-1] if r else 0)
        r.reverse()
    elif isinstance(r, tuple) and depth < 3:
        for x in r:
            spoil(x, depth + 1)
    elif isinstance(r, dict):
        r.clear()


def tup(p):
    return [tuple(x) for x in p]


def split_contour(p, k):
    """the points as a connected contour of segments of k + 1 points at most"""
    out = []
    for i in range(0, len(p) - 1, k):
        out.append(p[i:i + k + 1])
    return out


class As:
    """How a script writes down its data."""
    tup, contour, seq = staticmethod(tup), staticmethod(split_contour), list


# Every script works on objects of its own: a generator that pauses after every step, giving its answer.

def rough(a):
    return max(max(geom.extent(p) for p in a["p"]) / 8, 1e-3)


def s_curve(L, a):
    b, o = L.Bezier.Bezier(As.tup(a["p"][0])), L.Bezier.Bezier(As.tup(a["p"][1]))
    x = dict(t=a["t"], n=a["n"], d=a["d"], i=a["i"], l=As.tup(a["p"][1])[:1] + As.tup(a["p"][1])[-1:], th=rough(a))
    for q in a["q"]:
        orders, f = QUERIES[q]
        if b.order in orders:
            yield lambda: f(b, o, x)


def s_table(L, a):
    """two curves in turn"""
    two = [L.Bezier.Bezier(As.tup(p)) for p in a["p"]]
    for q in a["q"]:
        for b in two:
            if b.order in QUERIES[q][0]:
                yield lambda: QUERIES[q][1](b, two[0], dict(t=a["t"], n=a["n"], d=a["d"], i=a["i"], l=As.tup(a["p"][0])[:1] + As.tup(a["p"][0])[-1:], th=rough(a)))


def s_contour(L, a):
    c = L.Bezier.BContour(As.contour(As.tup(a["p"][0]), a["k"]))
    other = As.contour(As.tup(a["p"][1]), a["k"])
    yield lambda: c
    for i, step in enumerate(a["steps"]):
        if step == "lut":
            yield lambda: c.getLUT(a["n"])
        elif step == "closest":
            yield lambda: c.findClosestPoint(tuple(a["p"][1][-1]), a["n"])
        elif step == "d":
            yield lambda: c.d()
        elif step == "set":
            j = i % len(c.beziers)
            c[j] = other[i % len(other)]
            yield lambda: c
        elif step == "del" and len(c.beziers) > 1:
            del c[i % len(c.beziers)]
            yield lambda: c
        elif step == "ends":
            yield lambda: (c.start, c.end, c.boundsRectangle)


def s_outline(L, a):
    o = L.Bezier.BOutline([As.contour(As.tup(p), a["k"]) for p in a["p"]])
    yield lambda: o
    for step in a["steps"]:
        c = o.bContours[0]
        if step == "set":
            c[0] = As.contour(As.tup(a["p"][1]), a["k"])[0]
        elif step == "lut":
            yield lambda: [b.getLUT(a["n"]) for b in o.bContours]
        yield lambda: o.boundsRectangle


class Glyph:
    def __init__(self, calls):
        self.calls = calls

    def draw(self, pen):
        for name, args in self.calls:
            getattr(pen, name)(*args)


def pen_calls(p, k, runs=False):
    out = [("moveTo", (tuple(p[0]),))]
    for s in As.contour(As.tup(p), k):
        out.append((["", "lineTo", "qCurveTo", "qCurveTo" if runs else "curveTo"][len(s) - 1], tuple(s[1:])))
    return out + [("closePath", ())]


def s_pen(L, a):
    glyphs = {"g%d" % i: Glyph(pen_calls(p, a["k"], a["d"] > 0)) for i, p in enumerate(a["p"])}
    pen = L.SegmentPen.SegmentPen(glyphs, LOG)
    for i, step in enumerate(a["steps"]):
        if step in ("set", "ends"):
            pen.addComponent("g%d" % (i % len(a["p"])), (1, 0, 0, 1, 0, 0) if step == "ends" else (a["t"], 0, 0, 1, a["d"], i))
            yield lambda: copy.deepcopy(pen.contours)
        else:
            for name, args in pen_calls(a["p"][i % len(a["p"])], a["k"], a["d"] > 0):
                getattr(pen, name)(*args)
                yield lambda: copy.deepcopy(pen.contours)


def s_plotter(L, a):
    P = L.ContourPlotter.ContourPlotter((0, 0, 1000, 1000), poly=a["k"] > 1)
    depth = []
    for i, step in enumerate(a["steps"]):
        p = a["p"][i % len(a["p"])]
        C = [As.contour(As.tup(p), a["k"])]
        if step == "lut":
            P.drawContours(C, fill=i % 2 == 0, color=["red", "blue"][i % 2])
        elif step == "closest":
            P.drawPaths([L.Bezier.BContour(C[0])])
        elif step == "d":
            P.pushStrokeAttributes(width=i + 2, color="green", dash="1")
            depth.append("stroke")
        elif step == "set":
            P.pushFillAttributes(color="purple", opacity=0.5)
            depth.append("fill")
        elif depth:
            P.popStrokeAtributes() if depth.pop() == "stroke" else P.popFillAttributes()
        else:
            P.drawCurve(C[0][0])
        yield lambda: [list(P._content), [str(x) for x in P.attributes()]]


def s_transform(L, a):
    T = L.Transform.Transform
    p, q = tuple(a["p"][0][0]), tuple(a["p"][1][-1])
    make = {"lut": lambda: T.translate(p, q), "closest": lambda: T.scale(a["t"] + 0.5, a["k"]), "d": lambda: T.rotationAbout(p, a["d"], a["k"] > 1),
            "set": lambda: T.shear(a["t"], a["d"]), "del": lambda: T.mirrorAround(q, a["k"] > 1, a["k"] < 3), "ends": lambda: T.perspectiveFrom(p, a["t"] / 1000, 0)}
    ms = []
    for step in a["steps"]:
        ms.append(make[step]())
        yield lambda: copy.deepcopy(ms[-1])
        t = T(*[m.transform for m in ms])
        yield lambda: [copy.deepcopy(t.transform), t.applyToPoint(q), t.applyToSegment(As.tup(a["p"][0])), t.applyToContour(As.seq([As.tup(x) for x in a["p"]])), t.applyToContours(As.seq([As.seq([As.tup(a["p"][1])])]))]
    yield lambda: T.moveAndRotate(p, q, a["d"])
    yield lambda: T.rotateAndMove(p, q, a["d"])
    yield lambda: [T.perspective(a["t"], a["d"]), T.rotation(a["d"]), T.mirror(True), T.mirror(False, True), T.sin(a["d"]), T.cos(a["d"])]


def s_rect(L, a):
    R = L.PathUtilities.BoundsRectangle
    A, B = R(*As.tup(a["p"][0])), R(*As.tup(a["p"][1]))
    yield lambda: [A, B, A.union(B), A.intersection(B)]
    yield lambda: [A.relationTo(B), B.relationTo(A), A.encloses(B), A.enclosesPoint(tuple(a["p"][1][0])), A.crossesX(a["d"]), A.crossesY(a["d"])]
    yield lambda: [A.width, A.height, A.area, A.diagonal, A.contour, A.centerPoint, A.points, A.xFromLeft(a["t"]), A.yFromBottom(a["t"])]
    yield lambda: [R.fromContour(As.seq([As.tup(x) for x in a["p"]])), R.fromCoutours(As.seq([As.seq([As.tup(x)]) for x in a["p"]])), R(), R().union(A)]


def s_lines(L, a):
    U, B = L.PathUtilities, L.BezierUtilities
    s, t = As.tup(a["p"][0]), As.tup(a["p"][1])
    l, m = As.seq([s[0], s[-1]]), As.seq([t[0], t[-1]])
    for f in (U.length, U.slope, U.slopeAngle, U.rawSlopeAngle, U.midpoint, U.getDeltas, U.endPoints, U.isVerticalLine, U.isHorizontalLine, U.isDiagonalLine):
        yield lambda: f(As.seq(l))
        yield lambda: f(As.seq(m))
    yield lambda: [U.intersectionPoint(l, m), U.pointOnLine(t[0], l), B.lli(l, m), B.lli4(s[0], s[-1], t[0], t[-1]), B.angle(s[0], s[-1], t[0])]
    yield lambda: U.flatten(As.seq([As.seq([As.seq(s), As.seq(t)]), As.seq([As.seq(t)])]))
    yield lambda: [U.rotatePointAbout(s[0], t[0], a["d"]), U.rotateSegmentAbout(As.seq(s), t[0], a["d"]), U.rotateContourAbout(As.seq([As.seq(s), As.seq(t)]), t[0], a["d"], False), U.rotateContoursAbout(As.seq([As.seq([As.seq(s)]), As.seq([As.seq(t)])]), t[0])]
    yield lambda: [B.droots([x for x, _ in s[:3]]), B.droots([y for _, y in t[:3]]), B.lerp(a["t"], s[0], t[0]), B.map(a["t"], 0, 1, s[0][0], s[0][1]), B.removeDuplicates(sorted(x for x, _ in s))]
    yield lambda: [list(B.tValues[24]) if len(B.tValues) > 24 else list(B.tValues), len(B.cValues)]


def s_fit(L, a):
    C, M = L.CurveFitting, L.MatrixInversion
    s = As.tup(a["p"][0])
    yield lambda: C.basisMatrix(a["k"] + 2)
    yield lambda: [C.binomial(a["n"] % 30, k) for k in range(a["n"] % 30 + 1)]
    for poly in (True, False):
        yield lambda: C.computeTimeValues(list(s), polygonal=poly)
        yield lambda: C.fit(list(s), poly)
        times = [0, a["t"] / 3, a["t"] / 2 + 0.25, 1, 0.125, 0.375][:len(s)]
        yield lambda: C.formTMatrix(list(times), 3)
        yield lambda: C.bestFit(list(s), C.basisMatrix(2), C.computeTimeValues(list(s), polygonal=poly), 2)
    m = [[float(a["k"] == 2 and i == j) + (s[i % len(s)][j % 2] + i * j) / 100 for j in range(3)] for i in range(3)]
    yield lambda: M.matrixInvert(copy.deepcopy(m))
    yield lambda: [C.multiply(copy.deepcopy(m), C.basisMatrix(3)), C.transpose(copy.deepcopy(m)), C.row(copy.deepcopy(m), 1), C.col(copy.deepcopy(m), 2), C.raiseRowPower(list(m[0]), 2), C.getPointValuesColumn(list(s), 1)]
    yield lambda: C.basisMatrix(a["k"] + 2)


def s_colour(L, a):
    C = L.Color.Color
    for w in a["w"]:
        yield lambda: C.fromName(w)


SCRIPTS = dict(curve=s_curve, table=s_table, contour=s_contour, outline=s_outline, pen=s_pen, plotter=s_plotter, transform=s_transform, rect=s_rect, lines=s_lines, fit=s_fit, colour=s_colour)


def step(g):
    """The next answer of a script (deeply copied) and the answer itself, or None at its end."""
    try:
        f = next(g)
    except StopIteration:
        return None
    except ERRORS as e:
        return ["raises", type(e).__name__], None
    try:
        r = f()
    except ERRORS as e:
        return ["raises", type(e).__name__], None
    return norm(r), r


def c_mixed(case):
    scripts = case["scripts"]
    # as they are, one step of this and one of that
    lib = current()
    running = [SCRIPTS[k](lib, copy.deepcopy(a)) for k, a in scripts]
    answers = [[] for _ in scripts]
    keep = []
    live = list(range(len(scripts)))
    turn = 0
    while live:
        i = live[case["turns"][turn % len(case["turns"])] % len(live)]
        turn += 1
        r = step(running[i])
        if r is None:
            live.remove(i)
            continue
        answers[i].append(r[0])
        if scripts[i][0] in ("fit", "transform", "lines", "rect") and case["spoil"]:
            spoil(r[1])
        elif scripts[i][0] in ("fit", "transform", "lines", "rect", "curve", "colour"):
            keep.append((i, r))
    for i, (was, r) in keep:
        require(same(norm(r) if r is not None else was, was, 0), "%s %r answered %r, which turned into %r later", scripts[i][0], scripts[i][1], was, r)
    # every one of them alone
    lab = set()
    for i, (k, a) in enumerate(scripts):
        with pristine() as L:
            g = SCRIPTS[k](L, copy.deepcopy(a))
            alone = []
            while True:
                r = step(g)
                if r is None:
                    break
                alone.append(r[0])
        require(len(alone) == len(answers[i]), "%s %r answers %d times, but %d times among other calls", k, a, len(alone), len(answers[i]))
        for n, (x, y) in enumerate(zip(alone, answers[i])):
            require(same(x, y, 1e-9), "step %d of %s %r answers %r by itself, but %r among calls of %r", n, k, a, x, y, [s for j, s in enumerate(scripts) if j != i])
        if any(not (isinstance(x, list) and x[:1] == ["raises"]) for x in alone):
            lab.add(k)
    return sorted("*" + x for x in lab) if len(lab) > 1 or len(scripts) > 1 else sorted(lab)


NAMES = sorted(QUERIES)
STEPS = ["lut", "closest", "d", "set", "del", "ends"]
WORDS = ["red", "Red", "blue", "BLUE", "black", "white", "tan", "teal", "grey", "gray", "nosuch", "12", "darkgrey", "rebeccapurple"]
flav = ["small", "font", "half", "noisy", "milli"]


@st.composite
def scripts(draw):
    first = st.sampled_from(flav).flatmap(lambda f: gen.curve((1, 2, 3, 3, 3, 4, 5), [f]))
    fam = draw(gen.family(first, 2, 4))
    two = st.lists(st.sampled_from(fam), min_size=2, max_size=2)
    kinds = draw(st.one_of(st.sampled_from(sorted(SCRIPTS)).map(lambda k: [k]), st.lists(st.sampled_from(sorted(SCRIPTS)), min_size=2, max_size=3)))
    shared = dict(t=draw(gen.unit), n=draw(st.sampled_from([2, 3, 5, 10, 11, 100])), d=draw(st.one_of(gen.ints(-20, 20), gen.ints(-800, 800).map(lambda v: v / 8))), i=draw(gen.interval), k=draw(gen.ints(1, 3)))
    out = []
    for _ in range(draw(gen.ints(2, 4))):
        kind = draw(st.sampled_from(kinds))
        a = dict(shared, p=draw(two))
        if draw(st.booleans()):
            v = draw(st.sampled_from(["t", "n", "d", "k"]))
            a[v] = draw(dict(t=gen.unit, n=st.sampled_from([2, 3, 5, 10, 11, 100]), d=gen.ints(-20, 20), k=gen.ints(1, 3))[v])
        if kind in ("curve", "table"):
            a["q"] = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3))
        elif kind in ("contour", "outline", "pen", "plotter", "transform"):
            a["steps"] = draw(st.lists(st.sampled_from(STEPS), min_size=1, max_size=5))
        elif kind == "colour":
            a["w"] = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=3))
        out.append([kind, a])
    return out


CLAUSES = [
    Clause("mixed", st.fixed_dictionaries(dict(scripts=scripts(), turns=st.lists(gen.ints(0, 3), min_size=1, max_size=5), spoil=st.booleans())), c_mixed,
           quick=6000, thorough=100000, shards=7, rule="several scripts took turns, and some gave answers"),
]
