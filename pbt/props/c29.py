"""C29 Outlines survive the way from the pen to the drawing."""
import copy
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom, svg, standin
from .c15 import mul, mabs
from .c18 import inverse, norm
from .c20 import draw, path, LOG, long_paths, many_paths
from .c21 import Glyph, expand, affine, IDENT, apply, apply_mag
from .c22 import zero
from PathLib.Bezier import BOutline, Bezier
from PathLib.ContourPlotter import ContourPlotter
from PathLib.MatrixInversion import matrixInvert
from PathLib.PathUtilities import BoundsRectangle, flatten
from PathLib.SegmentPen import SegmentPen
from PathLib.Transform import Transform
import xml.etree.ElementTree as ET

SIMPLE = {0: (1, 0, 0, 1), 1: (0, 1, -1, 0), 2: (-1, 0, 0, -1), 3: (0, -1, 1, 0), 4: (1, 0, 0, -1), 5: (-1, 0, 0, 1)}


def make(step):
    """A matrix of the library and the numbers (xx, xy, yx, yy, dx, dy) it stands for; turns by quarters only, so these are exact."""
    kind, a, b, k = step
    if kind == "translate":
        return Transform.translate((0, 0), (a, b)), (1, 0, 0, 1, a, b)
    if kind == "scale":
        return Transform.scale(k, 2 * k), (k, 0, 0, 2 * k, 0, 0)
    if kind == "shear":
        return Transform.shear(k, 0), (1, 0, k, 1, 0, 0)
    if kind == "turn":
        # counter-clockwise about (a, b)
        return Transform.rotationAbout((a, b), 90), (0, 1, -1, 0, F(a) + F(b), F(b) - F(a))
    if kind == "mirror":
        return Transform.mirrorAround((a, b), xAxis=True), (1, 0, 0, -1, 0, 2 * F(b))
    # anything affine
    return Transform([[k, a / 1000, 0], [b / 1000, 2, 0], [a, b, 1]]), (k, a / 1000, b / 1000, 2, a, b)


def matrix(t):
    return [[F(t[0]), F(t[1]), F(0)], [F(t[2]), F(t[3]), F(0)], [F(t[4]), F(t[5]), F(1)]]


def shape(C):
    return [[len(s) for s in c] for c in C]


def strip(C):
    """Without zero-length lines and what is then empty."""
    return [c for c in ([s for s in c if not zero(s)] for c in C) if c]


def raw(C, what):
    return [[points(s, what) for s in seq(c, what + " contour")] for c in seq(C, what)]


def nearly(got, want, tol, what):
    require(shape(got) == shape(want), "%s: segments of %r points, expected %r", what, shape(got), shape(want))
    for gc, wc in zip(got, want):
        for g, w in zip(gc, wc):
            for p, (q, m) in zip(g, w):
                require(abs(p[0] - float(q[0])) <= tol * float(m[0]) + 1e-300 and abs(p[1] - float(q[1])) <= tol * float(m[1]) + 1e-300, "%s: %r instead of %r", what, p, geom.f2(q))


def subpaths(d, what):
    try:
        return svg.draw(d)
    except svg.BadPath as e:
        fail("%s: not valid path data (%s): %r", what, e, d)


def same_path(sub, c, what):
    require(sub["start"] == c[0][0], "%s: starts at %r instead of %r", what, sub["start"], c[0][0])
    got, want = [s for s in sub["segs"] if not zero(s)], [s for s in c if not zero(s)]
    require(got == want, "%s: draws %r instead of %r", what, got, want)


def replay(pen, contours):
    for c in contours:
        pen.moveTo(c[0][0])
        for s in c:
            {2: pen.lineTo, 3: pen.qCurveTo, 4: pen.curveTo}[len(s)](*s[1:])
        pen.closePath()


def rect(r, what):
    return (num(r.left, what), num(r.bottom, what), num(r.right, what), num(r.top, what))


def c_way(case):
    prog = [["path", p] for p in case["paths"]]
    glyphs = {"base": prog}
    name = "base"
    if case["component"]:
        name = "top"
        glyphs["top"] = [["component", ["base", case["component"]]]] + ([["path", case["paths"][0]]] if case["both"] else [])
    gset = {n: Glyph(p) for n, p in glyphs.items()}
    pen = SegmentPen(gset, LOG)
    gset[name].draw(pen)
    want = expand(glyphs, name)
    if any(zero([p for p, _ in s]) for c in want for s in c):
        # a line of no length may be recorded or not
        want = [c for c in ([s for s in c if not zero([p for p, _ in s])] for c in want) if c]
    what = "the paths %r%s" % (case["paths"], " as a component under %r" % (case["component"],) if case["component"] else "")
    recorded = pen.contours
    nearly(strip(raw(recorded, "recorded")), want, 1e-14, "recording " + what)
    if not want:
        return "nothing drawn"
    before = copy.deepcopy(recorded)

    # on through the transforms, as one matrix or one after the other
    steps = [make(s) for s in case["steps"]]
    what += " transformed by %r" % (case["steps"],)
    moved, total, mags = recorded, matrix(IDENT), mabs(matrix(IDENT))
    for T, t in steps:
        total, mags = mul(total, matrix(t)), mul(mags, mabs(matrix(t)))
    if steps:
        if case["one"]:
            whole = Transform(*[T.transform for T, _ in steps])
            moved = whole.applyToContours(recorded)
        else:
            for T, _ in steps:
                moved = T.applyToContours(moved)
    image = [[[(tuple(mul([[p[0], p[1], F(1)]], total)[0][:2]), tuple(mul([[m[0], m[1], F(1)]], mags)[0][:2])) for p, m in s] for s in c] for c in want]
    R = raw(moved, "transformed")
    got = strip(R)
    nearly(got, image, 1e-14 * (2 + len(steps)), what)
    require(recorded == before and pen.contours == before, "%s: the contours of the pen have become %r", what, pen.contours)
    kept = copy.deepcopy(moved)
    sc = max(geom.scale_of(*[s for c in R for s in c]), max(float(v) for c in image for s in c for _, m in s for v in m))

    # bounds
    ps = [p for c in R for s in c for p in s]
    hull = (min(x for x, _ in ps), min(y for _, y in ps), max(x for x, _ in ps), max(y for _, y in ps))
    require(rect(BoundsRectangle.fromCoutours(moved), "bounds") == hull, "%s: the bounds of the control points are %r, expected %r", what, rect(BoundsRectangle.fromCoutours(moved), "bounds"), hull)
    fl = seq(flatten(moved), "flatten")
    require([points(s) for s in fl] == [s for c in R for s in c], "%s: flatten gives %r", what, fl)
    outline = BOutline(moved)
    box = rect(outline.boundsRectangle, "bounds")
    boxes = [geom.bbox([geom.f2(p) for p, _ in s]) for c in image for s in c]
    exact = tuple(f(b[d][i] for b in boxes) for i, d, f in ((0, 0, min), (0, 1, min), (1, 0, max), (1, 1, max)))
    require(all(close(a, float(b), 1e-11 * sc) for a, b in zip(box, exact)), "%s: the bounds of the outline are %r, expected %r", what, box, tuple(map(float, exact)))

    # curves and path strings
    curves = [[points(b.controlPoints) for b in c] for c in seq(outline, "outline", len(R))]
    require(curves == R, "%s: the curves of the outline are %r, the contours %r", what, curves, R)
    again = []
    for c, k in zip(outline, R):
        require(point(c.start) == k[0][0] and point(c.end) == k[-1][-1] and point(c.start) == point(c.end), "%s: a contour from %r to %r", what, c.start, c.end)
        subs = subpaths(c.d(), what)
        require(len(subs) == 1, "%s: the contour %r is drawn by %r", what, k, c.d())
        same_path(subs[0], k, what)
        again.append(subs[0]["segs"])

    # plotted
    P = ContourPlotter(box if box[0] < box[2] and box[1] < box[3] else (0, 0, 1, 1), poly=case["poly"])
    for call in ("contours", "paths"):
        n = len(P._content)
        if call == "contours":
            P.drawContours(moved, fill=case["both"])
        else:
            P.drawPaths(outline, fill=case["both"])
        subs = []
        for e in P._content[n:]:
            try:
                subs += subpaths(ET.fromstring(e).attrib["d"], what)
            except (ET.ParseError, KeyError) as x:
                fail("%s: plotted as %r (%s)", what, e, x)
        require(len(subs) == len(R), "%s: %d contours plotted as %d", what, len(R), len(subs))
        for s, k in zip(subs, R):
            same_path(s, k, "plotting " + what)

    # drawn again, from the curves and from the path strings
    for source, C in (("curves", curves), ("path strings", again)):
        p2 = SegmentPen({}, LOG)
        replay(p2, [c for c in C if c])
        require(strip(raw(p2.contours, "drawn again")) == got, "%s: the %s drawn again are recorded as %r", what, source, p2.contours)

    # and back
    lab = []
    if steps and case["back"]:
        M = [[float(v) for v in r] for r in total]
        X = inverse(total)
        if X is not None and norm(M) * norm(X) < 1e9:
            m = whole.transform if case["one"] else M
            inv = matrixInvert(m)
            require(inv is not None, "%s: the matrix %r has no inverse", what, m)
            back = strip(raw(Transform(inv).applyToContours(moved), "transformed back"))
            tol = 1e-13 * norm(M) * norm(X) * (1 + norm(mags) * norm(X)) * max(geom.scale_of(*[s for c in R for s in c]), geom.scale_of(*[s for c in raw(before, "") for s in c]))
            require(shape(back) == shape(got), "%s: transformed back, the segments have %r points", what, shape(back))
            for gc, wc in zip(back, strip(raw(before, ""))):
                for g, w in zip(gc, wc):
                    for p, q in zip(g, w):
                        require(pclose(p, q, tol), "%s: transformed back, %r has become %r", what, q, p)
            lab.append("*and back")
    require(moved == kept and recorded == before, "%s: looking at the contours changed them", what)
    lab.append("*%s" % ("composite" if case["component"] else "simple") + (", %d transforms" % len(steps)))
    lab += sorted({"*order %d" % (len(s) - 1) for c in R for s in c})
    return lab


amount = st.one_of(gen.ints(-500, 500), gen.ints(-99, 99).map(lambda v: v / 2))
step = st.tuples(st.sampled_from(["translate", "scale", "shear", "turn", "mirror", "affine"]), amount, amount, st.sampled_from([-1, 0.5, 1, 2, -2, 3])).map(list)
component = st.one_of(st.none(), st.none(), affine())


def outline(paths, n):
    return st.fixed_dictionaries(dict(paths=paths, component=component, both=st.booleans(), steps=st.lists(step, max_size=n), one=st.booleans(), poly=st.booleans(), back=st.booleans()))


CLAUSES = [
    Clause("way", outline(st.lists(path(), min_size=1, max_size=3), 3), c_way, quick=3500, thorough=25000, shards=5, rule="something is drawn"),
    Clause("long", outline(gen.seeded(long_paths, 1, 40), 2), c_way, quick=300, thorough=2500, shards=3, rule="something is drawn"),
    Clause("many", outline(gen.seeded_log(many_paths, 8, 80), 2), c_way, quick=160, thorough=1200, shards=3, rule="something is drawn"),
]
