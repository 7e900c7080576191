"""C20 The segment pen records closed, connected outlines faithfully."""
import copy
import logging
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.SegmentPen import SegmentPen

LOG = logging.getLogger("pbt")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LOG.setLevel(logging.CRITICAL)


def model(paths):
    """Contours drawn by the paths: lists of segments of (x, y)."""
    out = []
    for path in paths:
        pen, segs = tuple(path["start"]), []
        for op, pts in path["ops"]:
            pts = [tuple(p) for p in pts]
            if op == "line":
                if pts[0] != pen:
                    segs.append([pen, pts[0]])
            elif op == "curve":
                segs.append([pen] + pts)
            else:
                offs = pts[:-1]
                ons = [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(offs, offs[1:])] + [pts[-1]]
                if not offs:
                    segs.append([pen, pts[0]])
                s = pen
                for o, e in zip(offs, ons):
                    segs.append([s, o, e])
                    s = e
            pen = pts[-1]
        if segs and path.get("closes", 1):
            if segs[-1][-1] != segs[0][0]:
                segs.append([segs[-1][-1], segs[0][0]])
            out.append(segs)
    return out


def draw(pen, paths, each=None):
    for path in paths:
        pen.moveTo(tuple(path["start"]))
        for op, pts in path["ops"]:
            pts = [tuple(p) for p in pts]
            {"line": pen.lineTo, "curve": pen.curveTo, "qcurve": pen.qCurveTo}[op](*pts)
        for _ in range(path.get("closes", 1)):
            pen.closePath()
        if each:
            each()


def read(contours, what):
    return [[points(s, what) for s in seq(c, what + " contour")] for c in seq(contours, what)]


def compare(got, want, what):
    require(len(got) == len(want), "%s: %d contours instead of %d: %r", what, len(got), len(want), got)
    for i, (g, w) in enumerate(zip(got, want)):
        if any(len(s) == 2 and s[0] == s[1] for s in w):
            # a qCurveTo the current point: may be left out as a zero-length line is
            g, w = [[s for s in c if len(s) != 2 or s[0] != s[1]] for c in (g, w)]
        require([len(s) for s in g] == [len(s) for s in w], "%s: contour %d has segments of %r points, expected %r: %r", what, i, [len(s) for s in g], [len(s) for s in w], g)
        for a, b in zip(g, w):
            for p, q in zip(a, b):
                require(pclose(p, q, 1e-14 * max(1, abs(q[0]), abs(q[1]))), "%s: contour %d has %r instead of %r", what, i, p, q)
        for a, b in zip(g, g[1:] + g[:1]):
            require(a[-1] == b[0], "%s: contour %d is not connected or not closed: %r, %r", what, i, a, b)


def c_pen_end(case):
    return c_pen(case, False)


def c_pen(case, step=True):
    paths = case["paths"]
    pen = SegmentPen({}, LOG)
    n = [0]

    def each():
        n[0] += 1
        compare(read(pen.contours, "contours"), model(paths[:n[0]]), "after %d paths of %r" % (n[0], paths))

    draw(pen, paths, each if step else None)
    want = model(paths)
    compare(read(pen.contours, "contours"), want, "contours of %r" % (paths,))
    again = copy.deepcopy(pen.contours)
    require(pen.contours == again, "contours differ when read again")
    # another pen used meanwhile does not matter
    other = SegmentPen({}, LOG)
    compare(read(other.contours, "contours"), [], "a new pen")
    draw(other, paths[::-1])
    compare(read(other.contours, "contours"), model(paths[::-1]), "second pen")
    compare(read(pen.contours, "contours"), want, "first pen after using a second")
    lab = []
    if any(q.get("closes", 1) == 2 for q in paths):
        lab.append("*closed twice")
    if any(q.get("closes", 1) == 0 and q["ops"] for q in paths):
        lab.append("*abandoned path")
    if len(want) < len(paths):
        lab.append("*empty path")
    if any(op == "qcurve" and len(p) > 3 for q in paths for op, p in q["ops"]):
        lab.append("*run of off-curve points")
    if any(op == "line" and p[0] == ((q["ops"][i - 1][1][-1]) if i else q["start"]) for q in paths for i, (op, p) in enumerate(q["ops"])):
        lab.append("*zero-length line")
    if any(len(w) > sum(1 for _ in q["ops"]) for w, q in zip(want, [q for q in paths if model([q])])):
        lab.append("*closing line or split run")
    lab.append("*%d contours" % len(want) if want else "none")
    return lab


@st.composite
def path(draw, max_ops=6):
    P = gen.pt(draw(st.sampled_from(["tiny", "small", "font", "half", "noisy", "milli"])))
    start = draw(P)
    pen = list(start)
    ops = []
    for _ in range(draw(gen.ints(0, max_ops))):
        op = draw(st.sampled_from(["line", "line", "curve", "qcurve", "qcurve"]))
        if op == "line":
            pts = [draw(st.one_of(P, st.just(list(pen)), st.just(list(start)), P))]
        elif op == "curve":
            pts = [draw(P) for _ in range(draw(st.sampled_from([3, 3, 3, 2])))]
        else:
            pts = [draw(P) for _ in range(draw(gen.ints(1, 7)))]
            curved = any(len(p) > 1 for _, p in ops)
            if len(pts) == 1 and pts[0] == pen and not curved:
                pts = [list(pen), [pen[0] + 1, pen[1]]]
            elif curved and draw(gen.ints(0, 9)) == 0:
                pts = [list(pen)]
        if op != "line" and draw(gen.ints(0, 3)) == 0 and pts[-1] != list(start) and len(pts) > 1:
            pts[-1] = list(start)
        ops.append([op, pts])
        pen = list(pts[-1])
    if ops and draw(gen.ints(0, 3)) == 0:
        ops.append(["line", [list(start)]])
    return dict(start=start, ops=ops, closes=draw(st.sampled_from([1] * 8 + [2, 0])))


def long_paths(r, n):
    """n path operations, runs of off-curve points of any length"""
    out = []
    while n > 0:
        c = gen.rnd_coord(r)
        pen = start = [c(), c()]
        ops = []
        for _ in range(r.randint(0, n)):
            op = r.choice(["line", "curve", "qcurve", "qcurve"])
            m = 1 if op == "line" else r.choice([2, 3]) if op == "curve" else r.choice([r.randint(1, 4), r.randint(1, 30)])
            pts = [[c(), c()] for _ in range(m)]
            if op == "qcurve" and pts == [pen]:
                pts = [[pen[0] + 1, pen[1]]]
            if r.random() < 0.2 and (op == "line" or m > 1):
                pts[-1] = list(start)
            ops.append([op, pts])
            pen = pts[-1]
        out.append(dict(start=start, ops=ops, closes=r.choice([1] * 8 + [2, 0])))
        n -= 1 + len(ops)
    return out


def many_paths(r, n):
    """n contours of few operations, or few of long runs of off-curve points"""
    c = gen.rnd_coord(r)
    out = []
    k = r.randrange(2)
    for _ in range(n if k else r.randint(1, 3)):
        start = [c(), c()]
        ops = []
        for _ in range(r.randint(1, 2)):
            op = r.choice(["line", "curve", "qcurve"]) if k else "qcurve"
            m = 1 if op == "line" else 3 if op == "curve" else r.randint(2, 4) if k else n + r.randint(0, 3)
            ops.append([op, [[c(), c()] for _ in range(m)]])
        out.append(dict(start=start, ops=ops, closes=r.choice([1] * 8 + [2, 0])))
    return out


CLAUSES = [
    Clause("pen", st.fixed_dictionaries(dict(paths=st.lists(path(), min_size=1, max_size=5))), c_pen, quick=8500, thorough=80000, shards=4, rule="at least one contour, or an empty path"),
    Clause("long", st.fixed_dictionaries(dict(paths=gen.seeded(long_paths, 1, 60))), c_pen, quick=700, thorough=10000, shards=4, rule="at least one contour, or an empty path"),
    Clause("many", st.fixed_dictionaries(dict(paths=gen.seeded_log(many_paths, 8, 160))), c_pen_end, quick=200, thorough=3000, shards=2, rule="at least one contour, or an empty path"),
]
