"""C24 Contours and outlines stay consistent under editing."""
import copy
import math
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import BContour, BOutline, Bezier

QUERIES = ["start", "end", "iter", "index", "beyond", "bounds", "lut", "d", "closest", "curves", "curve lut"]


def rect(r, what):
    return (num(r.left, what), num(r.bottom, what), num(r.right, what), num(r.top, what))


def alike(a, b):
    """Equal up to rounding."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-10 * max(1, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(alike, a, b))
    return a == b


def answer(b, q, k, x, n):
    """The answer of contour b to query q, as plain data."""
    if q == "start":
        return point(b.start, "start")
    if q == "end":
        return point(b.end, "end")
    if q == "iter":
        return [points(c.controlPoints) for c in b]
    if q == "index":
        return points(b[k % n].controlPoints), points(b[k % n - n].controlPoints)
    if q == "beyond":
        # past either end there is nothing to get, set or delete
        out = []
        for i in (n + k, -n - 1 - k):
            for f in (lambda: b[i], lambda: b.__setitem__(i, [(0, 0), (1, 1)]), lambda: b.__delitem__(i)):
                try:
                    f()
                    fail("index %d of a contour of %d curves can be used", i, n)
                except IndexError:
                    out.append(len(list(b)))
        return out
    if q == "bounds":
        return rect(b.boundsRectangle, "boundsRectangle")
    if q == "lut":
        return points(b.getLUT(2 + k), "getLUT")
    if q == "d":
        return b.d()
    if q == "closest":
        d, p = b.findClosestPoint(tuple(x), 2 + k)
        return (num(d), point(p))
    if q == "curves":
        return [points(c.controlPoints) for c in b.beziers]
    if q == "curve lut":
        return points(b[k % n].getLUT(2 + k % 7), "getLUT")


def c_edit(case):
    """history of edits and queries, each query compared with a contour built from the current segments"""
    C = [geom.tup(s) for s in case["c"]]
    arg = [list(s) for s in C]
    b = BContour(arg)
    lab = set()
    edited = False
    hist = []
    held = []
    for op in case["ops"]:
        kind, k = op[0], op[1]
        # what was handed out before stays as it was
        if (k + len(op[2])) % 3 == 0:
            lut, box, z = b.getLUT(2 + k % 3 if k % 2 else 100), b.boundsRectangle, b[k % len(C)]
            held += [(hist[:], "lookup table", lambda v=lut: list(v), list(lut)), (hist[:], "bounds", lambda v=box: rect(v, "bounds"), rect(box, "bounds")),
                     (hist[:], "curve", lambda v=z: points(v.controlPoints), points(z.controlPoints))]
        if kind in ("set", "bend", "swap", "tweak", "reverse", "same"):
            i = k % len(C)
            s = geom.tup(op[2])
            old = list(C[i])
            if kind == "swap":
                s = old[:1] + old[-2:0:-1] + old[-1:]
            elif kind == "tweak":
                # one control point, perhaps by very little
                j = k // 2 % len(old)
                s = old[:j] + [s[0] if op[3] else (old[j][0], old[j][1] + 1)] + old[j + 1:]
            elif kind == "reverse":
                s = old[::-1]
            elif kind == "same":
                s = old
            if kind == "bend":
                # the ends stay, so that the contour stays connected
                s = [C[i][0]] + s[1:-1] + [C[i][-1]]
            if op[3]:
                i -= len(C)
            b[i] = list(s)
            C[i] = s
            edited = True
        elif kind == "del":
            if len(C) == 1:
                continue
            i = k % len(C)
            if op[3]:
                i -= len(C)
            del b[i]
            del C[i]
            edited = True
        else:
            got = answer(b, kind, k, op[2][-1], len(C))
            want = answer(BContour([list(s) for s in C]), kind, k, op[2][-1], len(C))
            require(alike(got, want), "after %r on %r, %s is %r, a contour of the current segments gives %r", hist, case["c"], kind, got, want)
            if edited:
                lab.add("*%s after edit" % kind)
        hist.append([kind, k] + ([s] if kind not in ["del"] + QUERIES else []))
        if case["all"] and edited:
            fresh = BContour([list(s) for s in C])
            for q in QUERIES:
                got, want = answer(b, q, k, op[2][-1], len(C)), answer(fresh, q, k, op[2][-1], len(C))
                require(alike(got, want), "after %r on %r, %s is %r, a contour of the current segments gives %r", hist, case["c"], q, got, want)
            lab.add("*all queries after edit")
    for h, what, now, then in held:
        require(now() == then, "the %s handed out after %r on %r was %r, after %r it is %r", what, h, case["c"], then, hist, now())
    require(point(b.start) == tuple(map(float, C[0][0])), "start is %r", b.start)
    require(point(b.end) == tuple(map(float, C[-1][-1])), "end is %r", b.end)
    require([points(c.controlPoints) for c in b] == [[tuple(map(float, p)) for p in s] for s in C], "iteration gives %r, the segments are %r", [c.controlPoints for c in b], C)
    return sorted(lab) or "no query after an edit"


def contour_box(C):
    """Exact bounds (l, b, r, t) of the curves of a contour, as floats."""
    bb = [(xl, yl, xh, yh) for (xl, xh), (yl, yh) in (geom.bbox(s) for s in C)]
    return (min(x[0] for x in bb), min(x[1] for x in bb), max(x[2] for x in bb), max(x[3] for x in bb))


def c_outline(case):
    O = [[geom.tup(s) for s in c] for c in case["o"]]
    O0 = copy.deepcopy(O)
    o = BOutline(O)
    for what, cs in (("bContours", o.bContours), ("contours", o.contours), ("iteration", o)):
        cs = seq(cs, what, len(O))
        require([[points(b.controlPoints) for b in c] for c in cs] == [[[tuple(map(float, p)) for p in s] for s in c] for c in O], "%s of an outline of %r differ", what, O)
    boxes = []
    sc = max([1] + [geom.scale_of(s) for c in O for s in c])
    for c, bc in zip(O, o.bContours):
        w = contour_box(c)
        boxes.append(w)
        g = rect(bc.boundsRectangle, "contour bounds")
        require(all(close(a, b, 1e-11 * sc) for a, b in zip(g, w)), "bounds of the contour %r are %r, expected %r", c, g, w)
        require(point(bc.start) == tuple(map(float, c[0][0])) and point(bc.end) == tuple(map(float, c[-1][-1])), "start, end of a contour are %r, %r", bc.start, bc.end)
        # each curve's own rectangle is inside, and all sides are touched by one
        rs = [rect(z.boundsRectangle, "curve bounds") for z in bc]
        u = (min(r[0] for r in rs), min(r[1] for r in rs), max(r[2] for r in rs), max(r[3] for r in rs))
        require(g == u, "bounds of a contour are %r, those of its curves together %r", g, u)
    if boxes:
        w = (min(x[0] for x in boxes), min(x[1] for x in boxes), max(x[2] for x in boxes), max(x[3] for x in boxes))
        g = rect(o.boundsRectangle, "outline bounds")
        require(all(close(a, b, 1e-11 * sc) for a, b in zip(g, w)), "bounds of the outline %r are %r, expected %r", O, g, w)
    for c in O:
        cs = [BOutline.segmentFromPoints(s) for s in c]
        for z, s in zip(cs, c):
            require(isinstance(z, Bezier) and points(z.controlPoints) == [tuple(map(float, p)) for p in s], "segmentFromPoints(%r) has %r", s, z.controlPoints)
        p = BOutline.pathFromSegments(*cs)
        require([points(z.controlPoints) for z in p] == [[tuple(map(float, q)) for q in s] for s in c], "pathFromSegments of %r has other segments", c)
        if case["again"]:
            # the same curve may be used more than once
            p = BOutline.pathFromSegments(*[cs[i % len(cs)] for i in case["again"]])
            require([points(z.controlPoints) for z in p] == [[tuple(map(float, q)) for q in c[i % len(c)]] for i in case["again"]], "pathFromSegments of the curves %r of %r has other segments", case["again"], c)
        for s in c:
            xs, ys = seq(BOutline.unzipPoints(s), "unzipPoints", 2)
            require(list(xs) == [q[0] for q in s] and list(ys) == [q[1] for q in s], "unzipPoints(%r) is %r, %r", s, xs, ys)
            for q in s:
                for cls in (Bezier, BContour, BOutline):
                    require(tuple(cls.pointXY(q)) == tuple(q) and tuple(cls.pointXY(cls.xyPoint(*q))) == tuple(q), "%s.pointXY(%r) is %r", cls.__name__, q, cls.pointXY(q))
    require(O == O0, "the contours were modified")
    return "*%s contours" % (len(O) if len(O) < 12 else "12 or more") if O else "empty"


def c_outline_edit(case):
    """history of edits of the contours in an outline: it stays the outline of their current segments"""
    O = [[geom.tup(s) for s in c] for c in case["o"]]
    o = BOutline([[list(s) for s in c] for c in O])
    lab = set()
    hist = []
    for kind, i, k, seg in case["ops"]:
        c, b = O[i % len(O)], seq(o.contours if k % 2 else o.bContours, "contours", len(O))[i % len(O)]
        j = k % len(c)
        if kind == "set":
            b[j] = geom.tup(seg)
            c[j] = geom.tup(seg)
        elif kind == "del" and len(c) > 1:
            del b[j]
            del c[j]
        hist.append([kind, i % len(O), j, seg])
        if kind == "look" or case["all"]:
            f = BOutline([[list(s) for s in c] for c in O])
            lab.add("*look")
            for what, fn in (("bounds", lambda x: rect(x.boundsRectangle, "bounds")), ("bounds of the contours", lambda x: [rect(z.boundsRectangle, "bounds") for z in x]),
                             ("curves", lambda x: [[points(y.controlPoints) for y in z] for z in x.contours]), ("path strings", lambda x: [z.d() for z in x.bContours])):
                got, want = fn(o), fn(f)
                require(alike(got, want), "after %r on the outline %r, %s: %r, an outline of the current contours gives %r", hist, case["o"], what, got, want)
    return sorted(lab) or "no query"


def op(f):
    seg = st.tuples(st.just(f), gen.ints(2, 4)).flatmap(lambda t: st.lists(gen.pt(t[0]), min_size=t[1], max_size=t[1]))
    return st.tuples(st.sampled_from(["set", "set", "del", "del", "bend", "swap", "tweak", "reverse", "same"] + QUERIES * 2), gen.ints(0, 12), seg, st.booleans()).map(list)


@st.composite
def history(draw):
    f = draw(st.sampled_from(["tiny", "small", "font", "half", "noisy"]))
    c = draw(gen.contour(1, 6, flavours=[f]))
    return dict(c=c, ops=draw(gen.lists(op(f), 1, 9, 20)), all=draw(gen.ints(0, 3)) == 0)


@st.composite
def outline_history(draw):
    f = draw(st.sampled_from(["tiny", "small", "font", "half", "noisy"]))
    seg = gen.ints(2, 4).flatmap(lambda n: st.lists(gen.pt(f), min_size=n, max_size=n))
    ops = st.tuples(st.sampled_from(["set", "del", "look"]), gen.ints(0, 6), gen.ints(0, 9), seg).map(list)
    return dict(o=draw(st.lists(gen.contour(1, 3, flavours=[f]), min_size=1, max_size=3)), ops=draw(st.lists(ops, min_size=1, max_size=8)), all=draw(st.booleans()))


def c_tables(case):
    """tables asked for before and after edits, of sizes that make them equally long"""
    C = [geom.tup(s) for s in case["c"]]
    b = BContour([list(s) for s in C])
    left = max(1, len(C) - case["dels"])
    first, then = case["m"] * left + 1, case["m"] * len(C) + 1
    t = b.getLUT(first)
    was = list(t)
    for _ in range(len(C) - left):
        i = case["at"] % len(C)
        del b[i]
        del C[i]
    if case["set"]:
        i = case["at"] % len(C)
        b[i] = C[i] = geom.tup(case["set"])
    for steps in [then, first][:2 if case["again"] else 1]:
        got, f = points(b.getLUT(steps), "getLUT"), BContour([list(s) for s in C])
        require(alike(got, points(f.getLUT(steps), "getLUT")), "getLUT(%d) after getLUT(%d) and edits of %r to %r is %r", steps, first, case["c"], C, got)
        (d, p), (e, q) = b.findClosestPoint(tuple(case["x"]), steps), f.findClosestPoint(tuple(case["x"]), steps)
        require(alike([num(d), point(p)], [num(e), point(q)]), "findClosestPoint(%r, %d) after edits of %r to %r is %r, %r", case["x"], steps, case["c"], C, d, p)
    require(list(t) == was, "the table handed out before has changed")
    return ("*fewer curves" if left < len(case["c"]) else "") + ("*replaced" if case["set"] else "") or "unedited"


@st.composite
def tables(draw):
    f = draw(st.sampled_from(["tiny", "small", "font", "half", "noisy"]))
    return dict(c=draw(gen.contour(1, 6, flavours=[f])), m=draw(st.one_of(gen.ints(1, 6), gen.ints(1, 60), gen.ints(1, 200))), dels=draw(gen.ints(0, 3)), at=draw(gen.ints(0, 5)), x=draw(gen.pt(f)), again=draw(st.booleans()),
                set=draw(st.one_of(st.none(), gen.ints(2, 4).flatmap(lambda n: st.lists(gen.pt(f), min_size=n, max_size=n)))))


def rnd_seg(r, c):
    return [[c(), c()] for _ in range(r.randint(2, 4))]


def long_history(r, n):
    """few edits of a contour of n curves"""
    c = gen.rnd_coord(r, False)
    kinds = ["set", "set", "del", "bend", "tweak", "reverse"] + QUERIES
    return dict(c=gen.rnd_contour(r, n, large=False), all=r.random() < 0.3, ops=[[r.choice(kinds), r.randint(0, n), rnd_seg(r, c), r.random() < 0.5] for _ in range(r.randint(2, 6))])


def wide_history(r, n):
    """few edits of an outline of n segments"""
    c = gen.rnd_coord(r, False)
    o = gen.rnd_contours(r, n, large=False)
    return dict(o=o, all=r.random() < 0.5, ops=[[r.choice(["set", "del", "look"]), r.randint(0, len(o)), r.randint(0, n), rnd_seg(r, c)] for _ in range(r.randint(2, 6))])


CLAUSES = [
    Clause("edit", history(), c_edit, quick=2500, thorough=50000, shards=5, rule="at least one query after an edit"),
    Clause("outline", st.fixed_dictionaries(dict(o=gen.lists(gen.contour(1, 4), 0, 4, 12), again=st.lists(gen.ints(0, 20), max_size=4))), c_outline, quick=1000, thorough=20000, shards=2, rule="at least one contour"),
    Clause("outline-edit", outline_history(), c_outline_edit, quick=600, thorough=12000, shards=2, rule="the outline is looked at"),
    Clause("tables", tables(), c_tables, quick=1500, thorough=15000, shards=4, rule="curves were deleted or replaced between two tables"),
    Clause("long-edit", gen.seeded_log(long_history, 10, 80), c_edit, quick=150, thorough=2500, shards=3, rule="at least one query after an edit"),
    Clause("large-outline", st.fixed_dictionaries(dict(o=gen.seeded_log(gen.rnd_contours, 8, 200), again=st.lists(gen.ints(0, 200), max_size=80))), c_outline, quick=80, thorough=1000, shards=2, rule="at least one contour"),
    Clause("large-outline-edit", gen.seeded_log(wide_history, 8, 150), c_outline_edit, quick=80, thorough=1000, shards=2, rule="the outline is looked at"),
]
