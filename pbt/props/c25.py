"""C25 Plotted paths draw exactly the given geometry."""
import copy
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom, svg, standin
from .c22 import zero, want_segments, grid
from PathLib.Bezier import BContour, BOutline, Bezier
from PathLib.Color import Color
from PathLib.ContourPlotter import ContourPlotter
from FontDocTools import GlyphPlotterEngine as GPE


class Curve:
    def __init__(self, pts):
        self.controlPoints = pts


class ComplexPath:
    """A path whose points are complex numbers, as drawPaths accepts."""
    def __init__(self, C):
        self.curves = [Curve([complex(x, y) for x, y in s]) for s in C]
        self.start = self.curves[0].controlPoints[0]

    def __iter__(self):
        return iter(self.curves)

    @staticmethod
    def pointXY(p):
        return p.real, p.imag


def elements(content, what):
    out = []
    for c in content:
        require(isinstance(c, str), "%s: content is not a string: %r", what, c)
        try:
            e = ET.fromstring(c)
        except ET.ParseError as x:
            fail("%s: not well-formed: %s: %r", what, x, c)
        require(e.tag == "path" and "d" in e.attrib, "%s: not a path: %r", what, c)
        try:
            subs = svg.draw(e.attrib["d"])
        except svg.BadPath as x:
            fail("%s: invalid path data (%s): %r", what, x, c)
        out.append((e, subs))
    return out


def check_geometry(els, C, what, closed=None):
    subs = [s for _, ss in els for s in ss]
    d = [e.attrib["d"] for e, _ in els]
    require(len(subs) == len(C), "%s draws %d subpaths instead of %d: %r", what, len(subs), len(C), d)
    for s, c in zip(subs, C):
        want = want_segments(c)
        start = tuple(float(v) for v in c[0][0])
        require(s["start"] == start, "%s: subpath starts at %r instead of %r: %r", what, s["start"], start, d)
        got = [x for x in s["segs"] if not zero(x)]
        for i, (g, w) in enumerate(zip(got, want)):
            require(g == w, "%s: segment %d is %r instead of %r: %r", what, i, g, w, d)
        require(len(got) == len(want), "%s: %d segments instead of %d: %r", what, len(got), len(want), d)
        if closed is not None:
            require(s["closed"] == closed, "%s: subpath is %sclosed: %r", what, "" if s["closed"] else "not ", d)


def check_paint(els, fill, color, attrs, what):
    fc, fo, sw, sc, so, sd = attrs
    for e, _ in els:
        a = e.attrib
        if fill:
            require(a.get("fill") == str(color or fc) and a.get("fill-opacity") == str(fo), "%s: painted with %r, expected fill %s at %s", what, a, color or fc, fo)
        else:
            require(a.get("fill") == "none" and a.get("stroke") == str(color or sc) and a.get("stroke-opacity") == str(so) and a.get("stroke-width") == str(sw) and a.get("stroke-dasharray") == (None if sd is None else str(sd)),
                    "%s: painted with %r, expected the stroke %s", what, a, color or sc)


def polyline(ps):
    return [[list(a), list(b)] for a, b in zip(ps, ps[1:])] or [[list(ps[0]), list(ps[0])]]


def circles(calls, ps, radius, colors, fill, attrs, what):
    cs = [c for c in calls if c[0] == "circle"]
    require(len(cs) == len(ps), "%s draws %d circles instead of %d", what, len(cs), len(ps))
    for i, (c, p) in enumerate(zip(cs, ps)):
        require((c[2], c[3], c[4]) == (p[0], p[1], radius) and c[1] == GPE.CoordinateSystem.content, "%s: circle %r instead of %r", what, c, (p, radius))
        require(c[5] == (GPE.PaintMode.fill if fill else GPE.PaintMode.stroke), "%s: circle is painted by %r", what, c[5])
        col = colors[i % len(colors)] if colors else attrs[0 if fill else 3]
        require(c[6 if fill else 9] == col, "%s: circle %d has the colour %r instead of %r", what, i, c[6 if fill else 9], col)


def c_history(case):
    P = ContourPlotter(tuple(case["bounds"]), poly=case["poly"])
    col = (lambda n: Color.fromName(n) if n and case["objects"] else n)
    fills, strokes = [], []
    model = list(P.attributes())
    lab = set()
    other = None
    for op in case["ops"]:
        kind = op["kind"]
        if case["poly"] == case["objects"]:
            # somebody else's plotter, with attributes of its own
            other = other or ContourPlotter((0, 0, 100, 100), poly=not case["poly"])
            other.pushFillAttributes(color="magenta", opacity=0.125)
            other.pushStrokeAttributes(width=77, color="magenta", dash="7")
            other.drawContours([[[(0, 0), (7, 0)], [(7, 0), (7, 7)]]])
        n, m = len(P._content), len(P.calls)
        old = list(P._content)
        color = col(op["color"])
        colors = [col(c) for c in op["colors"]] or None
        C = [[geom.tup(s) for s in c] for c in op["c"]]
        C0 = copy.deepcopy(C)
        what = "%s(color=%r, fill=%r, close=%r)%s of %r" % (kind, op["color"], op["fill"], op["close"], " in poly mode" if case["poly"] else "", C)
        ps = [p for s in C[0] for p in s][:op.get("n", 6)]
        if kind == "contours":
            P.drawContours(C, color=color, fill=op["fill"], close=op["close"])
            els = elements(P._content[n:], what)
            check_geometry(els, C, what, op["close"])
            check_paint(els, op["fill"], color, model, what)
        elif kind == "default":
            P.drawContours(C)
            els = elements(P._content[n:], what)
            check_geometry(els, C, what, True)
            check_paint(els, False, None, model, what)
        elif kind == "paths":
            paths = [ComplexPath(c) if z else BContour(c) for c, z in zip(C, op["z"] * len(C))]
            P.drawPaths(paths, color=color, fill=op["fill"])
            els = elements(P._content[n:], what)
            # complex numbers have float parts
            check_geometry(els, C, what)
            check_paint(els, op["fill"], color, model, what)
        elif kind == "outline":
            P.drawPaths(BOutline(C), color=color, fill=op["fill"])
            els = elements(P._content[n:], what)
            check_geometry(els, C, what)
            check_paint(els, op["fill"], color, model, what)
        elif kind == "curve":
            P.drawCurve(C[0][0], color=color)
            els = elements(P._content[n:], what)
            check_geometry(els, [[C[0][0]]], what, False)
            check_paint(els, False, color, model, what)
        elif kind == "points":
            P.drawPointsAsSegments(ps, color=color)
            els = elements(P._content[n:], what)
            check_geometry(els, [polyline(ps)], what, False)
            check_paint(els, False, color, model, what)
        elif kind == "circles":
            P.drawPointsAsCircles([complex(*p) for p in ps] if op["z"][0] else ps, 3, colors=colors, fill=op["fill"])
            circles(P.calls[m:], ps, 3, colors, op["fill"], model, what)
        elif kind == "complexCircles":
            P.drawComplexPointsAsCircles([complex(*p) for p in ps], 3, colors=colors, fill=op["fill"])
            circles(P.calls[m:], ps, 3, colors, op["fill"], model, what)
        elif kind == "arrow":
            P.drawArrowBetweenPoints(ps[0], ps[-1], color=color)
            calls = P.calls[m:]
            require(len(calls) == 1 and calls[0][0] == "arrow" and calls[0][2:6] == ps[0] + ps[-1], "%s draws %r", what, calls)
            require(calls[0][-3] == (color or model[3]), "%s: the arrow has the colour %r", what, calls[0][-3])
        elif kind == "text":
            P.drawText(ps[0][0], ps[0][1], "left" if op["close"] else "center", "t%d" % len(ps), margin=op["fill"])
            want = ("label", GPE.CoordinateSystem.contentMargins if op["fill"] else GPE.CoordinateSystem.content, ps[0][0], ps[0][1], "left" if op["close"] else "center", "t%d" % len(ps))
            require([c[:6] for c in P.calls[m:]] == [want] and P._content == old, "drawText draws %r, expected %r", P.calls[m:], want)
        elif kind in ("skeleton", "hull"):
            s = geom.tup(op["h"]) if op.get("h") else C[0][0]
            b = Bezier(s)
            if kind == "skeleton":
                P.drawSkeleton(b, color, colors) if color and colors else P.drawSkeleton(b)
                levels = [s]
            else:
                t = op["t"]
                P.drawHull(b, t, color, colors[0]) if color and colors else P.drawHull(b, t)
                levels = [s]
                q = s
                while len(q) > 2:
                    q = [(a[0] + (c[0] - a[0]) * t, a[1] + (c[1] - a[1]) * t) for a, c in zip(q, q[1:])]
                    levels.append(q)
            els = elements(P._content[n:], what)
            subs = [x for _, ss in els for x in ss]
            require(len(subs) == len(levels), "%s of %r draws %d paths instead of %d", kind, s, len(subs), len(levels))
            sc = geom.scale_of(s)
            for x, q in zip(subs, levels):
                verts = [x["start"]] + [y[-1] for y in x["segs"]]
                require(all(len(y) == 2 for y in x["segs"]), "%s draws curves", kind)
                wv = list(q)
                if len(levels) == 1 or q is s:
                    wv = [p for i, p in enumerate(q) if i == 0 or p != q[i - 1]]
                    require(len(verts) == len(wv) and all(pclose(a, c, 1e-9 * sc) for a, c in zip(verts, wv)), "%s of %r draws %r instead of %r", kind, s, verts, wv)
                else:
                    # rounding decides whether two points coincide
                    require(all(any(pclose(a, c, 1e-9 * sc) for c in wv) for a in verts) and all(any(pclose(a, c, 1e-9 * sc) for a in verts) for c in wv), "%s of %r at %r draws %r instead of %r", kind, s, op["t"], verts, wv)
            asked = color and colors
            lc = color if asked else ContourPlotter.colorLightGrey
            check_paint(els[:1], False, lc, model, kind)
            for e, _ in els[1:]:
                require(e.attrib.get("fill") == "none" and e.attrib.get("stroke") == str(lc), "%s: hull painted with %r, expected the stroke %s", kind, e.attrib, lc)
            circles(P.calls[m:], [tuple(p) for p in s], 2, (colors if kind == "skeleton" else colors[:1]) if asked else [ContourPlotter.colorBlack], True, model, kind)
            labels = [c for c in P.calls[m:] if c[0] == "label"]
            require(len(labels) == len(s), "%s of %r draws the labels %r", kind, s, labels)
            for c in labels:
                point(c[2:4], "label position")
            off = (labels[0][2] - s[0][0], labels[0][3] - s[0][1])
            for c, p in zip(labels, s):
                require(c[1] == GPE.CoordinateSystem.content and isinstance(c[5], str), "%s: label %r", kind, c)
                try:
                    v = [float(x) for x in c[5].strip("()").split(",")]
                except ValueError:
                    fail("%s: the label %r does not show the coordinates of %r", kind, c[5], p)
                require(len(v) == 2 and all(close(a, x, 0.0051 + 1e-12 * abs(x)) for a, x in zip(v, p)), "%s: the label %r does not show the coordinates of %r", kind, c[5], p)
                # next to its point, all on the same side
                d = (c[2] - p[0], c[3] - p[1])
                require(pclose(d, off, 1e-9 * sc) and max(map(abs, d)) <= 20, "%s: the label of %r is at %r, the first one at %r from its point", kind, p, c[2:4], off)
        elif kind == "pushFill":
            fills.append(model[0:2])
            P.pushFillAttributes(color=color, opacity=op["opacity"])
            if color:
                model[0] = color
            if op["opacity"]:
                model[1] = op["opacity"]
        elif kind == "popFill":
            if not fills:
                continue
            P.popFillAttributes()
            model[0:2] = fills.pop()
        elif kind == "pushStroke":
            strokes.append(model[2:6])
            P.pushStrokeAttributes(width=op["width"], color=color, opacity=op["opacity"], dash=op["dash"])
            for i, v in ((2, op["width"]), (3, color), (4, op["opacity"]), (5, op["dash"])):
                if v:
                    model[i] = v
        elif kind == "popStroke":
            if not strokes:
                continue
            P.popStrokeAtributes()
            model[2:6] = strokes.pop()
        got = list(P.attributes())
        require(got == model, "after %s the attributes (fill, opacity, stroke width, colour, opacity, dash) are %r, expected %r", what, got, model)
        require(P._content[:n] == old, "%s changes content drawn before", what)
        require(C == C0, "%s modifies the contours", what)
        lab.add("*" + kind + (" fill" if op["fill"] and kind in ("contours", "paths", "outline", "circles") else "") + (" poly" if case["poly"] and kind in ("contours", "paths", "outline") else ""))
    return sorted(lab)


color = st.one_of(st.none(), st.sampled_from(["red", "green", "lightgrey", "navy", "orange"]))
contour = st.one_of(gen.contour(1, 4, flavours=["tiny", "small", "font", "half", "noisy", "milli", "bigmilli"]), grid())
ATTRS = dict(color=color, colors=st.just([]), fill=st.booleans(), close=st.booleans(), z=st.just([False]), t=st.just(0.5),
             opacity=st.sampled_from([None, 0.5, 0.25]), width=st.sampled_from([None, 2, 3.5]), dash=st.sampled_from([None, "1, 2", "3"]))
# cheap geometry, so that the options can be explored at length
POOL = [[[[0, 0], [3, 4]]], [[[1, 2], [5, 2]], [[5, 2], [5, 7]], [[5, 7], [8, 9], [1, 2]]], [[[10, 0], [20, 5], [30, -5], [40, 0]], [[40, 0], [40, 0]], [[40, 0], [40, 12]]],
        [[[0, 0], [5, 9], [9, 0]]], [[[0.5, -3], [0.5, 8]], [[0.5, 8], [0.5, 2]], [[0.5, 2], [-7, 2]], [[-7, 2], [1, 1], [2, 3], [4, 9]], [[4, 9], [1, 6], [5, 3], [0.5, -3]]]]
cheap = gen.lists(st.sampled_from(POOL), 1, 3, 8)
attr_op = st.fixed_dictionaries(dict(ATTRS, kind=st.sampled_from(["pushFill", "pushFill", "popFill", "popFill"] + ["pushStroke", "popStroke"] * 4 + ["points", "contours"]),
                                     c=cheap))
option_op = st.fixed_dictionaries(dict(ATTRS, kind=st.sampled_from(["circles", "complexCircles", "arrow", "text", "skeleton", "hull", "curve", "points", "contours", "paths", "outline", "default", "pushFill", "popFill", "pushStroke", "popStroke"]),
                                       c=cheap, n=gen.ints(1, 12), colors=st.lists(st.sampled_from(["red", "green", "navy"]), max_size=3), z=st.lists(st.booleans(), min_size=1, max_size=2), t=st.sampled_from([0, 0.5, 1, 0.3])))
op = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["contours"] * 4 + ["paths"] * 3 + ["outline", "default", "curve", "points", "points", "circles", "complexCircles", "arrow", "text", "skeleton", "hull", "pushFill", "popFill", "pushStroke", "popStroke"]),
    c=gen.lists(contour, 1, 3, 9), n=gen.size(1, 6, 40), h=st.one_of(st.none(), gen.curve((1, 2, 3, 4, 5, 6, 7), ["tiny", "small", "font", "half", "noisy", "milli", "bigmilli"])), color=color, colors=st.lists(color.filter(bool), max_size=3), fill=st.booleans(), close=st.booleans(), z=st.lists(st.booleans(), min_size=1, max_size=2),
    t=gen.unit, opacity=st.sampled_from([None, 0.5, 0.25]), width=st.sampled_from([None, 2, 3.5]), dash=st.sampled_from([None, "1, 2"])))



def rnd_call(r, kinds, c, n=None):
    """a drawing call with the arguments c_history reads"""
    f = lambda *v: r.choice(v)
    return dict(kind=r.choice(kinds), c=c, n=n or r.randint(1, 12), h=None, color=f(None, "red", "green", "lightgrey"), colors=[f("red", "green", "navy") for _ in range(r.choice([0, 1, 3, r.randint(4, 20)]))],
                fill=f(True, False), close=f(True, False), z=[f(True, False)], t=f(0, 0.5, 1, 0.3), opacity=f(None, 0.5, 0.25), width=f(None, 2, 3.5), dash=f(None, "1, 2", "3"))


DRAW = ["contours", "default", "paths", "outline", "curve", "points", "circles", "complexCircles", "arrow", "text", "skeleton", "hull"]
PUSH = ["pushFill", "pushStroke"]
POP = ["popFill", "popStroke"]


def busy(r, n):
    """many calls, attributes nested deeply, or few calls of large geometry"""
    k = r.randrange(3)
    few = lambda: [r.choice(POOL) for _ in range(r.randint(1, 3))]
    if k == 0:
        ops = [rnd_call(r, DRAW + PUSH + POP, few()) for _ in range(n)]
    elif k == 1:
        ops = [rnd_call(r, PUSH * 4 + ["points"], few()) for _ in range(n)] + [rnd_call(r, POP * 4 + ["points"], few()) for _ in range(2 * n)]
    else:
        ops = [rnd_call(r, DRAW[:4] * 2 + DRAW[5:8] * 2 + ["skeleton", "hull"], gen.rnd_contours(r, n, large=False), n) for _ in range(r.randint(1, 3))]
    return dict(bounds=[0, 0, 100, 100], poly=r.random() < 0.5, objects=r.random() < 0.5, ops=ops)


CLAUSES = [
    Clause("history", st.fixed_dictionaries(dict(bounds=st.tuples(gen.ints(-500, 0), gen.ints(-500, 0), gen.ints(100, 2000), gen.ints(100, 2000)).map(list), poly=st.booleans(), objects=st.booleans(), ops=st.lists(op, min_size=1, max_size=5))),
           c_history, quick=2700, thorough=40000, shards=8, rule="every case (drawing call labels)"),
    Clause("nested", st.fixed_dictionaries(dict(bounds=st.just([0, 0, 100, 100]), poly=st.just(False), objects=st.booleans(), ops=st.lists(attr_op, min_size=3, max_size=16))),
           c_history, quick=1350, thorough=20000, shards=4, rule="every case (call labels)"),
    Clause("options", st.fixed_dictionaries(dict(bounds=st.just([0, 0, 100, 100]), poly=st.booleans(), objects=st.booleans(), ops=st.lists(option_op, min_size=1, max_size=6))),
           c_history, quick=5450, thorough=40000, shards=8, rule="every case (call labels)"),
    Clause("busy", gen.seeded_log(busy, 8, 150), c_history, quick=300, thorough=4000, shards=4, rule="every case (call labels)"),
]
