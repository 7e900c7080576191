"""C05 Aligning and oriented bounding boxes are rigid and tight."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def frame(s, e):
    """Unit vector from s to e in extended precision (1 if they coincide)."""
    dx, dy = F(e[0]) - F(s[0]), F(e[1]) - F(s[1])
    m = max(abs(dx), abs(dy))
    if m == 0:
        return complex(1, 0)
    z = complex(float(dx / m), float(dy / m))
    return z / abs(z)


def aligned(ps, s, u):
    out = []
    for p in ps:
        z = complex(float(F(p[0]) - F(s[0])), float(F(p[1]) - F(s[1]))) * u.conjugate()
        out.append((z.real, z.imag))
    return out


def c_align(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    seg = case["seg"] and geom.tup(case["seg"])
    keep = list(seg) if seg else None
    r = b.align(seg) if seg else b.align()
    if seg:
        require(seg == keep, "align altered the segment passed in")
    got = points(r.controlPoints, "aligned control points", len(ps))
    s, e = (seg[0], seg[-1]) if seg else (ps[0], ps[-1])
    want = aligned(ps, s, frame(s, e))
    t = 1e-12 * geom.scale_of(ps, seg or [])
    for g, w in zip(got, want):
        require(pclose(g, w, t), "align(%r) gives %r, the rigid motion gives %r", seg, got, want)
    require([tuple(p) for p in b.controlPoints] == ps, "align altered the source curve")
    dx, dy = e[0] - s[0], e[1] - s[1]
    return ["own chord" if not seg else "segment", "point chord" if dx == dy == 0 else "*axis chord" if 0 in (dx, dy) else "*slanted chord"]


def c_tight(case):
    ps = geom.tup(case["p"])
    b = Bezier(list(ps))
    if case["warm"]:
        b.bbox
    c = [points(s, "tightbbox side", 2) for s in seq(b.tightbbox, "tightbbox", 4)]
    sc = geom.scale_of(ps)
    t = 1e-11 * sc
    for s1, s2 in zip(c, c[1:] + c[:1]):
        require(pclose(s1[1], s2[0], t), "tightbbox is not a closed contour: %r", c)
    u = frame(ps[0], ps[-1])
    corners = aligned([s[0] for s in c], ps[0], u)
    want = geom.bbox(aligned(ps, ps[0], u))
    for d in (0, 1):
        lo, hi = min(p[d] for p in corners), max(p[d] for p in corners)
        require(close(lo, want[d][0], t) and close(hi, want[d][1], t),
                "tightbbox spans [%r, %r] %s the chord, the curve spans %r (control points %r)", lo, hi, ("along", "across")[d], want[d], ps)
        for p in corners:
            require(close(p[d], lo, t) or close(p[d], hi, t), "tightbbox %r is not a rectangle along the chord", c)
    cs = [(round((p[0] - want[0][0]) / max(want[0][1] - want[0][0], 1e-300)), round((p[1] - want[1][0]) / max(want[1][1] - want[1][0], 1e-300))) for p in corners]
    if min(want[0][1] - want[0][0], want[1][1] - want[1][0]) > 1e-6 * sc:
        require(len(set(cs)) == 4, "tightbbox %r repeats a corner", c)
        for p, q in zip(cs, cs[1:] + cs[:1]):
            require((p[0] == q[0]) != (p[1] == q[1]), "sides of tightbbox %r cross the rectangle", c)
        return ["*two-dimensional", "order%d" % (len(ps) - 1)]
    return ["flat"]


CLAUSES = [
    Clause("align", st.one_of(gen.curve((1, 2, 3, 4, 5, 6)).flatmap(lambda p: st.fixed_dictionaries(dict(p=st.just(p), seg=st.one_of(st.none(), gen.pts(2, ["tiny", "font", "noisy", "half"]), gen.pts_range(2, 4, ["font", "small"])))))),
           c_align, quick=6800, thorough=60000, shards=2, rule="the alignment chord has a direction"),
    Clause("tightbbox", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 3)), warm=st.booleans())), c_tight, quick=5100, thorough=50000, shards=3,
           rule="curve not on a straight line"),
]
