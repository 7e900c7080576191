"""C22 SVG path strings draw exactly the contour."""
import copy
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom, svg
from PathLib.Bezier import BContour, BOutline, Bezier


def zero(s):
    return len(s) == 2 and s[0] == s[1]


def want_segments(C):
    return [[(float(x), float(y)) for x, y in s] for s in C if not zero(s)]


def read_path(d, what):
    require(isinstance(d, str), "%s is not a string: %r", what, d)
    try:
        return svg.draw(d)
    except svg.BadPath as e:
        fail("%s is not valid SVG path data (%s): %r", what, e, d)


def check_subpath(sub, C, d):
    start = tuple(float(v) for v in C[0][0])
    require(sub["start"] == start, "path %r starts at %r, the contour at %r", d, sub["start"], start)
    got = [s for s in sub["segs"] if not zero(s)]
    want = want_segments(C)
    for i, (g, w) in enumerate(zip(got, want)):
        require(g == w, "path %r: segment %d is %r, expected %r", d, i, g, w)
    require(len(got) == len(want), "path %r draws %d segments, expected %d", d, len(got), len(want))


def features(C):
    lab = set()
    prev = None
    for s in C:
        if zero(s):
            lab.add("*zero-length")
            continue
        k = "V" if len(s) == 2 and s[0][0] == s[1][0] else "H" if len(s) == 2 and s[0][1] == s[1][1] else "LQC"[len(s) - 2]
        lab.add("*" + k + (" repeated" if k == prev else ""))
        prev = k
    return sorted(lab)


def c_d(case):
    C = [geom.tup(s) for s in case["c"]]
    C0 = copy.deepcopy(C)
    b = BContour(C)
    d = b.d()
    subs = read_path(d, "d()")
    require(len(subs) == 1 and not (subs[0]["closed"] and C[-1][-1] != C[0][0]), "d() of one open contour has %d subpaths: %r", len(subs), d)
    check_subpath(subs[0], C, d)
    require(b.d() == d, "d() differs when asked again")
    require(C == C0, "the contour was modified")
    # curves drawn from a contour built from the curves alone
    d2 = BOutline.pathFromSegments(*[Bezier(s) for s in C]).d()
    check_subpath(read_path(d2, "d()")[0], C, d2)
    for c in BOutline([C, C]):
        d2 = c.d()
        check_subpath(read_path(d2, "d()")[0], C, d2)
    return features(C)


@st.composite
def grid(draw):
    """long contours over few coordinates: every pair of commands follows every other"""
    f = draw(st.sampled_from(["tiny", "font", "half", "noisy", "milli", "big"]))
    vs = draw(st.lists(gen.FLAVOURS[f], min_size=2, max_size=4))
    V = st.sampled_from(vs)
    pen = [draw(V), draw(V)]
    out = []
    for _ in range(draw(gen.ints(1, 12))):
        k = draw(gen.ints(0, 9))
        if k < 3:
            s = [pen, [draw(V), draw(V)]]
        elif k < 5:
            s = [pen, [pen[0], draw(V)]]
        elif k < 7:
            s = [pen, [draw(V), pen[1]]]
        else:
            s = [pen] + [[draw(V), draw(V)] for _ in range(2 if k == 7 else 3)]
        s = [list(p) for p in s]
        out.append(s)
        pen = s[-1]
    return out


wide = st.one_of(gen.ints(-10 ** 18, 10 ** 18), st.floats(-1e12, 1e12, allow_nan=False), st.floats(-1e-3, 1e-3, allow_nan=False), gen.ints(-9, 9).map(float))


@st.composite
def extreme(draw):
    """coordinates that print in exponent notation, negative zero, long integers"""
    pen = [draw(wide), draw(wide)]
    out = []
    for _ in range(draw(gen.ints(1, 4))):
        s = [list(pen)] + [[draw(wide), draw(wide)] for _ in range(draw(gen.ints(1, 3)))]
        if len(s) == 2 and draw(st.booleans()):
            s[1][draw(gen.ints(0, 1))] = pen[draw(gen.ints(0, 1))]
        out.append(s)
        pen = s[-1]
    return out


CLAUSES = [
    Clause("grid", st.fixed_dictionaries(dict(c=grid())), c_d, quick=5950, thorough=60000, shards=3, rule="every case (commands and repetitions label)"),
    Clause("free", st.fixed_dictionaries(dict(c=gen.contour(1, 6))), c_d, quick=2550, thorough=20000, rule="every case"),
    Clause("extreme", st.fixed_dictionaries(dict(c=extreme())), c_d, quick=2550, thorough=20000, rule="every case"),
    Clause("long", st.fixed_dictionaries(dict(c=gen.seeded_log(gen.rnd_contour, 8, 400))), c_d, quick=150, thorough=2000, shards=2, rule="every case"),
]
