"""C27 Direction classification matches the control polygon."""
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier

NAMES = {Bezier.dir_mixed: "mixed", Bezier.dir_flat: "flat", Bezier.dir_up: "up", Bezier.dir_down: "down"}


def want(ps):
    ys = [p[1] for p in ps]
    up = all(a <= b for a, b in zip(ys, ys[1:]))
    down = all(a >= b for a, b in zip(ys, ys[1:]))
    if len(ps) == 2 and up and down:
        return "flat"
    return "up" if up else "down" if down else "mixed"


def c_dir(case):
    ps = geom.tup(case["p"])
    require(len(NAMES) == 4, "direction constants are not distinct: %r", NAMES)
    b = Bezier(list(ps))
    got = NAMES.get(b.direction, b.direction)
    w = want(ps)
    require(got == w, "direction of %r is %r, expected %r", ps, got, w)
    if got in ("up", "down"):
        s = 1 if got == "up" else -1
        ys = [point(b.get(k / 16))[1] * s for k in range(17)]
        t = 1e-11 * geom.scale_of(ps)
        require(all(x <= y + t for x, y in zip(ys, ys[1:])), "direction is %r but y is not monotone", got)
    ties = any(a[1] == c[1] for a, c in zip(ps, ps[1:]))
    return ["*%s order%d%s" % (got, len(ps) - 1, " with ties" if ties else "")]


@st.composite
def ladder(draw):
    """y values from a few levels: every pattern of rises, falls and ties is frequent"""
    n = draw(gen.ints(2, 4))
    f = draw(st.sampled_from(["tiny", "font", "half", "noisy"]))
    lv = sorted(draw(st.lists(gen.FLAVOURS[f], min_size=2, max_size=4)))
    ys = [draw(st.sampled_from(lv)) for _ in range(n)]
    k = draw(gen.ints(0, 3))
    if k == 1:
        ys.sort()
    elif k == 2:
        ys.sort(reverse=True)
    return [[draw(gen.FLAVOURS[f]), y] for y in ys]


CLAUSES = [
    Clause("ladder", st.fixed_dictionaries(dict(p=ladder())), c_dir, quick=12500, thorough=60000, shards=2, rule="every case (pattern label)"),
    Clause("free", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3)))), c_dir, quick=5000, thorough=30000, rule="every case (pattern label)"),
]
