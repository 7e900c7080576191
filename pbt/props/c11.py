"""C11 Raising the order keeps the shape."""
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def elevate(q):
    k = len(q)
    return [q[0]] + [((1 - F(i, k)) * q[i][0] + F(i, k) * q[i - 1][0], (1 - F(i, k)) * q[i][1] + F(i, k) * q[i - 1][1]) for i in range(1, k)] + [q[-1]]


def c_raise(case):
    ps = geom.tup(case["p"])
    given = list(ps)
    b = Bezier(given)
    cur, want = b, [geom.fr(p) for p in ps]
    t = 1e-12 * geom.scale_of(ps)
    for k in range(case["times"]):
        cur = cur.raiseOrder()
        want = elevate(want)
        got = points(cur.controlPoints, "raised control points")
        require(len(got) == len(want), "raiseOrder of an order %d curve has order %d", len(want) - 2, len(got) - 1)
        for g, w in zip(got, want):
            require(pclose(g, geom.f2(w), t), "raiseOrder gives control points %r, expected %r", got, [geom.f2(x) for x in want])
        require(tuple(cur.start) == ps[0] and tuple(cur.end) == ps[-1], "raiseOrder moved an end point")
    require(given == ps and [tuple(p) for p in b.controlPoints] == ps, "raiseOrder altered its source")
    for u in case["t"]:
        require(pclose(point(cur.get(u)), geom.f2(geom.bern(ps, u)), 10 * t), "the raised curve is elsewhere at t = %r", u)
    return ["*order%d+%d" % (len(ps) - 1, case["times"])] if len(set(ps)) > 1 else ["point"]


CLAUSES = [Clause("often", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 4, 5, 6)), times=gen.ints(5, 24), t=st.lists(gen.unit, min_size=1, max_size=2))), c_raise,
                  quick=400, thorough=5000, shards=2, rule="not all control points equal"),
           Clause("raise", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3, 4, 5, 6)), times=gen.ints(1, 4), t=st.lists(gen.unit, min_size=1, max_size=3))), c_raise,
                  quick=10000, thorough=60000, shards=3, rule="not all control points equal")]
