"""C02 Splitting a curve yields exactly the sub-curves it names."""
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier


def tol(ps):
    return 1e-12 * geom.scale_of(ps)


def cps(b, what):
    return points(b.controlPoints, what)


def same(b, want, t, what):
    got = cps(b, what)
    require(len(got) == len(want), "%s has order %d", what, len(got) - 1)
    for g, w in zip(got, want):
        require(pclose(g, geom.f2(w), t), "%s has control points %r, expected %r", what, got, [geom.f2(x) for x in want])


def c_split1(case):
    ps = geom.tup(case["p"])
    given = list(ps)
    b = Bezier(given)
    t = case["t"]
    r = seq(b.split(t), "split(%r)" % t, 3)
    left, right, hull = r
    same(left, geom.subcurve(ps, 0, t), tol(ps), "left part of split(%r)" % t)
    same(right, geom.subcurve(ps, t, 1), tol(ps), "right part of split(%r)" % t)
    h1, h2 = points(hull), points(b.hull(t))
    require(len(h1) == len(h2) and all(pclose(x, y, tol(ps)) for x, y in zip(h1, h2)), "third result of split(%r) is not hull(%r)", t, t)
    require(tuple(left.start) == ps[0] and tuple(right.end) == ps[-1], "split(%r) moved an end point", t)
    require(tuple(left.end) == tuple(right.start), "parts of split(%r) do not meet: %r, %r", t, left.end, right.start)
    require(given == ps and [tuple(p) for p in b.controlPoints] == ps, "split(%r) altered the source curve", t)
    u = case["u"]
    require(pclose(point(left.get(u)), geom.f2(geom.bern(ps, F(t) * F(u))), tol(ps)), "left.get(%r) is not the curve at t*u", u)
    return ["*" if 0 < t < 1 else "end"]


def c_split2(case):
    ps = geom.tup(case["p"])
    a, z = case["iv"]
    if not a < z:
        return "skipped"
    b = Bezier(list(ps))
    s = b.split(a, z)
    require(isinstance(s, Bezier), "split(%r, %r) is not a curve: %r", a, z, s)
    same(s, geom.subcurve(ps, a, z), tol(ps), "split(%r, %r)" % (a, z))
    if a == 0:
        require(tuple(s.start) == ps[0], "split(0, %r) does not start at the curve's start", z)
    if z == 1 and a > 0:
        require(tuple(s.end) == ps[-1], "split(%r, 1) does not end at the curve's end", a)
    require([tuple(p) for p in b.controlPoints] == ps, "split altered the source")
    return ["*proper interval" if 0 < a and z < 1 else "*starts at 0" if a == 0 else "*ends at 1" if z == 1 else "other"]


def c_chain(case):
    """Splits of splits: the composed interval of the original."""
    ps = geom.tup(case["p"])
    cur = Bezier(list(ps))
    a, z = F(0), F(1)
    for op in case["ops"]:
        k = op[0]
        if k == "iv":
            x, y = sorted((op[1], op[2]))
            if y - x < 0.05 or x > 0.95:
                continue
            nxt = cur.split(x, y)
            a, z = a + (z - a) * F(x), a + (z - a) * F(y)
        else:
            x = op[1]
            if not 0.02 <= x <= 0.98:
                continue
            l, r, _ = seq(cur.split(x), "split(%r)" % x, 3)
            m = a + (z - a) * F(x)
            if k == "left":
                nxt, z = l, m
            else:
                nxt, a = r, m
        require(isinstance(nxt, Bezier), "a chained split gave %r", nxt)
        same(nxt, geom.subcurve(ps, a, z), tol(ps), "chain of splits ending at [%r, %r]" % (float(a), float(z)))
        cur = nxt
    return ["*chain of %d" % len(case["ops"]) if len(case["ops"]) > 1 else "single"]


iv = gen.interval.map(lambda i: ["iv", i[0], i[1]])
lr = st.tuples(st.sampled_from(["left", "right"]), gen.inner).map(list)

# intervals of all sizes, among them very short ones and ones that almost reach an end
interval = st.one_of(gen.interval, gen.interval, st.tuples(gen.unit, gen.unit).map(sorted),
                     st.tuples(gen.unit, gen.ints(1, 12)).map(lambda t: [t[0], min(1, t[0] + 10.0 ** -t[1])]))

CLAUSES = [
    Clause("two_parts", st.fixed_dictionaries(dict(p=gen.curve((2, 3)), t=gen.unit, u=gen.unit)), c_split1, quick=10000, thorough=60000, shards=2,
           rule="interior split parameter"),
    Clause("interval", st.fixed_dictionaries(dict(p=gen.curve((2, 3)), iv=interval)), c_split2, quick=10000, thorough=60000, shards=2,
           rule="interval not empty"),
    Clause("chain", st.fixed_dictionaries(dict(p=gen.curve((2, 3)), ops=st.lists(st.one_of(iv, lr), min_size=1, max_size=6))), c_chain,
           quick=3750, thorough=30000, shards=2, rule="at least two successive splits"),
]
