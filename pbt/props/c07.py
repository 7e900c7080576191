"""C07 Arc length is accurate."""
import math
import decimal
from decimal import Decimal, getcontext
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.Bezier import Bezier

GX, GW = np.polynomial.legendre.leggauss(24)


def speed_integral(ps, m):
    """Composite 24-point Gauss-Legendre with m subintervals of the speed."""
    h = [(float(x), float(y)) for x, y in geom.hodograph(ps)]
    edges = np.linspace(0.0, 1.0, m + 1)
    w = (edges[1:] - edges[:-1]) / 2
    t = (edges[:-1, None] + w[:, None] * (1 + GX[None, :]))
    s = 1 - t
    n = len(h) - 1
    x, y = (sum(math.comb(n, i) * h[i][d] * s ** (n - i) * t ** i for i in range(n + 1)) for d in (0, 1))
    return float(((np.hypot(x, y) * GW[None, :]).sum(axis=1) * w).sum())


def polygon(ps):
    return sum(math.hypot(float(F(b[0]) - F(a[0])), float(F(b[1]) - F(a[1]))) for a, b in zip(ps, ps[1:]))


def value(b):
    v = b.length
    require(isinstance(v, Decimal), "length is a %s, not a Decimal", type(v).__name__)
    return num(v, "length")


def judge(ps, got, what="length"):
    sc = geom.scale_of(ps)
    poly = polygon(ps)
    noise = 1e-12 * sc * 4 + 1e-300
    if len(ps) == 2:
        require(close(got, poly, 1e-12 * poly + 1e-15 * sc), "%s of the line %r is %r, not %r", what, ps, got, poly)
        return "*line", poly
    ref, ref2 = speed_integral(ps, 64), speed_integral(ps, 128)
    g24 = speed_integral(ps, 1)
    tol = 2 * abs(g24 - ref2) + 2 * abs(ref - ref2) + 1e-10 * poly + noise
    require(close(got, ref2, tol), "%s of %r is %r, the curve is %r long (24-point quadrature gives %r)", what, ps, got, ref2, g24)
    require(close(got, ref2, 0.01 * poly + noise), "%s of %r is %r, off by more than 1%% of the control polygon from %r", what, ps, got, ref2)
    require(got >= -noise, "%s is negative: %r", what, got)
    return "*precise" if tol < 1e-6 * poly else "*moderate" if tol < 1e-3 * poly else "rough", ref2


def c_length(case):
    ps = geom.tup(case["p"])
    ctx = getcontext()
    saved = ctx.prec
    try:
        ctx.prec = case["prec"]
        conv = {"plain": lambda v: v, "decimal": lambda v: Decimal(v), "float": float, "exactdec": lambda v: Decimal(repr(v))}[case["kind"]]
        b = Bezier([(conv(x), conv(y)) for x, y in ps])
        if case["kind"] == "exactdec":
            ps = [(F(Decimal(repr(x))), F(Decimal(repr(y)))) for x, y in ps]
        for w in case["warm"]:
            if w == "dc":
                b.dcPoints
            elif w == "twice":
                value(b)
        got = value(b)
        require(getcontext() is ctx and ctx.prec == case["prec"], "length left the Decimal precision at %r instead of %r", getcontext().prec, case["prec"])
        label, ref = judge(ps, got)
        r = value(Bezier([(conv(x), conv(y)) for x, y in case["p"]][::-1]))
        judge(ps[::-1], r, "length of the reversed curve")
        require(close(got, r, 1e-12 * geom.scale_of(ps)), "length is %r, that of the reversed curve %r", got, r)
        again = value(b)
        require(got == again, "length answers %r first and %r then", got, again)
        return [label, "order%d" % (len(ps) - 1), case["kind"]]
    finally:
        ctx.prec = saved


def state(ctx):
    return (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, ctx.capitals, ctx.clamp, {str(k): v for k, v in ctx.traps.items()})


def c_context(case):
    """The caller's Decimal context, whatever it is, is the same afterwards."""
    ps = geom.tup(case["p"])
    saved = getcontext().copy()
    try:
        ctx = decimal.Context(prec=case["prec"], rounding=case["rounding"], traps=[getattr(decimal, t) for t in case["traps"]])
        decimal.setcontext(ctx)
        ctx = getcontext()
        before = state(ctx)
        b = Bezier(list(ps))
        got = None
        try:
            got = value(b)
        except decimal.DecimalException:
            require(case["traps"], "length of %r raises a Decimal exception although nothing is trapped", ps)
        require(getcontext() is ctx and state(ctx) == before, "length of %r left the Decimal context at %r, it was %r", ps, state(getcontext()), before)
        decimal.setcontext(saved)
        if got is None:
            return "*trapped"
        judge(ps, got, "length (%s)" % case["rounding"])
        return "*" + case["rounding"]
    finally:
        decimal.setcontext(saved)


def c_additive(case):
    """Length of the two parts of a gentle curve adds up to the whole."""
    ps = geom.tup(case["p"])
    t = case["t"]
    whole = value(Bezier(list(ps)))
    judge(ps, whole)
    parts = [[geom.f2(q) for q in geom.subcurve(ps, a, b)] for a, b in ((0, F(t)), (F(t), 1))]
    vals = [value(Bezier(p)) for p in parts]
    require(close(sum(vals), whole, 1e-7 * whole), "parts of %r split at %r are %r long, the whole %r", ps, t, vals, whole)
    # and scales with the curve
    k = case["k"]
    big = value(Bezier([(x * k, y * k) for x, y in ps]))
    require(close(big, abs(k) * whole, 1e-12 * abs(k) * whole), "scaled by %r the length goes from %r to %r", k, whole, big)
    return "*additive"


CLAUSES = [
    Clause("length", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 10)), prec=st.sampled_from([28, 28, 28, 16, 20, 40, 50]),
                                                kind=st.sampled_from(["plain", "plain", "float", "decimal", "exactdec"]), warm=st.lists(st.sampled_from(["dc", "twice"]), max_size=2))),
           c_length, quick=10200, thorough=80000, shards=4, rule="24-point quadrature error for this curve below 0.1% of its control polygon, or a line"),
    Clause("context", st.fixed_dictionaries(dict(p=gen.curve((1, 2, 3)), prec=st.sampled_from([16, 17, 20, 28, 28, 50]), rounding=st.sampled_from(["ROUND_HALF_EVEN", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_UP"]),
                                                 traps=st.one_of(st.just([]), st.lists(st.sampled_from(["Inexact", "Rounded", "InvalidOperation", "FloatOperation", "DivisionByZero", "Subnormal", "Underflow"]), max_size=3)))),
           c_context, quick=850, thorough=8000, rule="every case (rounding, or a trapped signal raised)"),
    Clause("additive", st.fixed_dictionaries(dict(p=gen.tame_curve(), t=st.integers(100, 900).map(lambda n: n / 1000), k=st.sampled_from([2, -1, 0.5, 100, -3, 0.001]))),
           c_additive, quick=1350, thorough=20000, shards=2, rule="every case"),
]
