"""C21 Composite glyphs expand to transformed component outlines."""
import copy
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from .c20 import model, draw, read, path, LOG
from PathLib.SegmentPen import SegmentPen

IDENT = [1, 0, 0, 1, 0, 0]
LIMIT = 1500


class Glyph:
    def __init__(self, prog):
        self.prog = prog

    def draw(self, pen):
        for kind, arg in self.prog:
            if kind == "path":
                draw(pen, [arg])
            else:
                pen.addComponent(arg[0], tuple(arg[1]))


def apply(t, p):
    xx, xy, yx, yy, dx, dy = (F(v) for v in t)
    return (xx * p[0] + yx * p[1] + dx, xy * p[0] + yy * p[1] + dy)


def apply_mag(t, m):
    a = [abs(F(v)) for v in t]
    return (a[0] * m[0] + a[2] * m[1] + a[4], a[1] * m[0] + a[3] * m[1] + a[5])


def expand(glyphs, name):
    """Exact contours with, per point, the magnitude of the terms that produced it."""
    out = []
    for kind, arg in glyphs[name]:
        if kind == "path":
            out += [[[((F(x), F(y)), (abs(F(x)), abs(F(y)))) for x, y in s] for s in c] for c in model([arg])]
        else:
            sub, t = arg
            out += [[[(apply(t, p), apply_mag(t, m)) for p, m in s] for s in c] for c in expand(glyphs, sub)]
    return out


def size(glyphs, name, memo):
    if name not in memo:
        memo[name] = sum(len(a["ops"]) + 1 if k == "path" else size(glyphs, a[0], memo) for k, a in glyphs[name])
    return memo[name]


def depth(glyphs, name):
    return max([1 + depth(glyphs, a[0]) for k, a in glyphs[name] if k == "component"], default=0)


def compare(got, want, what):
    require([[len(s) for s in c] for c in got] == [[len(s) for s in c] for c in want], "%s: structure %r, expected %r", what, [[len(s) for s in c] for c in got], [[len(s) for s in c] for c in want])
    for gc, wc in zip(got, want):
        for gs, ws in zip(gc, wc):
            for g, ((x, y), (mx, my)) in zip(gs, ws):
                require(abs(g[0] - float(x)) <= 1e-14 * float(mx) + 1e-300 and abs(g[1] - float(y)) <= 1e-14 * float(my) + 1e-300,
                        "%s: %r instead of %r", what, g, (float(x), float(y)))


def c_glyphs(case):
    names = ["g%d" % i for i in range(len(case["g"]))]
    # glyph i may use glyphs with smaller numbers only
    glyphs = {}
    for i, prog in enumerate(case["g"]):
        glyphs[names[i]] = [[k, a] if k == "path" else [k, [names[a[0] % i], a[1]]] for k, a in prog if k == "path" or i > 0]
    memo = {}
    for n in names:
        if size(glyphs, n, memo) > LIMIT:
            return "too large"
    want = {n: expand(glyphs, n) for n in names}
    before = copy.deepcopy(glyphs)
    gset = {n: Glyph(p) for n, p in glyphs.items()}
    pens = {}
    order = [names[i % len(names)] for i in case["order"]] + names
    for n in order:
        pen = SegmentPen(gset, LOG)
        gset[n].draw(pen)
        compare(read(pen.contours, "contours"), want[n], "glyph %s of %r" % (n, glyphs))
        pens.setdefault(n, pen)
    for n, pen in pens.items():
        compare(read(pen.contours, "contours"), want[n], "glyph %s after drawing others" % n)
    require(glyphs == before, "drawing modified the glyph set")
    d = max(depth(glyphs, n) for n in names)
    return "*nested %s deep" % (d if d < 8 else "8 or more") if d and any(want[n] for n in names) else "no components"


def c_mixed(case):
    """components added to a pen between its own paths"""
    base = {"b": [["path", p] for p in case["base"]]}
    gset = {"b": Glyph(base["b"])}
    pen = SegmentPen(gset, LOG)
    want = []
    for kind, arg in case["prog"]:
        if kind == "path":
            draw(pen, [arg])
            want += expand({"x": [["path", arg]]}, "x")
        else:
            pen.addComponent("b", tuple(arg))
            want += expand(dict(base, x=[["component", ["b", arg]]]), "x")
        compare(read(pen.contours, "contours"), want, "after %s %r" % (kind, arg))
    return "*mixed" if len({k for k, _ in case["prog"]}) == 2 and want else "*components" if want else "empty"


def affine():
    e = st.one_of(st.sampled_from([0, 1, -1, 0.5, 2]), gen.ints(-32768, 32767).map(lambda n: n / 16384), gen.ints(-3, 3))
    o = st.one_of(gen.font, gen.half, st.just(0), gen.noisy)
    cancel = o.map(lambda v: [v, -v]) | o.map(lambda v: [v, v]) | o.map(lambda v: [v, 0]) | o.map(lambda v: [0, v])
    near = st.sampled_from([[1, 0, 0, 1], [-1, 0, 0, -1], [0, 1, 1, 0], [0, 1, -1, 0], [0, -1, 1, 0], [1, 0, 0, -1], [-1, 0, 0, 1], [0, 0, 0, 0], [2, 0, 0, 0.5], [1, 1, 0, 1], [1, 0, 1, 1], [1, 0, -1, 1], [0.5, 0.5, 0.5, 0.5]])
    # the identity but for one number
    odd = st.tuples(gen.ints(0, 5), st.sampled_from([-1, 0, 0.5, 1, 2, 3])).map(lambda t: [t[1] if i == t[0] else v for i, v in enumerate(IDENT)])
    return st.one_of(st.just(IDENT), odd, st.tuples(near, cancel).map(lambda t: t[0] + t[1]), cancel.map(lambda t: [1, 0, 0, 1] + t), st.tuples(o, o).map(lambda t: [1, 0, 0, 1, t[0], t[1]]), st.tuples(e, e, e, e, o, o).map(list), st.tuples(e, e, e, e, o, o).map(list),
                     st.tuples(e, e, o, o).map(lambda t: [t[0], 0, 0, t[1], t[2], t[3]]), st.tuples(e, e).map(lambda t: [1, t[0], t[1], 1, 0, 0]))


step = st.one_of(path(3).map(lambda p: ["path", p]), st.tuples(gen.ints(0, 9), affine()).map(lambda t: ["component", list(t)]), st.tuples(gen.ints(0, 9), affine()).map(lambda t: ["component", list(t)]))

def rnd_affine(r):
    e = lambda: r.choice([0, 1, 1, -1, 0.5, -0.5, 0.75])
    o = lambda: r.choice([0, r.randint(-500, 500), r.randint(-99, 99) / 2])
    return r.choice([IDENT, [1, 0, 0, 1, o(), o()], [e(), e(), e(), e(), o(), o()], [0, 1, -1, 0, o(), 0], [r.choice([1, -1]), 0, 0, r.choice([1, -1]), o(), o()]])


def rnd_paths(r, n):
    c = gen.rnd_coord(r, False)
    out = []
    for _ in range(n):
        ops = [[op, [[c(), c()] for _ in range({"line": 1, "curve": 3, "qcurve": r.randint(2, 4)}[op])]] for op in (r.choice(["line", "curve", "qcurve"]) for _ in range(r.randint(1, 2)))]
        out.append(["path", dict(start=[c(), c()], ops=ops)])
    return out


def nested(r, n):
    """a chain of n glyphs, each made of the one before, often with something of its own"""
    g = [rnd_paths(r, r.randint(1, 2))]
    for i in range(1, n):
        p = [["component", [i - 1, rnd_affine(r)]]]
        if r.random() < 0.5:
            p += rnd_paths(r, 1)
        if r.random() < 0.2 and i < 40:
            p += [["component", [r.randint(0, min(i - 1, 3)), rnd_affine(r)]]]
        r.shuffle(p)
        g.append(p)
    return dict(g=g, order=[n - 1] if r.random() < 0.5 else [])


def wide(r, n):
    """components of up to n contours, or up to n components"""
    k = r.randrange(2)
    g = [rnd_paths(r, n if k else r.randint(1, 3))]
    g.append([["component", [0, rnd_affine(r)]] for _ in range(r.randint(1, 3) if k else n)] + rnd_paths(r, r.randint(0, 1)))
    if r.random() < 0.5:
        r.shuffle(g[1])
        g.append([["component", [1, rnd_affine(r)]]])
    return dict(g=g, order=[])


CLAUSES = [
    Clause("glyphs", st.fixed_dictionaries(dict(g=st.lists(st.lists(step, min_size=1, max_size=3), min_size=2, max_size=5), order=st.lists(gen.ints(0, 9), max_size=3))), c_glyphs, quick=5000, thorough=40000, shards=6,
           rule="a component is used and something is drawn"),
    Clause("mixed", st.fixed_dictionaries(dict(base=st.lists(path(3), min_size=1, max_size=2), prog=st.lists(st.one_of(path(3).map(lambda p: ["path", p]), affine().map(lambda t: ["component", t])), min_size=1, max_size=5))),
           c_mixed, quick=3750, thorough=30000, shards=2, rule="something is drawn with a component"),
    Clause("nested", gen.seeded_log(nested, 4, 40), c_glyphs, quick=120, thorough=1500, shards=2, rule="a component is used and something is drawn"),
    Clause("wide", gen.seeded_log(wide, 6, 100), c_glyphs, quick=120, thorough=1500, shards=2, rule="a component is used and something is drawn"),
]
