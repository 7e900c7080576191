"""C26 Colour lookup and generation follow the CSS table."""
import random
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom, standin
from ..css import CSS
from PathLib.Color import Color


def components(c, what):
    require(isinstance(c, Color), "%s is not a Color: %r", what, c)
    v = c.components
    require(len(v) == 3 and all(isinstance(x, int) and not isinstance(x, bool) for x in v), "%s has the components %r", what, v)
    return tuple(v)


def spell(name, bits):
    return "".join(ch.upper() if bits >> i & 1 else ch for i, ch in enumerate(name))


def c_keyword(case):
    """the whole table is checked in every case, each keyword in its own spelling"""
    names = sorted(CSS)
    for i, name in enumerate(names):
        bits = [0, -1, 1, case["bits"][i % len(case["bits"])]][case["mode"]]
        s = spell(name, bits)
        got = components(Color.fromName(s), "fromName(%r)" % s)
        require(got == CSS[name], "fromName(%r) is %r, expected %r", s, got, CSS[name])
    return "*%s" % ["lower case", "upper case", "capitalised", "mixed case"][case["mode"]]


def c_other(case):
    s = case["s"]
    if not s.isalpha():
        got = Color.fromName(s)
        require(got is None, "fromName(%r) is %r, the string is not purely letters", s, got)
        return "*not letters"
    if s.lower() in CSS:
        return "keyword"
    try:
        got = Color.fromName(s)
    except ValueError:
        return "*other word"
    fail("fromName(%r) is %r, expected a ValueError", s, got)


def hsl(h):
    """RGB components (Fractions, 0..255) of hue h in degrees at 50% saturation and lightness."""
    h = F(h) % 360
    out = []
    for shift in (0, -120, -240):
        d = (h + shift) % 360
        d = min(d, 360 - d)                      # angular distance from the component's own hue
        out.append(255 * (F(3, 4) if d <= 60 else F(1, 4) if d >= 120 else F(3, 4) - F(1, 2) * (d - 60) / 60))
    return out


def c_hsl(case):
    h = 0
    for op in case["ops"]:
        if op[0] == "set":
            if op[1] is None:
                Color.setCurrentHue()
                h = 0
            else:
                Color.setCurrentHue(op[1])
                h = op[1]
        else:
            for _ in range(op[1]):
                h = (F(h) + 73) % 360
                got = components(Color.randomHSLColor(), "randomHSLColor()")
                want = hsl(h)
                require(all(abs(g - w) <= 0.5 + 1e-6 for g, w in zip(got, want)), "randomHSLColor() is %r, expected hue %r: %r (%r)", got, float(h), [float(w) for w in want], case["ops"])
    return "*%s" % ("fractional" if any(o[0] == "set" and o[1] is not None and o[1] != int(o[1]) for o in case["ops"]) else "whole")


def c_rgb(case):
    random.seed(case["seed"])
    seen = set()
    for _ in range(60):
        c = components(Color.randomRGBColor(), "randomRGBColor()")
        require(all(0 <= v <= 255 for v in c), "randomRGBColor() is %r (seed %r)", c, case["seed"])
        seen.add(c)
    require(len(seen) > 1, "randomRGBColor() is always %r", seen)
    return "*"


def c_all(case):
    """every value of every component occurs (a value is missing by chance with probability 1e-9)"""
    random.seed(case["seed"])
    seen = [set(), set(), set()]
    for _ in range(7500):
        for s, v in zip(seen, components(Color.randomRGBColor(), "randomRGBColor()")):
            s.add(v)
    for s, what in zip(seen, ("red", "green", "blue")):
        require(s == set(range(256)), "7500 random colours never have %s values %r (seed %r)", what, sorted(set(range(256)) ^ s), case["seed"])
    return "*"


near_word = st.tuples(st.sampled_from(sorted(CSS)), st.sampled_from(["{}x", "x{}", "{} ", " {}", "{}1", "#{}", "{}-", "light{}", "dark{}", "{}grey", "{}\n", "é{}", "{}é", "{0}{0}", "{}_", "medium{}"])).map(lambda t: t[1].format(t[0]))
cut = st.tuples(st.sampled_from(sorted(CSS)), gen.ints(0, 30), gen.ints(1, 3)).map(lambda t: t[0][:t[1]] + t[0][t[1] + t[2]:])
hue = st.one_of(gen.ints(0, 359), gen.ints(0, 359), gen.ints(-720, 720), gen.ints(0, 3600).map(lambda n: n / 10), st.none())
CLAUSES = [
    Clause("keyword", st.fixed_dictionaries(dict(mode=gen.ints(0, 3), bits=st.lists(gen.ints(0, 2 ** 20), min_size=1, max_size=8))), c_keyword, quick=400, thorough=2000, rule="every case checks the whole table"),
    Clause("other", st.fixed_dictionaries(dict(s=st.one_of(st.text(max_size=12), st.text("abcdefghijklmnopqrstuvwxyzABC", max_size=12), near_word, cut, st.text("0123456789#abcdef", max_size=7)))), c_other, quick=10000, thorough=60000,
           rule="the string is no keyword"),
    Clause("hsl", st.fixed_dictionaries(dict(ops=st.lists(st.one_of(hue.map(lambda h: ["set", h]), gen.ints(1, 12).map(lambda n: ["call", n])), min_size=1, max_size=6))).map(lambda c: dict(ops=[["set", None]] + c["ops"])),
           c_hsl, quick=3750, thorough=20000, rule="every case"),
    Clause("rgb-all", st.fixed_dictionaries(dict(seed=gen.ints(0, 2 ** 40))), c_all, quick=6, thorough=60, rule="every case"),
    Clause("rgb", st.fixed_dictionaries(dict(seed=gen.ints(0, 2 ** 40))), c_rgb, quick=1250, thorough=8000, rule="every case"),
]
