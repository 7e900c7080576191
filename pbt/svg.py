"""Reader for SVG path data (grammar of SVG 1.1, section 8.3), all commands but arcs.

draw(d) gives a list of subpaths: dict(start, segs, closed), each segment a list of (x, y)
points, the first one being the pen position. Numbers are read by float()."""
import re

NUM = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
WSP = " \t\r\n\f"
ARGS = dict(M=2, L=2, H=1, V=1, C=6, S=4, Q=4, T=2, Z=0)


class BadPath(Exception):
    pass


def tokens(d):
    i, n = 0, len(d)
    out = []
    comma = False       # a comma must be followed by a number
    while i < n:
        c = d[i]
        if c in WSP:
            i += 1
        elif c == ",":
            if comma or not out or not isinstance(out[-1], float):
                raise BadPath("misplaced comma at %d" % i)
            comma = True
            i += 1
        elif c.upper() in ARGS:
            if comma:
                raise BadPath("comma before a command at %d" % i)
            out.append(c)
            i += 1
        else:
            m = NUM.match(d, i)
            if not m:
                raise BadPath("unexpected %r at %d" % (d[i:i + 8], i))
            out.append(float(m.group()))
            comma = False
            i = m.end()
    if comma:
        raise BadPath("comma at the end")
    return out


def draw(d):
    toks = tokens(d)
    subs = []
    cur = None
    pen = (0.0, 0.0)
    i = 0
    cmd = None
    last_ctrl = None
    while i < len(toks):
        if isinstance(toks[i], str):
            cmd = toks[i]
            i += 1
            if not subs and cmd not in "Mm":
                raise BadPath("path data starts with %r" % cmd)
            if cmd in "Zz":
                if cur is None:
                    raise BadPath("closepath without subpath")
                cur["closed"] = True
                pen = cur["start"]
                cur = dict(start=pen, segs=[], closed=False, implicit=True)
                cmd = None
                last_ctrl = None
                continue
        elif cmd is None:
            raise BadPath("number without a command: %r" % toks[i])
        k = ARGS[cmd.upper()]
        a = toks[i:i + k]
        if len(a) < k or not all(isinstance(v, float) for v in a):
            raise BadPath("command %r needs %d numbers, got %r" % (cmd, k, a))
        i += k
        up = cmd.upper()
        if cmd.islower():
            ox, oy = pen
        else:
            ox = oy = 0.0
        if up == "M":
            pen = (a[0] + ox, a[1] + oy) if cmd.islower() else (a[0], a[1])
            cur = dict(start=pen, segs=[], closed=False)
            subs.append(cur)
            cmd = "l" if cmd == "m" else "L"
            last_ctrl = None
            continue
        if cur.get("implicit"):
            cur = dict(start=pen, segs=[], closed=False)
            subs.append(cur)
        if up == "H":
            pts = [(a[0] + ox, pen[1])]
        elif up == "V":
            pts = [(pen[0], a[0] + oy)]
        else:
            pts = [(a[j] + ox, a[j + 1] + oy) for j in range(0, k, 2)]
        if up in "ST":
            kind = "C" if up == "S" else "Q"
            c = (2 * pen[0] - last_ctrl[1][0], 2 * pen[1] - last_ctrl[1][1]) if last_ctrl and last_ctrl[0] == kind else pen
            pts = [c] + pts
        seg = [pen] + pts
        last_ctrl = ("C", seg[2]) if len(seg) == 4 else ("Q", seg[1]) if len(seg) == 3 else None
        cur["segs"].append(seg)
        pen = seg[-1]
    if not subs:
        raise BadPath("empty path data")
    return subs


def selftest():
    s = draw("M1,2 3,4H5 6V-7.5 8L1e1,.5Q1,2 3,4 5,6 7,8ZM0,0C1 2 3 4 5 6")
    assert [x["segs"] for x in s] == [
        [[(1, 2), (3, 4)], [(3, 4), (5, 4)], [(5, 4), (6, 4)], [(6, 4), (6, -7.5)], [(6, -7.5), (6, 8)], [(6, 8), (10, .5)], [(10, .5), (1, 2), (3, 4)], [(3, 4), (5, 6), (7, 8)]],
        [[(0, 0), (1, 2), (3, 4), (5, 6)]]], s
    assert s[0]["closed"] and not s[1]["closed"]
    for bad in ("", "L1,2", "M1", "M1,2 3", "M1,,2", "M1,2V", "1,2", "M1,2Z3,4", "M1,2X"):
        try:
            draw(bad)
        except BadPath:
            continue
        raise AssertionError("accepted %r" % bad)


selftest()
