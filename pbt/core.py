"""Harness core: clauses, case execution, outcome classification.

A *clause* is one executable statement of (a part of) a property: a Hypothesis strategy
producing JSON-able cases, and a check(case) that raises Violation when the code under
test breaks the statement and otherwise returns labels describing the case.
Labels starting with "*" mark the case as non-trivial.
"""
import hashlib
import json
import math
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Runaway(Violation):
    pass


def import_repo():
    """Make `import PathLib` mean /repo's working tree, never a cached bytecode file."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class Clause:
    def __init__(self, name, strategy, check, quick=400, thorough=8000, rule="", shards=1, examples=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards
        self.examples = list(examples)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def innermost_is_repo(exc):
    """True when the exception was raised in (or below) code of the repository,
    i.e. some frame of the traceback lies in REPO and no harness frame is deeper."""
    last = None
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        fn = os.path.realpath(frame.f_code.co_filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            last = "repo"
        elif fn.startswith(os.path.dirname(os.path.realpath(__file__)) + os.sep):
            last = "harness"
    return last == "repo"


def innermost_is_check(exc):
    """True when the exception was raised by a line of a property module itself."""
    *_, (frame, _) = traceback.walk_tb(exc.__traceback__)
    here = os.path.join(os.path.dirname(os.path.realpath(__file__)), "props") + os.sep
    return os.path.realpath(frame.f_code.co_filename).startswith(here)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def roundtrip(case):
    return json.loads(json.dumps(case))


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).digest()


# ---- validated access to results of the code under test -------------------------------

def num(v, what="value"):
    """A finite real number (int, float, Decimal, Fraction, numpy scalar) as float."""
    if isinstance(v, bool) or isinstance(v, (str, bytes)) or v is None:
        fail("%s is not a number: %r" % (what, v))
    try:
        f = float(v)
    except (TypeError, ValueError, OverflowError):
        fail("%s is not a number: %r" % (what, v))
    if not math.isfinite(f):
        fail("%s is not finite: %r" % (what, v))
    return f


def point(v, what="point"):
    try:
        x, y = v
    except (TypeError, ValueError):
        fail("%s is not an x, y pair: %r" % (what, v))
    return (num(x, what), num(y, what))


def points(v, what="points", n=None):
    try:
        vs = list(v)
    except TypeError:
        fail("%s is not a sequence: %r" % (what, v))
    if n is not None and len(vs) != n:
        fail("%s has %d points, expected %d: %r" % (what, len(vs), n, vs))
    return [point(p, what) for p in vs]


def seq(v, what="sequence", n=None):
    if v is None or isinstance(v, (str, bytes)):
        fail("%s is not a sequence: %r" % (what, v))
    try:
        vs = list(v)
    except TypeError:
        fail("%s is not a sequence: %r" % (what, v))
    if n is not None and len(vs) != n:
        fail("%s has %d items, expected %d: %r" % (what, len(vs), n, vs))
    return vs


def close(a, b, tol):
    return abs(a - b) <= tol


def pclose(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol
