"""C18 Matrix inversion returns the inverse or None."""
import copy
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import Clause, require, fail, num, point, points, seq, close, pclose
from .. import gen, geom
from PathLib.MatrixInversion import matrixInvert

EPS = 2.0 ** -52


def inverse(M):
    """Exact inverse (Fractions), None if singular."""
    n = len(M)
    A = [[F(v) for v in r] + [F(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        e = A[i][i]
        A[i] = [v / e for v in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                f = A[r][i]
                A[r] = [v - f * w for v, w in zip(A[r], A[i])]
    return [r[n:] for r in A]


def norm(M):
    return max(sum(abs(float(v)) for v in r) for r in M)


def check_inverse(M, lab):
    n = len(M)
    M0 = copy.deepcopy(M)
    X = inverse(M)
    if X is None:
        return "singular"
    cond = norm(M) * norm(X)
    if cond > 1e7:
        return "ill-conditioned"
    got = matrixInvert(M)
    require(M == M0, "matrixInvert modified its argument %r", M0)
    require(got is not None, "matrixInvert(%r) is None, the inverse is %r", M, geom and [[float(v) for v in r] for r in X])
    G = [[num(v, "entry") for v in seq(r, "row", n)] for r in seq(got, "inverse", n)]
    # forward error bound of Gauss-Jordan elimination with partial pivoting
    tol = 64 * n * n * EPS * cond * norm(X)
    for i in range(n):
        for j in range(n):
            require(abs(G[i][j] - float(X[i][j])) <= tol, "matrixInvert(%r): entry %d, %d is %r, expected %r (condition number %.2g)", M, i, j, G[i][j], float(X[i][j]), cond)
    for A, B, w in ((M, G, "M * inverse"), (G, M, "inverse * M")):
        for i in range(n):
            for j in range(n):
                v = float(sum(F(A[i][k]) * F(B[k][j]) for k in range(n)))
                require(abs(v - (i == j)) <= 64 * n * n * EPS * cond * 4, "%s of %r has %r at %d, %d", w, M, v, i, j)
    return "*%s %dx%d" % (lab, n, n)


def c_inverse(case):
    M = case["m"]
    return check_inverse(M, "zero pivot" if M[0][0] == 0 else "free")


def c_built(case):
    """permuted, row-scaled products of unit triangular matrices: well-conditioned with tiny or zero leading entries"""
    n = len(case["l"])
    L = [[case["l"][i][j] / 4 if j < i else float(i == j) for j in range(n)] for i in range(n)]
    U = [[case["l"][i][j] / 4 if j > i else float(i == j) for j in range(n)] for i in range(n)]
    M = [[sum(L[i][k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    M = [M[i] for i in case["perm"]]
    M = [[v * case["scale"] for v in r] for r in M]
    lab = "permuted"
    if case["tiny"]:
        # the leading entry of a matrix whose inverse does not need it
        M[0][0] = 10.0 ** -case["tiny"] * case["scale"]
        lab = "tiny pivot"
    return check_inverse(M, lab)


def c_singular(case):
    M, kind, k = [list(r) for r in case["m"]], case["kind"], case["k"]
    n = len(M)
    i, j = case["i"] % n, case["j"] % n
    if n > 1 and i == j:
        j = (i + 1) % n
    if kind == "zero row" or n == 1:
        M[i] = [0] * n
    elif kind == "zero column":
        for r in M:
            r[i] = 0
    else:
        M[i] = [k * v for v in M[j]]
    M0 = copy.deepcopy(M)
    got = matrixInvert(M)
    require(got is None, "matrixInvert(%r) is %r, the matrix is singular (%s)", M, got, kind)
    require(M == M0, "matrixInvert modified its argument")
    return "*%s %dx%d" % (kind, n, n)


def c_shape(case):
    r, c = case["r"], case["c"]
    if r == c:
        return "square"
    M = [[case["m"][i % len(case["m"])][(j + i) % len(case["m"])] for j in range(c)] for i in range(r)]
    got = matrixInvert(M)
    require(got is None, "matrixInvert(%r) is %r although it is %d x %d", M, got, r, c)
    return "*not square"


def square(entry, hi=8):
    return gen.ints(1, hi).flatmap(lambda n: st.lists(st.lists(entry, min_size=n, max_size=n), min_size=n, max_size=n))


entry = st.sampled_from([gen.ints(-3, 3), gen.ints(0, 1), gen.ints(-99, 99), gen.milli, gen.ints(-10 ** 15, 10 ** 15).map(lambda v: v / 1e13)])
built = gen.ints(2, 7).flatmap(lambda n: st.fixed_dictionaries(dict(
    l=st.lists(st.lists(gen.ints(-4, 4), min_size=n, max_size=n), min_size=n, max_size=n), perm=st.permutations(range(n)).map(list),
    scale=st.sampled_from([1, 1, 1e-3, 1e3, 1e-6, 7.3]), tiny=st.sampled_from([0, 0, 0, 5, 9, 12, 16, 20]))))



def rnd_built(r, n):
    return dict(l=[[r.choice([0, 0, 0, r.randint(-4, 4)]) if n > 8 else r.randint(-4, 4) for _ in range(n)] for _ in range(n)], perm=r.sample(range(n), n), scale=r.choice([1, 1e-3, 1e3, 7.3]), tiny=r.choice([0, 0, 9, 16]))


def rnd_square(r, n):
    f = r.choice([lambda: r.randint(-3, 3), lambda: r.randint(-99, 99), lambda: r.uniform(-100, 100), lambda: r.choice([0, 0, 1, -1])])
    return [[f() for _ in range(n)] for _ in range(n)]


CLAUSES = [
    Clause("inverse", st.fixed_dictionaries(dict(m=entry.flatmap(square))), c_inverse, quick=6250, thorough=40000, shards=4, rule="condition number below 1e7"),
    Clause("built", built, c_built, quick=5000, thorough=40000, shards=4, rule="condition number below 1e7"),
    Clause("singular", st.fixed_dictionaries(dict(m=square(gen.ints(-99, 99)), kind=st.sampled_from(["zero row", "zero column", "equal rows", "equal rows"]), k=st.sampled_from([1, 1, 2, -1, -2]), i=gen.ints(0, 7), j=gen.ints(0, 7))),
           c_singular, quick=5000, thorough=30000, rule="every case"),
    Clause("shape", st.fixed_dictionaries(dict(m=square(gen.ints(-9, 9), 4), r=gen.ints(1, 5), c=gen.ints(1, 5))), c_shape, quick=1000, thorough=4000, rule="not square"),
    Clause("large", st.fixed_dictionaries(dict(m=gen.seeded_log(rnd_square, 6, 32))), c_inverse, quick=250, thorough=3000, shards=3, rule="condition number below 1e7"),
    Clause("large-built", gen.seeded_log(rnd_built, 6, 28), c_built, quick=250, thorough=3000, shards=3, rule="condition number below 1e7"),
    Clause("large-singular", st.fixed_dictionaries(dict(m=gen.seeded_log(rnd_square, 6, 40), kind=st.sampled_from(["zero row", "zero column"]), k=st.just(1), i=gen.ints(0, 40), j=gen.ints(0, 40))), c_singular, quick=250, thorough=3000, rule="every case"),
    Clause("large-shape", st.fixed_dictionaries(dict(m=gen.seeded(rnd_square, 2, 30), r=gen.ints(1, 30), c=gen.ints(1, 30))), c_shape, quick=250, thorough=2000, rule="not square"),
]
