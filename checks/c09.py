"""Characteristic polynomials and power traces (La Budde) are exact, for every size including
0 and 1, and leave their argument untouched.

Symbolic inputs: matrix entries.  The algorithm is decided end to end for sizes 0..3 (all
entries symbolic) and, at sizes 4 and 5, for all matrices P B P with a fixed rational
reflection P and B symbolic except for the subdiagonal columns (so the Householder norms are
rational), and piecewise: one Householder step is a similarity transformation for every
vector (sizes <= 4), the reflection vector annihilates the column, and the Hessenberg
recursion is exact for every upper-Hessenberg matrix (sizes <= 6).
Oracle: the coefficients of det(x - A) by an independent expansion and the traces of the powers by plain multiplication.
Assumptions:
- exact arithmetic
- sizes bounded as listed per case
"""
from engine.harness import case
from .oracles import det, matpow_traces, rows


def _charcoef(R):
    """coefficients c1..cn of det(x - A) = x^n + c1 x^(n-1) + ... by Newton's identities on
    the power traces"""
    n = len(R)
    t = matpow_traces(R, n + 1)
    c = [1]
    for k in range(1, n + 1):
        s = 0
        for i in range(1, k + 1):
            s = s + c[k - i] * t[i]
        c.append(-s / k)
    return c[1:]


def _end(h, n, cplx, what, N):
    m = h.mod("thewalrus.charpoly")
    A = h.matrix("a", n, kind="cplx" if cplx else "gen", ld="complex" if cplx else "float")
    _check(h, m, A, n, what, N)


def _check(h, m, A, n, what, N):
    R = rows(A)
    keep = [[x for x in r] for r in R]
    if what == "charpoly":
        got = m.charpoly(A)
        h.true("length", len(got) == n)
        h.eq("charpoly", h.array([got[i] for i in range(n)], shape=(n,)), h.array(_charcoef(keep), shape=(n,)))
    else:
        got = m.powertrace(A, N)
        h.true("length", len(got) == N)
        want = matpow_traces(keep, N)
        for k in range(N):
            h.eq("powertrace", got[k], want[k])
    h.eq("argument-unchanged", A, h.array(keep, shape=(n, n)))


for n in (1, 2, 3):
    case("C09", "charpoly-%d" % n, n, False, "charpoly", 0, bounds="%dx%d real, all entries symbolic" % (n, n), boundscheck=True)(_end)
for n, N in ((0, 1), (0, 4), (1, 1), (1, 5), (2, 2), (2, 6), (3, 3), (3, 6)):
    case("C09", "powertrace-%d-%d" % (n, N), n, False, "powertrace", N, bounds="%dx%d real, powers 0..%d" % (n, n, N - 1), boundscheck=True)(_end)
for n, N in ((0, 3), (1, 4), (2, 5)):
    case("C09", "powertrace-cplx-%d-%d" % (n, N), n, True, "powertrace", N, bounds="%dx%d complex, powers 0..%d" % (n, n, N - 1), boundscheck=True)(_end)
case("C09", "charpoly-cplx-2", 2, True, "charpoly", 0, bounds="2x2 complex", boundscheck=True)(_end)


def _pyth(h, n, cplx, what, N, zero=False, line=0):
    """A = P B P, P the reflection that maps x = (3, 4, 0..) to -5 e1"""
    m = h.mod("thewalrus.charpoly")
    num = h.num
    lim = n * n
    import random

    rnd = random.Random(n)
    t = h.real("t", kind="gen") if line else None
    B = []
    for i in range(n):
        row = []
        for j in range(n):
            if j == 0 and i >= 1:
                v = num(-5) if i == 1 else num(0)
            elif n > 3 and j == 1 and i >= 2:
                # second reflection: norm 13 (or a zero column)
                v = num(0) if zero else num((5, 12, 0)[i - 2])
            elif line:
                v = num(rnd.randint(-3, 3)) + rnd.randint(1, 3) * t
            else:
                v = h.cplx("b_%d_%d" % (i, j)) if (cplx and j > i) else h.real("b_%d_%d" % (i, j), kind="gen")
            row.append(v)
        B.append(row)
    v = [8, 4] + [0] * (n - 3)
    P = [[num(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for i in range(n - 1):
        for j in range(n - 1):
            P[i + 1][j + 1] = num(1 if i == j else 0) - num(2 * v[i] * v[j]) / 80
    P, B = h.array(P, shape=(n, n)), h.array(B, shape=(n, n))
    A = h.mm(P, B, P)
    A = h.array([[A[i, j] for j in range(n)] for i in range(n)], shape=(n, n), ld="complex" if cplx else "float")
    _check(h, m, A, n, what, N)


case("C09", "householder-3-cplx", 3, True, "charpoly", 0, bounds="3x3 complex upper part, fixed first column")(_pyth)
case("C09", "householder-4", 4, False, "charpoly", 0, bounds="4x4, all entries symbolic up to fixed subdiagonal columns", opts=dict(weight=3))(_pyth)
case("C09", "householder-4-zero", 4, False, "charpoly", 0, True, bounds="4x4 with a vanishing subdiagonal column", opts=dict(weight=3))(_pyth)
case("C09", "householder-4-powertrace", 4, False, "powertrace", 6, False, 1, bounds="4x4 on a line, powers 0..5", opts=dict(weight=3))(_pyth)
case("C09", "householder-5-zero", 5, False, "charpoly", 0, True, 1, bounds="5x5 on a line, vanishing second subdiagonal column", tier="thorough")(_pyth)


def _sim(h, n, k):
    """one Householder step keeps all power traces, for every vector v"""
    m = h.need("thewalrus.charpoly", "apply_householder")
    A = h.matrix("a", n, ld="float")
    # before step k the columns left of k-1 are already in Hessenberg form
    for j in range(k - 1):
        for i in range(j + 2, n):
            A[i, j] = 0
    v = h.vector("v", n - k, ld="float")
    h.assume(v[0] != 0)
    w = matpow_traces(rows(A), n + 1)
    m.apply_householder(A, v, k)
    g = matpow_traces(rows(A), n + 1)
    for i in range(1, n + 1):
        h.eq("householder-similarity", g[i], w[i])


case("C09", "similarity-2-1", 2, 1, bounds="2x2, every v")(_sim)
case("C09", "similarity-3-1", 3, 1, bounds="3x3, every v", opts=dict(weight=3))(_sim)
case("C09", "similarity-3-2", 3, 2, bounds="3x3, every v")(_sim)
case("C09", "similarity-4-2", 4, 2, bounds="4x4, second step, every v", tier="thorough", opts=dict(timeout=900))(_sim)


def _reflect(h, n, k, cplx):
    """the reflection vector annihilates the column below the subdiagonal"""
    m = h.need("thewalrus.charpoly", "apply_householder", "get_reflection_vector")
    A = h.matrix("a", n, kind="cplx" if cplx else "gen", ld="complex" if cplx else "float")
    v = m.get_reflection_vector(A, k)
    m.apply_householder(A, v, k)
    for i in range(k + 1, n):
        h.eq("annihilated", A[i, k - 1], 0)


case("C09", "reflect-3-1", 3, 1, False, bounds="3x3 real")(_reflect)
case("C09", "reflect-4-2", 4, 2, False, bounds="4x4 real, second step")(_reflect)


def _hess(h, n, k):
    m = h.need("thewalrus.charpoly", "_charpoly")
    R = [[h.real("a_%d_%d" % (i, j), kind="gen") if j >= i - 1 else h.num(0) for j in range(n)] for i in range(n)]
    A = h.array(R, shape=(n, n), ld="float")
    got = m._charpoly(A, k)
    want = _charcoef(R)
    for i in range(k):
        h.eq("hessenberg-charpoly", got[i], want[i])


for n in (1, 2, 3, 4, 5):
    case("C09", "hessenberg-%d" % n, n, n, bounds="every %dx%d upper-Hessenberg matrix" % (n, n), boundscheck=True)(_hess)
for n, k in ((4, 2), (5, 3), (4, 3)):
    case("C09", "hessenberg-%d-%d" % (n, k), n, k, bounds="first %d coefficients of every %dx%d upper-Hessenberg matrix" % (k, n, n))(_hess)
case("C09", "hessenberg-6", 6, 6, tier="thorough", bounds="every 6x6 upper-Hessenberg matrix", opts=dict(timeout=900))(_hess)
