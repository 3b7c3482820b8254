"""Adjacency-matrix encodings hit the requested mean.

Symbolic inputs: singular values (or eigenvalues), the unitary of the Takagi form of the adjacency matrix, the scaling; for every scaling x the
requested mean is set to the mean of the state encoded by x A, and the equation handed to the root finder must vanish exactly there.
Oracle: the pure state with amplitudes proportional to hafnians of x A, i.e. Husimi matrix (1 - X diag(xA, xA*))^-1: mean photon number
sum s^2/(1-s^2), click probability of a mode from its reduced Husimi matrix.
Assumptions:
- exact arithmetic; numpy.linalg.svd / eigh return the exact singular values / eigen-decomposition in the documented order (contracts)
- scipy.optimize.root_scalar returns a root of the function it is given inside a bracket with a sign change (contract; the sign change is decided in the cases with one mode, and with two modes except the clicks of non-diagonal matrices)
- mode numbers and families as listed per case
"""
from fractions import Fraction

from engine.harness import case
from .gauss import bargmann
from .oracles import det, rows


class Root:
    """root_scalar contract: the case knows the root x; checks that f vanishes there and that the bracket has a sign change"""

    def __init__(self, h, x, sign=True, grad=None):
        self.h, self.x, self.n, self.sign = h, x, 0, sign
        self.grad = grad
        h.root(self.call)

    def call(self, f, *a, **k):
        h = self.h
        self.n += 1
        br = k.get("bracket") or (a[1] if len(a) > 1 else None)
        h.eq("equation solved at the requested mean", f(self.x), h.num(0))
        if br is not None:
            lo, hi = br
            h.true("root inside the bracket", h.And(self.x >= lo, self.x <= hi))
            if self.sign:
                h.true("sign change of the bracket", h.re(f(h.num(0) + lo)) * h.re(f(h.num(0) + hi)) <= 0)
        if k.get("fprime") is not None and self.grad is not None:
            h.eq("derivative", k["fprime"](self.x), self.grad)
        return self.x


def _takagi(h, n, kind, zero):
    """A = U diag(s) U^T; s descending"""
    s = [h.real("s0", Fraction(1, 100), 10)]
    for i in range(1, n):
        s.append(h.num(0) if zero and i == n - 1 else h.real("s%d" % i, Fraction(1, 100), 10))
        h.assume(s[i] <= s[i - 1])
    if kind == "diag":
        ph = [h.num(1)] * n
        U = [[h.num(1) if i == j else h.num(0) for j in range(n)] for i in range(n)]
    elif n == 1:
        U = [[h.num(Fraction(3, 5)) + h.I * h.num(Fraction(4, 5))]]
    else:
        t = h.real("t", -2, 2) if kind == "rot" else h.num(Fraction(1, 3))
        c, q = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        U = [[h.num(1) if i == j else h.num(0) for j in range(n)] for i in range(n)]
        U[0][0], U[0][1], U[1][0], U[1][1] = c, q, -q, c
        if kind == "unitary":
            p = [h.num(Fraction(3, 5)) + h.I * h.num(Fraction(4, 5)), h.num(Fraction(5, 13)) - h.I * h.num(Fraction(12, 13)), h.I + h.num(0)]
            U = [[p[i] * x for x in U[i]] for i in range(n)]
    A = [[sum(U[i][k] * s[k] * U[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    return s, A


def _svd(h, A, s):
    n = len(s)

    def f(orig, M, *a, **k):
        h.eq("matrix decomposed", M, A)
        if orig is not None:
            return orig(M, *a, **k)
        if k.get("compute_uv", True):
            return None
        return h.array(s, shape=(n,))

    h.linalg("svd", f)


def _arr(h, A, cplx):
    n = len(A)
    return h.array(A, ld="complex" if cplx else "float", shape=(n, n))


def _photons(h, n, kind, zero):
    q = h.mod("thewalrus.quantum.adjacency_matrices")
    s, A = _takagi(h, n, kind, zero)
    arr = _arr(h, A, kind == "unitary")
    y = h.real("y", Fraction(1, 1000), Fraction(999, 1000))
    x = y / s[0]
    nm = sum((x * v) ** 2 / (1 - (x * v) ** 2) for v in s)
    g = sum(2 * x * v * v / (1 - (x * v) ** 2) ** 2 for v in s)
    _svd(h, arr, s)
    Root(h, x, n < 3, grad=g)
    h.eq("scaling", q.adj_scaling(arr, nm), x, tol=1e-6)


for n, kind, z, t in ((1, "unitary", False, "quick"), (2, "diag", False, "quick"), (2, "rot", False, "quick"), (2, "unitary", True, "quick"), (3, "unitary", False, "quick"), (4, "unitary", False, "thorough")):
    case("C30", "photons-%d-%s%s" % (n, kind, "-singular" if z else ""), n, kind, z, tier=t,
         bounds="%d modes, every spectrum with singular values in [1/100, 10], %s Takagi basis, every mean up to that of the scaling 0.999/s_max" % (n, kind), opts=dict(weight=n))(_photons)


def _clicks(h, n, kind):
    q = h.mod("thewalrus.quantum.adjacency_matrices")
    s, A = _takagi(h, n, kind, False)
    arr = _arr(h, A, kind == "unitary")
    y = h.real("y", Fraction(1, 1000), Fraction(999, 1000))
    x = y / s[0]
    N = 2 * n
    B = [[x * v for v in r] for r in A]
    # Husimi matrix (1 - X diag(B, B*))^-1 by cofactors; vacuum probability of mode i = 1/sqrt(det of its 2x2 block)
    M = [[(h.num(1) if i == j else h.num(0)) - (B[i - n][j] if (i >= n and j < n) else h.conj(B[i][j - n]) if (i < n and j >= n) else h.num(0)) for j in range(N)] for i in range(N)]
    d = det(M)

    def inv(a, b):
        return (-1) ** (a + b) * det([[M[i][j] for j in range(N) if j != a] for i in range(N) if i != b]) / d

    c = h.num(0)
    for i in range(n):
        dd = inv(i, i) * inv(i + n, i + n) - inv(i, i + n) * inv(i + n, i)
        c = c + 1 - 1 / h.sqrt(h.re(dd))
    h.assume(c >= 0)
    h.assume(c <= n)
    _svd(h, arr, s)
    Root(h, y, n == 1 or n == 2 and kind == "diag")
    h.eq("scaling", q.adj_scaling_torontonian(arr, c), x, tol=1e-6)


for n, kind, t in ((1, "unitary", "quick"), (2, "diag", "quick"), (2, "unitary", "quick"), (3, "diag", "thorough")):
    case("C30", "clicks-%d-%s" % (n, kind), n, kind, tier=t,
         bounds="%d modes, every spectrum with singular values in [1/100, 10], %s Takagi basis" % (n, kind), opts=dict(weight=3 * n))(_clicks)


def _bad(h):
    q = h.mod("thewalrus.quantum.adjacency_matrices")
    g = h.mod("thewalrus.samples")
    x = h.real("x", 1, 2)
    two = h.array([[x, h.num(0)], [h.num(0), x]], shape=(2, 2))
    h.linalg("svd", lambda orig, M, *a, **k: orig(M, *a, **k) if orig is not None else h.array([x, x], shape=(2,)))
    for v in (-1, 3):
        h.raises("clicks %d" % v, lambda: q.adj_scaling_torontonian(two, v), ValueError)
    h.raises("clicks barely too many", lambda: q.adj_scaling_torontonian(two, 2 + x / 100), ValueError)
    h.raises("clicks barely negative", lambda: q.adj_scaling_torontonian(two, -x / 100), ValueError)
    rect = h.array([[x, x, x], [x, x, x]], shape=(2, 3))
    h.raises("rect", lambda: q.adj_to_qmat(rect, 1), ValueError)
    tiny = h.real("tiny", 0, Fraction(1, 10 ** 8))
    h.linalg("svd", lambda orig, M, *a, **k: orig(M, *a, **k) if orig is not None else h.array([tiny, h.num(0)], shape=(2,)))
    h.raises("vanishing matrix", lambda: q.adj_scaling(h.array([[tiny, h.num(0)], [h.num(0), h.num(0)]], shape=(2, 2)), 1), ValueError)


case("C30", "bad", bounds="means outside [0, n], non-square and vanishing matrices")(_bad)


def _qmat(h, n, kind, gen):
    """the Husimi matrix is that of the pure state with amplitudes haf(sc A) and of the requested mean"""
    q = h.mod("thewalrus.quantum.adjacency_matrices")
    Q = h.mod("thewalrus.quantum")
    s, A = _takagi(h, n, kind, False)
    arr = _arr(h, A, kind == "unitary")
    y = h.real("y", Fraction(1, 1000), Fraction(999, 1000))
    x = y / s[0]
    nm = sum((x * v) ** 2 / (1 - (x * v) ** 2) for v in s)
    _svd(h, arr, s)
    Root(h, x)
    f = (getattr(h.mod("thewalrus.samples"), "gen_Qmat_from_graph", None) or q.adj_to_qmat) if gen else q.adj_to_qmat
    M = rows(f(arr, nm))
    N = 2 * n
    h.eq("mean photon number", sum(M[i][i] for i in range(n)) - n, nm, tol=1e-6)
    V = rows(Q.Covmat(h.array(M, ld="complex", shape=(N, N)), hbar=2))
    _, B, _ = bargmann(h, V, None, n, h.num(2))
    want = [[(x * A[i][j] if i < n and j < n else x * h.conj(A[i - n][j - n]) if i >= n and j >= n else h.num(0)) for j in range(N)] for i in range(N)]
    h.eq("amplitudes", h.array(B, ld="complex", shape=(N, N)), h.array(want, ld="complex", shape=(N, N)), tol=1e-5)


for n, kind, g, t in ((1, "unitary", False, "quick"), (2, "diag", False, "quick"), (2, "unitary", True, "quick"), (2, "rot", False, "thorough")):
    case("C30", "qmat-%d-%s" % (n, kind), n, kind, g, tier=t, bounds="%d modes, every spectrum in [1/100, 10], %s Takagi basis, every mean" % (n, kind), opts=dict(weight=2 * n))(_qmat)


def _thermal(h, n, scale, via):
    c = h.mod("thewalrus.csamples")
    s = []
    for i in range(n):
        s.append(h.real("s%d" % i, Fraction(1, 100), 10))
        if i:
            h.assume(s[i] >= s[i - 1])
    if n > 2:
        s[0] = h.num(0)
    t = h.num(Fraction(1, 3))
    co, si = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    U = [[h.num(1) if i == j else h.num(0) for j in range(n)] for i in range(n)]
    if n > 1:
        U[0][0], U[0][1], U[1][0], U[1][1] = co, si, -si, co
    A = [[sum(U[i][k] * s[k] * U[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    arr = h.array(A, shape=(n, n))

    def eigh(orig, M, *a, **k):
        h.eq("matrix decomposed", M, arr)
        if orig is not None:
            return orig(M, *a, **k)
        return h.array(s, ld="float", shape=(n,)), h.array(U, shape=(n, n))

    h.linalg("eigh", eigh)
    y = h.real("y", Fraction(1, 1000), Fraction(999, 1000))
    sc = Fraction(scale)
    x = y / (s[-1] * h.num(sc))
    w = [x * v * h.num(sc) for v in s]
    nm = sum(v / (1 - v) for v in w)
    Root(h, x, grad=sum(h.num(sc) * u / (1 - v) ** 2 for u, v in zip(s, w)))
    r = c.rescale_adjacency_matrix_thermal(arr, nm) if via else c.rescale_adjacency_matrix(arr, nm, float(scale) if not h.symbolic else h.num(sc))
    ls, O = h.lst(r[0]), rows(r[1])
    # the spectral decomposition of x A
    B = [[sum(O[i][k] * ls[k] * O[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    h.eq("rescaled matrix", h.array(B, shape=(n, n)), h.array([[x * v for v in r] for r in A], shape=(n, n)), tol=1e-6)
    h.eq("mean", sum(h.num(sc) * v / (1 - h.num(sc) * v) for v in ls), nm, tol=1e-5)


for n, sc, via in ((1, 1, True), (2, 1, True), (2, 2, False), (3, 1, False)):
    case("C30", "thermal-%d-%s%s" % (n, sc, "-thermal" if via else ""), n, sc, via, bounds="%d modes, every positive semidefinite spectrum (zero or in [1/100, 10]), scale %s" % (n, sc), opts=dict(weight=n))(_thermal)


def _thermal_bad(h):
    c = h.mod("thewalrus.csamples")
    x = h.real("x", 1, 2)
    h.linalg("eigh", lambda orig, M, *a, **k: orig(M, *a, **k) if orig is not None else (h.array([-x, x], ld="float", shape=(2,)), h.array([[1, 0], [0, 1]], shape=(2, 2))))
    h.raises("negative", lambda: c.rescale_adjacency_matrix_thermal(h.array([[-x, h.num(0)], [h.num(0), x]], shape=(2, 2)), 1), AssertionError)
    h.linalg("eigh", lambda orig, M, *a, **k: orig(M, *a, **k) if orig is not None else (h.array([x, x], ld="float", shape=(2,)), h.array([[1, 0], [0, 1]], shape=(2, 2))))
    h.raises("asymmetric", lambda: c.rescale_adjacency_matrix_thermal(h.array([[x, x], [h.num(0), x]], shape=(2, 2)), 1), AssertionError)


case("C30", "thermal-bad", bounds="a negative eigenvalue, an asymmetric matrix")(_thermal_bad)
