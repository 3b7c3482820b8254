"""Conversions between quadrature, Husimi and adjacency representations.

Symbolic inputs: all entries of the covariance matrix (symmetric) and of the means, hbar > 0.
Oracle: the change of basis W = [[I, iI], [I, -iI]]/sqrt(2) applied by explicit sums.
Assumptions:
- exact arithmetic (floating-point rounding is outside the claim)
- numpy.linalg.inv executed as exact inversion of an invertible matrix
- mode numbers bounded as listed per case
"""
from engine.harness import case
from . import gauss
from .oracles import rows


def _husimi(h, V, n, hbar):
    """conj(W V W^dagger / hbar) + 1/2"""
    N = 2 * n

    def W(i):  # row i of sqrt(2) W
        k = i % n
        return [(k, 1), (k + n, h.I if i < n else -h.I)]

    Q = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(N):
            t = 0
            for a, x in W(i):
                for b, y in W(j):
                    t = t + x * V[a][b] * h.conj(y)
            Q[i][j] = h.conj(t / (2 * hbar)) + (h.num(1) / 2 if i == j else 0)
    return Q


def _mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def _qmat(h, n):
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    V = rows(h.symmetric("v", 2 * n))
    cov = h.array(V, shape=(2 * n, 2 * n))
    Q = q.Qmat(cov, hbar=hbar)
    h.eq("Qmat", Q, h.array(_husimi(h, V, n, hbar), ld="complex", shape=(2 * n, 2 * n)))
    h.eq("Covmat(Qmat)", q.Covmat(Q, hbar=hbar), cov)
    two = [[2 * x / hbar for x in r] for r in V]
    h.eq("Qmat-default-hbar", q.Qmat(h.array(two, shape=(2 * n, 2 * n))), Q)
    h.eq("Covmat-default-hbar", q.Covmat(Q), h.array(two, shape=(2 * n, 2 * n)))


def _covmat(h, n):
    """Covmat on every matrix of the Husimi form, and Qmat(Covmat(Q)) = Q"""
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    N = [[None] * n for _ in range(n)]
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        N[i][i] = h.real("n%d" % i)
        for j in range(i, n):
            M[i][j] = M[j][i] = h.cplx("m%d%d" % (i, j))
            if j > i:
                N[i][j] = h.cplx("n%d%d" % (i, j))
                N[j][i] = h.conj(N[i][j])
    Q = [[0] * (2 * n) for _ in range(2 * n)]
    for i in range(n):
        for j in range(n):
            Q[i][j] = N[i][j] + (1 if i == j else 0)
            Q[i + n][j + n] = h.conj(Q[i][j])
            Q[i + n][j] = M[i][j]
            Q[i][j + n] = h.conj(M[i][j])
    A = h.array(Q, ld="complex", shape=(2 * n, 2 * n))
    V = q.Covmat(A, hbar=hbar)
    h.eq("Qmat(Covmat(Q))", q.Qmat(V, hbar=hbar), A)
    h.eq("Covmat", h.array(_husimi(h, rows(V), n, hbar), ld="complex", shape=(2 * n, 2 * n)), A)


def _amat(h, n, kind, qm):
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    N = 2 * n
    V = rows(h.symmetric("v", N)) if kind == "all" else gauss.cov_family(h, n, hbar, 1, 5)
    cov = h.array(V, shape=(N, N))
    Q = _husimi(h, V, n, hbar)
    d = gauss.det(Q)
    h.assume(h.Not(h.iseq(h.re(d), 0)))
    if qm:
        A = q.Amat(h.array(Q, ld="complex", shape=(N, N)), cov_is_qmat=True)
    else:
        A = q.Amat(cov, hbar=hbar)
    R = rows(A)
    # A = X (1 - Q^-1)^*  <=>  (X A)^* Q = Q - 1
    XA = [[h.conj(x) for x in R[(i + n) % N]] for i in range(N)]
    want = [[Q[i][j] - (1 if i == j else 0) for j in range(N)] for i in range(N)]
    h.eq("Amat", h.array(_mm(XA, Q), ld="complex", shape=(N, N)), h.array(want, ld="complex", shape=(N, N)))


def _disp(h, n):
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    mu = [h.real("m%d" % i) for i in range(2 * n)]
    beta = q.complex_to_real_displacements(h.array(mu, shape=(2 * n,)), hbar=hbar)
    s = h.sqrt(2 * hbar)
    al = [(mu[i] + h.I * mu[i + n]) / s for i in range(n)]
    h.eq("complex displacements", beta, h.array(al + [h.conj(a) for a in al], ld="complex", shape=(2 * n,)))
    h.eq("round trip", q.real_to_complex_displacements(beta, hbar=hbar), h.array(mu, shape=(2 * n,)))
    z = [h.cplx("z%d" % i) for i in range(n)]
    zz = h.array(z + [h.conj(x) for x in z], ld="complex", shape=(2 * n,))
    r = q.real_to_complex_displacements(zz, hbar=hbar)
    h.eq("real displacements", r, h.array([s * h.re(x) for x in z] + [s * h.im(x) for x in z], shape=(2 * n,)))
    h.eq("round trip 2", q.complex_to_real_displacements(r, hbar=hbar), zz)


def _xmat(h):
    q = h.mod("thewalrus.quantum")
    n = h.choice("n", [1, 2, 3, 4])
    X = q.Xmat(n)
    h.eq("Xmat", X, h.array([[1 if j == (i + n) % (2 * n) else 0 for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n)))


for n in (1, 2, 3):
    case("C12", "qmat-%d" % n, n, bounds="%d modes, every symmetric matrix, hbar" % n)(_qmat)
    case("C12", "covmat-%d" % n, n, bounds="%d modes, every matrix of the Husimi form, hbar" % n)(_covmat)
    case("C12", "displacements-%d" % n, n, bounds="%d modes, all displacements, hbar" % n)(_disp)
for qm in (False, True):
    t = "-qmat" if qm else ""
    case("C12", "amat-1-all" + t, 1, "all", qm, bounds="1 mode, every covariance with invertible Q")(_amat)
    case("C12", "amat-2-line" + t, 2, "line", qm, bounds="2 modes, generic line, hbar", opts=dict(weight=5))(_amat)
    case("C12", "amat-3-line" + t, 3, "line", qm, tier="thorough", bounds="3 modes, generic line, hbar")(_amat)
    case("C12", "amat-2-all" + t, 2, "all", qm, tier="thorough", bounds="2 modes, every covariance with invertible Q")(_amat)
for n in (4, 5):
    case("C12", "qmat-%d" % n, n, tier="thorough", bounds="%d modes" % n)(_qmat)
case("C12", "xmat", bounds="1..4 modes")(_xmat)
