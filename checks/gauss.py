"""Symbolic Gaussian states and independent oracles on them."""
import random

from .oracles import det, expand_reps, fact, haf, rows, subsets


def cov_family(h, n, hbar, nv, seed, base=1, name="v", scale=24, tscale=10):
    """V = hbar*(base*I + E0/scale + sum_k t_k E_k/tscale): symmetric 2n x 2n, rows (list of lists)"""
    r = random.Random(1000 * seed + n)
    ts = [h.real("%s_t%d" % (name, k), kind="gen") for k in range(nv)]
    N = 2 * n
    V = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i, N):
            v = h.num(r.choice([-4, -3, -2, -1, 1, 2, 3, 4])) / scale
            for t in ts:
                v = v + r.choice([-3, -2, -1, 1, 2, 3]) * t / tscale
            if i == j:
                v = v + base
            V[i][j] = V[j][i] = hbar * v
    return V


def cov_full(h, n, name="v"):
    return rows(h.symmetric(name, 2 * n))


def posdef(h, M, strict=True):
    """assume all leading principal minors of every index subset order positive (Sylvester)"""
    for k in range(1, len(M) + 1):
        h.assume(h.re(det([r[:k] for r in M[:k]])) > 0)


def posdef_all(h, M):
    """assume every principal minor positive (equivalent to M > 0; states all consequences)"""
    for X in subsets(len(M)):
        if X:
            h.assume(h.re(det([[M[i][j] for j in X] for i in X])) > 0)


def add_diag(M, c):
    return [[x + (c if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(M)]


def block(V, n, K):
    idx = list(K) + [k + n for k in K]
    return [[V[i][j] for j in idx] for i in idx]


def quad(M, v):
    """v^T M^-1 v by Cramer"""
    d = det(M)
    k = len(M)
    q = 0
    for i in range(k):
        q = q + v[i] * det([[v[a] if b == i else M[a][b] for b in range(k)] for a in range(k)])
    return q / d


def vac_prob(h, V, mu, n, K, hbar):
    """probability that the modes K are all in vacuum"""
    K = list(K)
    if not K:
        return h.num(1)
    M = add_diag(block(V, n, K), hbar / 2)
    r = hbar ** len(K) / h.sqrt(det(M))
    if mu is not None:
        m = [mu[k] for k in K] + [mu[k + n] for k in K]
        r = r * h.exp(-quad(M, m) / 2)
    return r


def click_prob(h, V, mu, n, pattern, hbar):
    """probability of the click pattern; None = mode not measured"""
    off = [k for k in range(n) if pattern[k] == 0]
    on = [k for k in range(n) if pattern[k] == 1]
    t = 0
    for X in subsets(len(on)):
        t = t + (-1) ** len(X) * vac_prob(h, V, mu, n, sorted(off + [on[x] for x in X]), hbar)
    return t


def bargmann(h, V, mu, n, hbar):
    """Generating function of the density matrix from the Gaussian Husimi function of (mu, V):
    exp(|z|^2) <z|rho|z> = c exp(1/2 w^T A w + g.w), w = (z*_1..z*_n, z_1..z_n); returns c, A, g"""
    N = 2 * n
    M = add_diag(V, hbar / 2)
    d = det(M)
    # r = L w, the phase-space point of the coherent state z
    s = h.sqrt(hbar / 2)
    L = [[0] * N for _ in range(N)]
    for k in range(n):
        L[k][k] = L[k][k + n] = s
        L[k + n][k] = s * h.I
        L[k + n][k + n] = -s * h.I
    if N == 1:
        W = [[1 / d]]
    else:
        minor = lambda a, b: det([[M[x][y] for y in range(N) if y != b] for x in range(N) if x != a])
        W = [[(-1) ** (a + b) * minor(b, a) / d for b in range(N)] for a in range(N)]
    A = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i, N):
            t = 0
            for a in range(N):
                for b in range(N):
                    if isinstance(L[a][i], int) or isinstance(L[b][j], int):
                        continue
                    t = t - L[a][i] * W[a][b] * L[b][j]
            if j == i + n:
                t = t + 1
            A[i][j] = A[j][i] = t
    c = hbar ** n / h.sqrt(d)
    g = None
    if mu is not None:
        Wm = [sum(W[a][b] * mu[b] for b in range(N)) for a in range(N)]
        g = [sum(L[a][i] * Wm[a] for a in range(N) if not isinstance(L[a][i], int)) for i in range(N)]
        c = c * h.exp(-sum(mu[a] * Wm[a] for a in range(N)) / 2)
    return c, A, g


def fock_element(h, bg, n, row, col):
    """<row| rho |col> from bargmann()"""
    c, A, g = bg
    idx = expand_reps(list(row) + list(col))
    f = 1
    for k in list(row) + list(col):
        f *= fact(k)
    return c * haf(A, idx, loop=g is not None, D=g) / h.sqrt(h.num(f))


def pure_family(h, n, hbar, nv, seed, name="u"):
    """pure covariance hbar/2 [[U^-1, U^-1 W], [W U^-1, U + W U^-1 W]], U > 0 and W symmetric; n = 1, nv = None: every pure state"""
    r = random.Random(77 * seed + n)
    if n == 1:
        if nv is None:
            u, w = h.pos(name + "_u"), h.real(name + "_w", kind="gen")
        else:
            u, w = h.num(3) / 4, h.num(1) / 3
            for k in range(nv):
                t = h.real("%s_t%d" % (name, k), kind="gen")
                u, w = u + t / 10, w - t / 5
            h.assume(u > 0)
        U, W, Ui = [[u]], [[w]], [[1 / u]]
    else:
        ts = [h.real("%s_t%d" % (name, k), kind="gen") for k in range(nv)]

        def sym(base):
            X = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    v = h.num(r.choice([-3, -2, -1, 1, 2, 3])) / 8
                    for t in ts:
                        v = v + r.choice([-2, -1, 1, 2]) * t / 10
                    X[i][j] = X[j][i] = v + (base if i == j else 0)
            return X

        U, W = sym(1), sym(0)
        posdef_all(h, U)
        d = det(U)
        minor = lambda a, b: det([[U[x][y] for y in range(n) if y != b] for x in range(n) if x != a])
        Ui = [[(-1) ** (a + b) * minor(b, a) / d for b in range(n)] for a in range(n)]
    mm = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    UW = mm(Ui, W)
    WU = mm(W, Ui)
    WUW = mm(W, UW)
    V = [[Ui[i][j] for j in range(n)] + [UW[i][j] for j in range(n)] for i in range(n)]
    V += [[WU[i][j] for j in range(n)] + [U[i][j] + WUW[i][j] for j in range(n)] for i in range(n)]
    return [[hbar / 2 * x for x in row] for row in V]
