"""Matrix decompositions reconstruct their input with factors of the stated kind.

Symbolic inputs: the canonical factors themselves (spectra, unitaries, squeezings, shears), hence the matrices built from them; every choice the
underlying eigen-decomposition leaves open (order and signs of Schur blocks, phases of singular vectors, bases of degenerate subspaces).
Oracles: products of the factors equal the input, and each factor is of the promised class (orthogonal, unitary, symplectic, diagonal,
non-negative, sorted, triangular with unit diagonal).
Assumptions:
- exact arithmetic; numpy/scipy sqrtm, schur, polar, qr, svd, eigh, eigvals, eigvalsh replaced by their contracts: exact factors of the matrix
  they are given (checked), with every admissible choice in the family; np.allclose modelled as exact equality
- complex matrices of the general families are not a multiple of a real matrix unless stated; sizes and families as listed per case
"""
from fractions import Fraction

from engine.harness import case
from .c33 import _omega, _phase, arr, dag, eye, mm, tr, unitary
from .oracles import det, rows

MOD = "thewalrus.decompositions"


def _rows(A):
    return [list(r) for r in rows(A)]


def _diag(h, d):
    return [[x if i == j else h.num(0) for j in range(len(d))] for i, x in enumerate(d)]


def _real(h, U):
    """real symplectic form of a unitary"""
    return [[h.re(x) for x in r] + [-h.im(x) for x in r] for r in U] + [[h.im(x) for x in r] + [h.re(x) for x in r] for r in U]


def _contract(h, name, want, give, label=None):
    """replaces scipy's function: checks the matrix it is asked about, returns the given factors"""
    n = [0]

    def f(orig, M, *a, **k):
        n[0] += 1
        if h.symbolic:
            h.eq("%s is asked about its matrix %d" % (label or name, n[0]), M, want)
            return give
        return orig(M, *a, **k)

    h.linalg(name, f)
    return n


# ---------------------------------------------------------------- Takagi
def _takagi_check(h, f, A, order, n, cplx=True, kw=None):
    kw = dict(kw or {})
    if order is not None:
        kw["svd_order"] = order
    r, U = f(arr(h, A, "complex" if cplx else "float"), **kw)
    r, U = [h.num(0) + x for x in h.lst(r)], _rows(U)
    h.true("sizes", len(r) == n and len(U) == n and len(U[0]) == n)
    for i, x in enumerate(r):
        h.true("non-negative %d" % i, h.re(x) >= 0)
    for i in range(n - 1):
        h.true("sorted %d" % i, h.re(r[i]) >= h.re(r[i + 1]) if order is not False else h.re(r[i]) <= h.re(r[i + 1]))
    h.eq("unitary", arr(h, mm(U, dag(h, U)), "complex"), eye(h, n))
    S = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    h.eq("U diag(r) U^T", arr(h, mm(U, _diag(h, r), tr(U)), "complex"), arr(h, S, "complex"))


def _orders(h):
    return h.choice("svd_order", [None, True, False])


def _t_real(h, n, zero, asc, lower):
    """real matrices (also handed over with complex type), every signature, degenerate or singular"""
    t = h.mod(MOD)
    ls = [h.real("l%d" % i, -4, 4) for i in range(n)]
    if zero:
        ls[zero - 1] = h.num(0)
    for i in range(n - 1):
        h.assume(ls[i] <= ls[i + 1])
    O = unitary(h, "q", n, True, "rot" if n < 3 else False)
    A = mm(O, _diag(h, ls), tr(O))
    h.assume(h.Not(h.And(*[h.iseq(x, 0) for x in ls])) if h.symbolic else max(abs(x) for x in ls) > 1e-3)
    _contract(h, "eigh", arr(h, A), (h.array(ls, shape=(n,)), arr(h, O)))
    if lower:
        A = [[A[i][j] if j >= i else h.num(7) for j in range(n)] for i in range(n)]
    _takagi_check(h, t.takagi, A, _orders(h), n, asc)


for n, z, c, lo in ((1, 0, False, False), (2, 0, False, False), (2, 1, False, False), (2, 2, True, False), (2, 0, True, True), (3, 0, False, False), (3, 2, False, True)):
    case("C16", "takagi-real-%d%s%s%s" % (n, "-singular%d" % z if z else "", "-complex" if c else "", "-lower" if lo else ""), n, z, c, lo,
         bounds="real symmetric %dx%d, every spectrum in [-4, 4] with ascending eigenvalues, a family of eigenbases%s" % (n, n, ", entries below the diagonal ignored" if lo else ""), opts=dict(weight=n))(_t_real)


def _t_phase(h, n):
    """a global phase times a real matrix"""
    t = h.mod(MOD)
    ls = [h.real("l%d" % i, Fraction(1, 4), 4) * (-1 if i == 0 else 1) for i in range(n)]
    O = unitary(h, "q", n, True, False)
    p = _phase(h, "ph", False)
    if n == 1:
        A = [[ls[0] * p]]
    else:
        B = mm(O, _diag(h, ls), tr(O))
        A = [[p * x for x in r] for r in B]
    h.assume(h.Not(h.iseq(h.im(p), 0)) if h.symbolic else abs(p.imag) > 1e-2)

    def eigh(orig, M, *a, **k):
        if not h.symbolic:
            return orig(M, *a, **k)
        M = _rows(M)
        if n == 1:
            return h.array([M[0][0]], shape=(1,)), arr(h, [[h.num(1)]])
        # the phase was taken from one entry: the real matrix is +-B
        dot = sum(h.re(M[i][j]) * B[i][j] for i in range(n) for j in range(n))
        x = 1 if dot > 0 else -1
        h.eq("the real matrix is that up to a sign", arr(h, M), arr(h, [[x * y for y in r] for r in B]))
        o = list(range(n)) if x == 1 else list(range(n))[::-1]
        d = [x * ls[i] for i in o]
        return h.array(d, shape=(n,)), arr(h, [[r[i] for i in o] for r in O])

    h.linalg("eigh", eigh)
    _takagi_check(h, t.takagi, A, _orders(h), n)


case("C16", "takagi-phase-1", 1, bounds="1x1, every phase")(_t_phase)
case("C16", "takagi-phase-2", 2, bounds="2x2, every global phase, every spectrum of one negative and one positive eigenvalue, one eigenbasis", opts=dict(weight=2))(_t_phase)


def _t_diag(h, n, zero):
    """complex diagonal matrices, in every order of their moduli"""
    t = h.mod(MOD)
    fix = [h.num(1), h.num(Fraction(3, 5)) + h.I * h.num(Fraction(4, 5)), h.num(Fraction(5, 13)) - h.I * h.num(Fraction(12, 13)), h.num(Fraction(-4, 5)) + h.I * h.num(Fraction(3, 5))]
    d = []
    for i in range(n):
        m = h.num(0) if zero and i == 1 else h.real("m%d" % i, Fraction(1, 4), 4)
        d.append(m * (fix[i] if n > 2 or i == 0 else _phase(h, "p%d" % i, False)))
    if n == 2 and not zero:
        h.assume(h.Not(h.iseq(h.im(d[1] / d[0]), 0)) if h.symbolic else abs((d[1] / d[0]).imag) > 1e-2)
    _takagi_check(h, t.takagi, _diag(h, d), _orders(h), n)


for n, z in ((2, False), (3, False), (3, True), (4, False)):
    case("C16", "takagi-diagonal-%d%s" % (n, "-singular" if z else ""), n, z, bounds="complex diagonal %dx%d, every moduli in [1/4, 4] in every order, %s phases" % (n, n, "every" if n == 2 else "fixed"), opts=dict(weight=n))(_t_diag)


def _t_general(h, n, kind):
    """A = W diag(d) W^T, singular vectors with arbitrary phases, and arbitrary bases of equal or vanishing singular values"""
    t = h.mod(MOD)
    W = unitary(h, "q", n, False, False)
    d = [h.real("d%d" % i, Fraction(1, 4), 4) for i in range(n)]
    if kind == "equal":
        d[1] = d[0]
    if kind == "kernel":
        d[n - 1] = h.num(0)
    for i in range(n - 1):
        h.assume(d[i] >= d[i + 1])
    A = mm(W, _diag(h, d), tr(W))
    R = [[h.num(1) if i == j else h.num(0) for j in range(n)] for i in range(n)]
    L = None
    F = Fraction
    if kind == "equal":
        V = unitary(h, "v", 2, False, False)
        R[0][0], R[0][1], R[1][0], R[1][1] = V[0][0], V[0][1], V[1][0], V[1][1]
        for i in range(2, n):
            R[i][i] = _phase(h, "s%d" % i, False)
    else:
        for i in range(n):
            R[i][i] = _phase(h, "s%d" % i, False) if i < 2 else h.num(F(-5, 13)) + h.I * h.num(F(12, 13))
    L = [list(r) for r in R]
    if kind == "kernel":
        L[n - 1][n - 1] = h.num(F(3, 5)) - h.I * h.num(F(4, 5))
    u = mm(W, R)
    v = mm(dag(h, L), tr(W))
    _contract(h, "svd", arr(h, A, "complex"), (arr(h, u, "complex"), h.array(d, shape=(n,)), arr(h, v, "complex")))
    _takagi_check(h, t.takagi, A, _orders(h), n)


for n, k in ((2, "distinct"), (2, "equal"), (2, "kernel"), (3, "distinct"), (3, "equal"), (3, "kernel")):
    case("C16", "takagi-general-%d-%s" % (n, k), n, k, bounds="complex symmetric %dx%d, every spectrum (%s), one Takagi basis, singular vectors with every phase of the family" % (n, n, k), opts=dict(weight=n + 1))(_t_general)


def _t_zero(h):
    t = h.mod(MOD)
    n = h.choice("n", [1, 2, 3])
    _takagi_check(h, t.takagi, [[h.num(0)] * n for _ in range(n)], _orders(h), n, h.choice("complex", [False, True]))


case("C16", "takagi-zero", bounds="zero matrices up to 3x3")(_t_zero)


# ---------------------------------------------------------------- Williamson
def _w_check(h, D, S, V, n):
    D, S = _rows(D), _rows(S)
    N = 2 * n
    h.true("sizes", len(D) == N and len(S) == N)
    off = [D[i][j] for i in range(N) for j in range(N) if i != j]
    h.eq("diagonal", h.array(off, shape=(len(off),)), h.array([h.num(0)] * len(off), shape=(len(off),)))
    h.eq("equal pairs", h.array([D[i][i] for i in range(n)], shape=(n,)), h.array([D[i + n][i + n] for i in range(n)], shape=(n,)))
    for i in range(n):
        h.true("positive %d" % i, h.re(D[i][i]) > 0)
    om = _omega(h, n)
    h.eq("symplectic", arr(h, mm(S, om, tr(S))), arr(h, om))
    h.eq("S D S^T", arr(h, mm(S, D, tr(S))), arr(h, V))


def _will1(h):
    """one mode: every square root M of V, every Schur basis"""
    t = h.mod(MOD)
    a, b, c = h.real("a", Fraction(1, 4), 4), h.real("b", Fraction(1, 4), 4), h.real("c", -1, 1)
    h.assume(a * b - c * c > Fraction(1, 16) if h.symbolic else a * b - c * c > 1 / 16)
    M = [[a, c], [c, b]]
    V = mm(M, M)
    d = a * b - c * c
    s = h.choice("sign", [1, -1])
    th = h.real("t", -5, 5)
    co, si = (1 - th * th) / (1 + th * th), 2 * th / (1 + th * th)
    # rotations keep 1/d, reflections flip it
    O = [[co, -si * s], [si, co * s]]
    T = [[h.num(0), s / d], [-s / d, h.num(0)]]
    e1, e2 = h.real("e1", 0), h.real("e2", 0)
    h.assume(e1 <= e2)
    h.assume(e1 > 0)
    if h.symbolic:
        h.contract(eigvalsh=lambda x: h.array([e1, e2], shape=(2,)))
    _contract(h, "sqrtm", arr(h, V), arr(h, M))
    Mi = [[b / d, -c / d], [-c / d, a / d]]
    _contract(h, "schur", arr(h, mm(Mi, _omega(h, 1), Mi)), (arr(h, T), arr(h, O)))
    D, S = t.williamson(arr(h, V))
    _w_check(h, D, S, V, 1)


case("C16", "williamson-1", bounds="1 mode, every positive definite matrix, every Schur form")(_will1)


def _will(h, n, kind):
    """V = K diag(m^2) K^T with a passive symplectic K"""
    t = h.mod(MOD)
    N = 2 * n
    K = _real(h, unitary(h, "k", n, False, False)) if kind != "diag" else [[h.num(1 if i == j else 0) for j in range(N)] for i in range(N)]
    m = [h.real("m%d" % i, Fraction(1, 4), 4) for i in range(N)]
    if kind == "equal":
        # two equal symplectic eigenvalues
        m[n + 1] = m[0] * m[n] / m[1]
    M = mm(K, _diag(h, m), tr(K))
    V = mm(M, M)
    phi = [1 / (m[i] * m[i + n]) for i in range(n)]
    order = h.choice("order", [list(range(n)), list(range(n))[::-1]])
    sg = [h.choice("sign%d" % i, [1, -1]) for i in range(n)]
    T = [[h.num(0)] * N for _ in range(N)]
    cols = []
    for p, i in enumerate(order):
        T[2 * p][2 * p + 1] = sg[p] * phi[i]
        T[2 * p + 1][2 * p] = -sg[p] * phi[i]
        x, y = [h.num(0)] * N, [h.num(0)] * N
        # any rotation of the pair
        th = h.num(Fraction(p + 1, 3))
        co, si = (1 - th * th) / (1 + th * th), 2 * th / (1 + th * th)
        x[i], x[i + n] = co, si
        y[i], y[i + n] = -si * sg[p], co * sg[p]
        cols += [x, y]
    if kind == "equal":
        # mixing the two pairs by a rotation commutes with the form when both have the same sign
        h.assume(sg[0] == sg[1])
        c0, s0 = h.num(Fraction(3, 5)), h.num(Fraction(4, 5))
        for a, b in ((0, 2), (1, 3)):
            cols[a], cols[b] = [c0 * x - s0 * y for x, y in zip(cols[a], cols[b])], [s0 * x + c0 * y for x, y in zip(cols[a], cols[b])]
    O = mm(K, tr(cols))
    es = [h.real("e%d" % i, Fraction(1, 100), 100) for i in range(N)]
    if h.symbolic:
        h.contract(eigvalsh=lambda x: h.array(es, shape=(N,)))
    _contract(h, "sqrtm", arr(h, V), arr(h, M))
    Mi = mm(K, _diag(h, [1 / x for x in m]), tr(K))
    _contract(h, "schur", arr(h, mm(Mi, _omega(h, n), Mi)), (arr(h, T), arr(h, O)))
    D, S = t.williamson(arr(h, V))
    _w_check(h, D, S, V, n)
    if kind == "equal":
        return
    D = _rows(D)
    # the diagonal is the symplectic spectrum: elementary symmetric functions
    ds = [D[i][i] for i in range(n)]
    ex = [1 / x for x in phi]
    for q in range(1, n + 1):
        h.eq("spectrum %d" % q, _esym(h, ds, q), _esym(h, ex, q))


def _esym(h, xs, q):
    from itertools import combinations

    s = h.num(0)
    for c in combinations(xs, q):
        p = h.num(1)
        for x in c:
            p = p * x
        s = s + p
    return s


for n, k, t in ((2, "diag", "quick"), (2, "passive", "quick"), (2, "equal", "quick"), (3, "diag", "quick"), (3, "passive", "thorough")):
    case("C16", "williamson-%d-%s" % (n, k), n, k, tier=t, bounds="%d modes, every squeezing and temperature, %s, every sign and two orders of the Schur blocks" % (n, {"diag": "diagonal", "passive": "one passive basis", "equal": "two equal symplectic eigenvalues"}[k]),
         opts=dict(weight=2 * n))(_will)


def _will_bad(h):
    t = h.mod(MOD)
    kind = h.choice("kind", ["shape", "asym", "odd", "negative"])
    x = h.real("x", 1, 2)
    z = h.num(0)
    if kind == "shape":
        A = [[x, z, z], [z, x, z]]
    elif kind == "asym":
        A = [[x, h.real("y", Fraction(1, 10), 1)], [z, x]]
    elif kind == "odd":
        A = _diag(h, [x] * 3)
    else:
        y = h.real("y", -1, 0) if h.symbolic else -abs(h.real("y", -1, 0)) - 1e-9
        A = _diag(h, [x, y])
        if h.symbolic:
            h.contract(eigvalsh=lambda m: h.array([y, x], shape=(2,)))
    h.raises(kind, lambda: t.williamson(arr(h, A)), ValueError)


case("C16", "williamson-rejects", bounds="matrices that are not square, symmetric, even-dimensional, positive definite")(_will_bad)


def _sev(h, n):
    t = h.mod(MOD)
    N = 2 * n
    V = _rows(h.symmetric("v", N))
    nu = [h.real("nu%d" % i, Fraction(1, 10), 10) for i in range(n)]
    if h.symbolic:
        om = mm(_omega(h, n), V)

        def ev(M):
            h.eq("spectrum of Omega V", M, arr(h, om))
            out = []
            for x in nu:
                out += [h.I * x, -h.I * x]
            return h.array(out, ld="complex", shape=(N,))

        h.contract(eigvals=ev)
    else:
        W = [[(x * 0.1 if i != j else 1 + abs(x)) for j, x in enumerate(r)] for i, r in enumerate(V)]
        V = W
        nu = sorted(abs(x) for x in h.np.linalg.eigvals(h.np.array(mm(_omega(h, n), V), dtype=float)))[::2]
    r = t.symplectic_eigenvals(arr(h, V))
    got = [h.num(0) + x for x in h.lst(r)]
    h.true("count", len(got) == n)
    for q in range(1, n + 1):
        h.eq("spectrum %d" % q, _esym(h, got, q), _esym(h, nu, q))
    for i, x in enumerate(got):
        h.true("positive %d" % i, h.re(x) > 0)


for n in (1, 2, 3):
    case("C16", "symplectic-eigenvals-%d" % n, n, bounds="%d modes, every covariance" % n)(_sev)


# ---------------------------------------------------------------- symplectic factorizations
def _bm(h, n, kind):
    """S = P V; takagi in its place: every Takagi basis of the family, degenerate ones mixed"""
    t = h.mod(MOD)
    W = unitary(h, "w", n, False, n == 1)
    d = [h.real("d%d" % i, 1, 4) for i in range(n)]
    if kind == "equal":
        d[1] = d[0]
    if kind == "passive":
        d = [h.num(1)] * n
    if kind == "half":
        d[n - 1] = h.num(1)
    O = _real(h, W)
    D = _diag(h, d + [1 / x for x in d])
    Pm = mm(O, D, tr(O))
    U = unitary(h, "u", n, False, n == 1)
    Vm = _real(h, U)
    S = mm(Pm, Vm)
    R = [[h.num(1) if i == j else h.num(0) for j in range(n)] for i in range(n)]
    if kind == "equal":
        R = unitary(h, "r", n, True, "rot")
    elif kind == "passive":
        R = unitary(h, "r", n, False, False)
    elif kind == "half":
        R[n - 1][n - 1] = _phase(h, "rp", False)
    W2 = mm(W, R)
    lam = [x - 1 / x for x in d]
    _contract(h, "polar", arr(h, S), (arr(h, Vm), arr(h, Pm)))

    def tk(orig, M, *a, **k):
        if not h.symbolic:
            return orig(M, *a, **k)
        h.eq("Takagi form of", M, arr(h, mm(W, _diag(h, lam), tr(W)), "complex"))
        return h.array(lam, shape=(n,)), arr(h, W2, "complex")

    h.wrap(MOD, "takagi", tk)
    Oo, Dd, Q = t.blochmessiah(arr(h, S))
    Oo, Dd, Q = _rows(Oo), _rows(Dd), _rows(Q)
    h.eq("O D Q", arr(h, mm(Oo, Dd, Q)), arr(h, S))
    om = _omega(h, n)
    for nm, X in (("O", Oo), ("Q", Q)):
        h.eq(nm + " orthogonal", arr(h, mm(X, tr(X))), eye(h, 2 * n))
        h.eq(nm + " symplectic", arr(h, mm(X, om, tr(X))), arr(h, om))
    off = [Dd[i][j] for i in range(2 * n) for j in range(2 * n) if i != j]
    h.eq("D diagonal", h.array(off, shape=(len(off),)), h.array([h.num(0)] * len(off), shape=(len(off),)))
    for i in range(n):
        h.true("D positive %d" % i, h.re(Dd[i][i]) > 0)
        h.eq("D inverse pairs %d" % i, Dd[i][i] * Dd[i + n][i + n], h.num(1))


for n, k in ((1, "all"), (1, "passive"), (2, "distinct"), (2, "equal"), (2, "half"), (2, "passive"), (3, "distinct")):
    case("C16", "blochmessiah-%d-%s" % (n, k), n, k, bounds="%d modes, every squeezing, %s, %s" % (n, "every passive factor" if n == 1 else "a family of passive factors", k), opts=dict(weight=n))(_bm)


def _shear(h, n):
    X = [[None] * n for _ in range(n)]
    A = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            X[i][j] = X[j][i] = h.real("x%d%d" % (i, j), -2, 2)
            A[i][j] = A[j][i] = h.real("a%d%d" % (i, j), Fraction(1, 2), 2) + (2 if n > 1 else 0) if i == j else h.real("a%d%d" % (i, j), Fraction(-1, 2), Fraction(1, 2))
    return X, A


def _inv(A):
    n = len(A)
    if n == 1:
        return [[1 / A[0][0]]]
    d = det(A)
    mi = lambda a, b: det([[A[x][y] for y in range(n) if y != b] for x in range(n) if x != a])
    return [[(-1) ** (a + b) * mi(b, a) / d for b in range(n)] for a in range(n)]


def _blk(h, A, B, C, D):
    return [list(p) + list(q) for p, q in zip(A, B)] + [list(p) + list(q) for p, q in zip(C, D)]


def _prod(r, n):
    p = r[0][0]
    for i in range(1, n - 1):
        p = p * r[i][i]
    return p


def _iw(h, n, full):
    t = h.mod(MOD)
    X, A0 = _shear(h, n)
    if n == 2 and full:
        # the first column in polar form: no square roots in its QR decomposition
        p, u = h.real("p", Fraction(1, 2), 4), h.real("u", Fraction(-3, 4), Fraction(3, 4))
        c, s = (1 - u * u) / (1 + u * u), 2 * u / (1 + u * u)
        A0 = [[p * c, p * s], [p * s, p * s * s / c + h.real("w", Fraction(1, 4), 4)]]
    F = _real(h, unitary(h, "f", n, False, n == 1))
    Z, One = [[h.num(0)] * n for _ in range(n)], _diag(h, [h.num(1)] * n)
    Ai = _inv(A0)
    E, D = _blk(h, One, Z, X, One), _blk(h, A0, Z, Z, Ai)
    S = mm(E, D, F)
    _contract(h, "sqrtm", arr(h, mm(A0, A0)), arr(h, A0))
    if not full:
        e, d, f = t.pre_iwasawa(arr(h, S))
        h.eq("E", e, arr(h, E))
        h.eq("D", d, arr(h, D))
        h.eq("F", f, arr(h, F))
        return
    # A0 = q r with every sign convention
    r = [[h.num(0)] * n for _ in range(n)]
    G = mm(A0, A0)
    for j in range(n):
        for i in range(j + 1):
            s = G[i][j] - sum(r[k][i] * r[k][j] for k in range(i))
            r[i][j] = (p if n == 2 and i == 0 else h.sqrt(s) if n == 1 or i < n - 1 else det(A0) / _prod(r, n)) if i == j else s / r[i][i]
    sg = [h.choice("sg%d" % i, [1, -1]) for i in range(n)]
    r = [[sg[i] * x for x in r[i]] for i in range(n)]
    ri = [[h.num(0)] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, -1, -1):
            ri[i][j] = ((1 if i == j else 0) - sum(r[i][k] * ri[k][j] for k in range(i + 1, j + 1))) / r[i][i]
    q = mm(A0, ri)
    _contract(h, "qr", arr(h, A0), (arr(h, q), arr(h, r)))
    EE, DD, FF = (_rows(x) for x in t.iwasawa(arr(h, S)))
    h.eq("E D F", arr(h, mm(EE, DD, FF)), arr(h, S))
    om = _omega(h, n)
    N = 2 * n
    for nm, M in (("E", EE), ("D", DD), ("F", FF)):
        h.eq(nm + " symplectic", arr(h, mm(M, om, tr(M))), arr(h, om))
    h.eq("F orthogonal", arr(h, mm(FF, tr(FF))), eye(h, N))
    z = [DD[i][j] for i in range(N) for j in range(N) if i != j]
    z += [EE[i][j + n] for i in range(n) for j in range(n)] + [EE[i][j] for i in range(n) for j in range(i + 1, n)]
    h.eq("D diagonal, E block triangular, its first block triangular", h.array(z, shape=(len(z),)), h.array([h.num(0)] * len(z), shape=(len(z),)))
    h.eq("unit diagonal", h.array([EE[i][i] for i in range(N)], shape=(N,)), h.array([h.num(1)] * N, shape=(N,)))
    for i in range(N):
        h.true("D positive %d" % i, h.re(DD[i][i]) > 0)


for n, fu, t in ((1, False, "quick"), (2, False, "quick"), (3, False, "quick"), (1, True, "quick"), (2, True, "quick"), (3, True, "thorough")):
    case("C16", "%s-%d" % ("iwasawa" if fu else "pre-iwasawa", n), n, fu, tier=t, bounds="%d modes, every shear, every positive definite block of the family, %s" % (n, "every passive factor" if n == 1 else "a passive factor"), opts=dict(weight=2 * n))(_iw)


def _reject(h):
    t = h.mod(MOD)
    f = h.choice("f", ["blochmessiah", "pre_iwasawa", "iwasawa", "takagi"])
    x = h.real("x", Fraction(11, 10), 3)
    y = h.real("y", Fraction(11, 10), 3)
    z = h.num(0)
    if f == "takagi":
        h.raises("not square", lambda: t.takagi(arr(h, [[x, z, y]])), ValueError)
        return
    h.raises("not symplectic", lambda: getattr(t, f)(arr(h, [[x, z], [z, y]])), ValueError)
    h.raises("odd", lambda: getattr(t, f)(arr(h, _diag(h, [x, y, h.num(1)]))), ValueError)


case("C16", "rejects", bounds="matrices that are not symplectic or not square")(_reject)
