"""Symplectic gates, embeddings, orderings and Gaussian channels.

Symbolic inputs: all gate parameters (angles, squeezings), symplectic matrices, transmission matrices, states, hbar; the mode lists are
symbolic choices.
Oracles: the Heisenberg action on annihilation operators (complex Bogoliubov matrices E, F: a -> E a + F a^dagger) turned into
quadratures by explicit sums; for channels, the moments <a_i^dagger a_j>, <a_i a_j> or explicit mixing with an environment mode on a
beam splitter.
Assumptions:
- exact arithmetic; cos/sin/cosh/sinh obey their polynomial identities
- mode numbers bounded as listed per case; scipy sparse arrays are modelled as dense ones that carry their format
"""
from itertools import permutations

from engine.harness import case
from .c12 import _husimi
from .oracles import rows


def _mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def _t(A):
    return [list(r) for r in zip(*A)]


def _quad(h, E, F):
    """xxpp matrix of a -> E a + F a^dagger"""
    n = len(E)
    S = [[0] * (2 * n) for _ in range(2 * n)]
    for i in range(n):
        for j in range(n):
            u, v = E[i][j], F[i][j]
            S[i][j] = h.re(u) + h.re(v)
            S[i][j + n] = -h.im(u) + h.im(v)
            S[i + n][j] = h.im(u) + h.im(v)
            S[i + n][j + n] = h.re(u) - h.re(v)
    return S


def _omega(n):
    return [[(1 if j == i + n else -1 if i == j + n else 0) for j in range(2 * n)] for i in range(2 * n)]


def _is_sympl(h, label, S):
    R = rows(S)
    n = len(R) // 2
    om = _omega(n)
    h.eq(label + " symplectic", h.array(_mm(_mm(_t(R), om), R), shape=(2 * n, 2 * n)), h.array(om, shape=(2 * n, 2 * n)))


def _eqm(h, label, got, want):
    h.eq(label, got, h.array(want, shape=(len(want), len(want[0]))))


def _eith(h, x):
    return h.cos(x) + h.I * h.sin(x)


def _gate(h, name):
    s = h.mod("thewalrus.symplectic")
    r, phi = h.real("r"), h.real("phi")
    z = h.num(0)
    if name in ("squeezing", "squeezing0"):
        S = s.squeezing(r, phi) if name == "squeezing" else s.squeezing(r)
        E, F = [[h.cosh(r)]], [[-_eith(h, phi) * h.sinh(r) if name == "squeezing" else -h.sinh(r)]]
    elif name == "squeezing-array":
        m = h.choice("m", [1, 2, 3])
        rs = [h.real("r%d" % i) for i in range(m)]
        ps = [h.real("p%d" % i) for i in range(m)]
        how = h.choice("angle", ["given", "none"])
        ra = h.array(rs, shape=(m,))
        S = s.squeezing(ra, h.array(ps, shape=(m,))) if how == "given" else s.squeezing(ra)
        E = [[h.cosh(rs[i]) if i == j else z for j in range(m)] for i in range(m)]
        F = [[(-h.sinh(rs[i]) * (_eith(h, ps[i]) if how == "given" else 1)) if i == j else z for j in range(m)] for i in range(m)]
    elif name == "two_mode_squeezing":
        S = s.two_mode_squeezing(r, phi)
        c, d = h.cosh(r), _eith(h, phi) * h.sinh(r)
        E, F = [[c, z], [z, c]], [[z, d], [d, z]]
    elif name == "beam_splitter":
        S = s.beam_splitter(r, phi)
        c, d = h.cos(r), _eith(h, phi) * h.sin(r)
        E, F = [[c, -h.conj(d)], [d, c]], [[z, z], [z, z]]
    elif name == "rotation":
        S = s.rotation(r)
        E, F = [[_eith(h, r)]], [[z]]
    _eqm(h, name, S, _quad(h, E, F))
    _is_sympl(h, name, S)


for g in ("squeezing", "squeezing0", "squeezing-array", "two_mode_squeezing", "beam_splitter", "rotation"):
    case("C15", g, g, bounds="every parameter value" + (", 1..3 modes" if "array" in g else ""))(_gate)


def _unitary(h, n):
    """unitaries: U(1), all of U(2); for n = 3 products of two-mode rotations and phases"""
    def ph(k):
        return _eith(h, h.real("ph%d" % k))

    U = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    k = 0
    for a in range(n):
        for b in range(a + 1, n):
            t = h.real("th%d" % k)
            e = ph(k)
            k += 1
            G = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
            G[a][a], G[a][b], G[b][a], G[b][b] = h.cos(t), -h.conj(e) * h.sin(t), e * h.sin(t), h.cos(t)
            U = _mm(G, U)
    for i in range(n):
        e = ph(10 + i)
        U[i] = [e * x for x in U[i]]
    return U


def _interf(h, n):
    s = h.mod("thewalrus.symplectic")
    U = [[h.cplx("u%d%d" % (i, j)) for j in range(n)] for i in range(n)]
    z = [[0] * n for _ in range(n)]
    _eqm(h, "interferometer", s.interferometer(h.array(U, ld="complex", shape=(n, n))), _quad(h, U, z))
    if n <= 2:
        U = _unitary(h, n)
        _is_sympl(h, "interferometer", s.interferometer(h.array(U, ld="complex", shape=(n, n))))


for n in (1, 2, 3):
    case("C15", "interferometer-%d" % n, n, bounds="%d modes, every complex matrix; symplectic for all of U(%d)%s" % (n, n, "" if n < 3 else " (not checked)"))(_interf)


def _state(h, n):
    mu = [h.real("m%d" % i) for i in range(2 * n)]
    V = rows(h.symmetric("v", 2 * n))
    return mu, V


def _passive(h, m, n):
    s = h.mod("thewalrus.symplectic")
    hbar = h.pos("hbar")
    mu, V = _state(h, n)
    T = [[h.cplx("t%d%d" % (i, j)) for j in range(n)] for i in range(m)]
    m2, C2 = s.passive_transformation(h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n)), h.array(T, ld="complex", shape=(m, n)), hbar=hbar)
    al = [mu[k] + h.I * mu[k + n] for k in range(n)]
    b = [sum(T[i][k] * al[k] for k in range(n)) for i in range(m)]
    h.eq("means", m2, h.array([h.re(x) for x in b] + [h.im(x) for x in b], shape=(2 * m,)))
    Q = _husimi(h, V, n, hbar)
    Q2 = _husimi(h, rows(C2), m, hbar)
    for i in range(m):
        for j in range(m):
            d = 1 if i == j else 0
            num = sum(h.conj(T[i][k]) * T[j][l] * (Q[k][l] - (1 if k == l else 0)) for k in range(n) for l in range(n))
            h.eq("<a+_%d a_%d>" % (i, j), Q2[i][j] - d, num)
            an = sum(T[i][k] * T[j][l] * Q[k + n][l] for k in range(n) for l in range(n))
            h.eq("<a_%d a_%d>" % (i, j), Q2[i + m][j], an)
    R = rows(C2)
    _eqm(h, "symmetric", C2, _t(R))
    if h.choice("default", [False, True]):
        V2 = [[2 * x / hbar for x in r] for r in V]
        q, D2 = s.passive_transformation(h.array(mu, shape=(2 * n,)), h.array(V2, shape=(2 * n, 2 * n)), h.array(T, ld="complex", shape=(m, n)))
        h.eq("default hbar", D2, h.array([[2 * x / hbar for x in r] for r in R], shape=(2 * m, 2 * m)))


for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
    case("C15", "passive-%dx%d" % (m, n), m, n, bounds="every %dx%d transmission matrix, state and hbar" % (m, n), opts=dict(weight=m * n))(_passive)
for m, n in ((3, 2), (2, 3)):
    case("C15", "passive-%dx%d" % (m, n), m, n, tier="thorough", bounds="every %dx%d transmission matrix, state and hbar" % (m, n), opts=dict(weight=20))(_passive)


def _loss(h, n, nb):
    s = h.mod("thewalrus.symplectic")
    hbar = h.pos("hbar")
    mu, V = _state(h, n)
    k = h.choice("mode", list(range(n)))
    c = h.pos("tau", lo=0, hi=1)
    T = c * c
    d = h.sqrt(1 - T)
    nbar = h.real("nbar") if nb else h.num(0)
    m0, V0 = h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n))
    kw = dict(nbar=nbar) if nb else {}
    m2, C2 = s.loss(m0, V0, T, k, hbar=hbar, **kw)
    # beam splitter with an environment mode (index n), environment traced out
    N = n + 1
    W = [[0] * (2 * N) for _ in range(2 * N)]
    for i in range(n):
        for j in range(n):
            for a in (0, 1):
                for b in (0, 1):
                    W[i + a * N][j + b * N] = V[i + a * n][j + b * n]
    W[n][n] = W[n + N][n + N] = (2 * nbar + 1) * hbar / 2
    B = [[1 if i == j else 0 for j in range(2 * N)] for i in range(2 * N)]
    for o in (0, N):
        B[k + o][k + o] = B[n + o][n + o] = c
        B[k + o][n + o], B[n + o][k + o] = d, -d
    W = _mm(_mm(B, W), _t(B))
    idx = list(range(n)) + [i + N for i in range(n)]
    _eqm(h, "loss cov", C2, [[W[i][j] for j in idx] for i in idx])
    h.eq("loss mu", m2, h.array([x * (c if i % n == k else 1) for i, x in enumerate(mu)], shape=(2 * n,)))
    _eqm(h, "input kept", V0, V)
    h.eq("input mu kept", m0, h.array(mu, shape=(2 * n,)))


for n in (1, 2, 3):
    for nb in (False, True):
        case("C15", "loss-%d%s" % (n, "-thermal" if nb else ""), n, nb, bounds="%d modes, every mode, transmission, state, hbar" % n)(_loss)


def _expand(h, m, N, flat, kind=None):
    s = h.mod("thewalrus.symplectic")
    S = [[h.real("s%d_%d" % (i, j), kind="gen") for j in range(2 * m)] for i in range(2 * m)]
    if flat:
        modes = h.choice("mode", list(range(N)))
        w = [modes]
    elif m == 1:
        modes = w = h.choice("modes", [list(p) for k in range(1, N + 1) for p in permutations(range(N), k)])
    else:
        modes = w = h.choice("modes", [list(p) for p in permutations(range(N), m)])
    A = h.array(S, shape=(2 * m, 2 * m))
    if kind:
        k = h.choice("format", kind)
        A = h.sparse(h.array(S, ld="float", shape=(2 * m, 2 * m)), k)
    got = s.expand(A, modes, N)
    got, A = h.dense(got), h.dense(A)
    want = [[1 if i == j else 0 for j in range(2 * N)] for i in range(2 * N)]
    blocks = [[x] for x in w] if m == 1 else [w]
    for b in blocks:
        ix = list(b) + [x + N for x in b]
        for i, I in enumerate(ix):
            for j, J in enumerate(ix):
                want[I][J] = S[i][j]
    _eqm(h, "expand", got, want)
    _eqm(h, "input kept", A, S)


for m, N in ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3), (2, 4)):
    case("C15", "expand-%d-%d" % (m, N), m, N, False, bounds="every %d-mode matrix on every ordered mode list of %d modes" % (m, N))(_expand)
for m, N in ((1, 1), (1, 3), (2, 2), (2, 3)):
    case("C15", "expand-sparse-%d-%d" % (m, N), m, N, False, ["csr", "coo", "dia", "bsr", "csc", "lil"][:6 if m == 1 else 4],
         bounds="every %d-mode matrix in the scipy sparse formats on every ordered mode list of %d modes" % (m, N))(_expand)
case("C15", "expand-sparse-int", 1, 3, True, ["csr", "coo"], bounds="one-mode sparse matrix on an integer mode of 3")(_expand)
case("C15", "expand-int", 1, 3, True, bounds="one-mode matrix on an integer mode of 3")(_expand)


def _vec(h):
    s = h.mod("thewalrus.symplectic")
    N = h.choice("N", [1, 2, 3])
    k = h.choice("mode", list(range(N)))
    hbar = h.pos("hbar")
    kind = h.choice("alpha", ["int", "complex"])
    if kind == "int":
        al = h.choice("value", [1, 3, -2])
        re, im = al, 0
    else:
        al = h.cplx("al")
        re, im = h.re(al), h.im(al)
    got = s.expand_vector(al, k, N, hbar)
    q = h.sqrt(2 * hbar)
    want = [0] * (2 * N)
    want[k], want[k + N] = q * re, q * im
    h.eq("expand_vector", got, h.array(want, shape=(2 * N,)))
    m, V = s.vacuum_state(N, hbar=hbar)
    h.eq("vacuum mu", m, h.array([0] * (2 * N), shape=(2 * N,)))
    _eqm(h, "vacuum cov", V, [[hbar / 2 if i == j else 0 for j in range(2 * N)] for i in range(2 * N)])
    _eqm(h, "sympmat", s.sympmat(N), _omega(N))


case("C15", "vectors", bounds="1..3 modes, every displacement, hbar")(_vec)


def _epass(h):
    s = h.mod("thewalrus.symplectic")
    N = h.choice("N", [1, 2, 3])
    w = h.choice("modes", [list(p) for k in range(1, N + 1) for p in permutations(range(N), k)])
    m = len(w)
    T = [[h.cplx("t%d%d" % (i, j)) for j in range(m)] for i in range(m)]
    got = s.expand_passive(h.array(T, ld="complex", shape=(m, m)), w, N)
    want = [[1 if i == j else 0 for j in range(N)] for i in range(N)]
    for i, I in enumerate(w):
        for j, J in enumerate(w):
            want[I][J] = T[i][j]
    _eqm(h, "expand_passive", got, want)
    bad = h.choice("bad", ["rect", "len"])
    if bad == "rect":
        h.raises("not square", lambda: s.expand_passive(h.array([r + [0] for r in T], ld="complex", shape=(m, m + 1)), w, N), ValueError)
    else:
        h.raises("length", lambda: s.expand_passive(h.array(T, ld="complex", shape=(m, m)), w + [0], N), ValueError)


case("C15", "expand_passive", bounds="1..3 modes, every matrix and ordered mode list")(_epass)


def _order(h):
    s = h.mod("thewalrus.symplectic")
    n = h.choice("n", [1, 2, 3, 4])
    N = 2 * n
    S = [[h.real("s%d_%d" % (i, j), kind="gen") for j in range(N)] for i in range(N)]
    v = [h.real("v%d" % i, kind="gen") for i in range(N)]
    A, a = h.array(S, shape=(N, N)), h.array(v, shape=(N,))
    p = [i // 2 + (i % 2) * n for i in range(N)]  # xpxp position i holds xxpp index p[i]
    B, b = s.xxpp_to_xpxp(A), s.xxpp_to_xpxp(a)
    _eqm(h, "xxpp_to_xpxp", B, [[S[p[i]][p[j]] for j in range(N)] for i in range(N)])
    h.eq("xxpp_to_xpxp vector", b, h.array([v[k] for k in p], shape=(N,)))
    _eqm(h, "back", s.xpxp_to_xxpp(B), S)
    h.eq("back vector", s.xpxp_to_xxpp(b), a)
    f = h.choice("f", ["xxpp_to_xpxp", "xpxp_to_xxpp"])
    h.raises("odd", lambda: getattr(s, f)(h.array(v[:N - 1], shape=(N - 1,))), ValueError)
    h.raises("odd matrix", lambda: getattr(s, f)(h.array([r[:N - 1] for r in S[:N - 1]], shape=(N - 1, N - 1))), ValueError)
    h.raises("not square", lambda: getattr(s, f)(h.array([r + [0] for r in S], shape=(N, N + 1))), ValueError)


case("C15", "orderings", bounds="1..4 modes, every matrix and vector")(_order)
