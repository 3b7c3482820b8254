"""Photon-number statistics equal the operator moments of the Gaussian state.

Symbolic inputs: means, covariance entries, hbar, the ordering parameter s; modes, powers and repetition vectors are symbolic choices.
Oracles: moments of the Wigner function for means and covariances (n = (x^2+p^2)/(2 hbar) - 1/2, the symbol of n^2 is that square minus
1/4); normally and s-ordered moments by Stein's recursion E[z_i f] = m_i E[f] + sum_j C_ij E[d_j f] on the amplitudes; powers of n by Stirling
numbers; cumulants by the moment-cumulant recursion.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality
- thewalrus.charpoly.powertrace replaced by its contract tr(A^k) (decided by C09)
- mode numbers and orders bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .common import contract_powertrace
from .oracles import rows


def stein(C, m):
    """moments E[prod z_i^k_i] of a (complex) Gaussian with covariance C and means m"""
    memo = {}

    def E(k):
        if not any(k):
            return 1
        if k in memo:
            return memo[k]
        i = next(q for q, x in enumerate(k) if x)
        r = list(k)
        r[i] -= 1
        t = m[i] * E(tuple(r))
        for j, x in enumerate(r):
            if x:
                q = list(r)
                q[j] -= 1
                t = t + x * C[i][j] * E(tuple(q))
        memo[k] = t
        return t

    return E


def amp_moments(h, mu, V, n, hbar, s):
    """s-ordered moments of (a_1^dagger.., a_1..) in that order of indices"""
    def C(i, j):
        # operators as linear forms in quadratures: a = (x+ip)/sqrt(2 hbar)
        si, sj = (-1 if i < n else 1), (-1 if j < n else 1)
        a, b = i % n, j % n
        t = (V[a][b] - si * sj * V[a + n][b + n] + h.I * (sj * V[a][b + n] + si * V[a + n][b])) / (2 * hbar)
        if a == b and si != sj:
            t = t - s / h.num(2)
        return t

    N = 2 * n
    q = h.sqrt(2 * hbar)
    m = [(mu[i % n] + (-1 if i < n else 1) * h.I * mu[i % n + n]) / q for i in range(N)]
    return stein([[C(i, j) for j in range(N)] for i in range(N)], m)


def stirling2(m, k):
    if m == k:
        return 1
    if k == 0 or k > m:
        return 0
    return k * stirling2(m - 1, k) + stirling2(m - 1, k - 1)


def n_moment(E, n, powers):
    """E[prod n_i^m_i]"""
    t = 0
    for ks in product(*[range(m + 1) for m in powers]):
        c = 1
        for m, k in zip(powers, ks):
            c *= stirling2(m, k)
        if c:
            t = t + c * E(tuple(ks) + tuple(ks))
    return t


def cumulant(mom, xs):
    """joint cumulant of the list xs (moments mom(list))"""
    memo = {}

    def K(t):
        if t not in memo:
            r = mom(t)
            rest = t[1:]
            for mask in range(1 << len(rest)):
                S = (t[0],) + tuple(x for i, x in enumerate(rest) if mask >> i & 1)
                if len(S) < len(t):
                    r = r - K(S) * mom(tuple(x for i, x in enumerate(rest) if not mask >> i & 1))
            memo[t] = r
        return memo[t]

    return K(tuple(xs))


def state(h, n, kind, disp, hbar):
    N = 2 * n
    if kind == "all":
        V = rows(h.symmetric("v", N))
        mu = [h.real("m%d" % i) for i in range(N)] if disp else [h.num(0)] * N
    elif kind == "plane":
        V = rows(h.line_symmetric("v", N, 7, nv=2))
        t = h.real("u")
        mu = [(i * 2 % 5 - 1) + (3 * i % 4 - 1) * t for i in range(N)] if disp else [h.num(0)] * N
    else:
        V = rows(h.line_symmetric("v", N, 5))
        mu = [V[i][(i + 1) % N] - 2 * i + 1 for i in range(N)] if disp else [h.num(0)] * N
    return mu, V


def _arr(h, mu, V):
    N = len(mu)
    return h.array(mu, shape=(N,)), h.array(V, shape=(N, N))


def _basic(h, n, disp):
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    mu, V = state(h, n, "all", disp, hbar)
    m, C = _arr(h, mu, V)
    W = stein(V, mu)

    def w(*ks):  # Wigner expectation of prod w_k, w_k = (x_k^2+p_k^2)/(2 hbar)
        t = 0
        for c in product((0, 1), repeat=len(ks)):
            e = [0] * (2 * n)
            for k, x in zip(ks, c):
                e[k + x * n] += 2
            t = t + W(tuple(e))
        return t / (2 * hbar) ** len(ks)

    h.eq("mean vector", q.photon_number_mean_vector(m, C, hbar=hbar), h.array([w(k) - h.num(1) / 2 for k in range(n)], shape=(n,)))
    want = [[w(i, j) - w(i) * w(j) - (h.num(1) / 4 if i == j else 0) for j in range(n)] for i in range(n)]
    h.eq("covmat", q.photon_number_covmat(m, C, hbar=hbar), h.array(want, shape=(n, n)))
    i = h.choice("i", list(range(n)))
    j = h.choice("j", list(range(n)))
    h.eq("covar", q.photon_number_covar(m, C, i, j, hbar=hbar), want[i][j])
    h.eq("mean", q.photon_number_mean(m, C, i, hbar=hbar), w(i) - h.num(1) / 2)
    if n == 1:
        e, v = h.mod("thewalrus.symplectic").mean_photon_number(m, C, hbar=hbar)
        h.eq("mean_photon_number", e, w(0) - h.num(1) / 2)
        h.eq("mean_photon_number variance", v, want[0][0])
    two = [[2 * x / hbar for x in r] for r in V]
    s = h.sqrt(2 / hbar)
    m2, C2 = _arr(h, [s * x for x in mu], two)
    h.eq("default hbar covmat", q.photon_number_covmat(m2, C2), h.array(want, shape=(n, n)))
    h.eq("default hbar mean", q.photon_number_mean_vector(m2, C2), h.array([w(k) - h.num(1) / 2 for k in range(n)], shape=(n,)))


for n in (1, 2, 3):
    for d in (False, True):
        case("C17", "basic-%d%s" % (n, "-disp" if d else ""), n, d, bounds="%d modes, every mean and covariance, hbar" % n)(_basic)


def _sord(h, n, kind, disp, total):
    contract_powertrace(h)
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    mu, V = state(h, n, kind, disp, hbar)
    rpt = h.choice("rpt", [r for r in product(range(total + 1), repeat=2 * n) if sum(r) <= total])
    m, C = _arr(h, mu, V)
    which = h.choice("function", ["s", "normal"])
    if which == "s":
        s = h.real("s")
        f = q.means_and_variances.s_ordered_expectation if hasattr(q, "means_and_variances") else h.mod("thewalrus.quantum.means_and_variances").s_ordered_expectation
        got = f(m, C, list(rpt), hbar=hbar, s=s)
    else:
        s = h.num(1)
        got = h.mod("thewalrus.quantum").normal_ordered_expectation(m, C, list(rpt), hbar=hbar)
    h.eq(which + "-ordered", got, amp_moments(h, mu, V, n, hbar, s)(tuple(rpt)))


for d in (False, True):
    t = "-disp" if d else ""
    case("C17", "ordered-1-all" + t, 1, "all", d, 3 if d else 4, bounds="1 mode, every state, order <= %d" % (3 if d else 4), opts=dict(weight=3))(_sord)
    case("C17", "ordered-1-line" + t, 1, "line", d, 6, bounds="1 mode, generic line, order <= 6", opts=dict(weight=3))(_sord)
    case("C17", "ordered-2-all" + t, 2, "all", d, 2, bounds="2 modes, every state, order <= 2", opts=dict(weight=3))(_sord)
    case("C17", "ordered-2-line" + t, 2, "line", d, 4, bounds="2 modes, generic line, order <= 4", opts=dict(weight=9))(_sord)
    case("C17", "ordered-3-line" + t, 3, "line", d, 3, tier="thorough", bounds="3 modes, generic line, order <= 3", opts=dict(weight=9))(_sord)
    case("C17", "ordered-2-line-6" + t, 2, "line", d, 6, tier="thorough", bounds="2 modes, generic line, order <= 6", opts=dict(weight=9))(_sord)


def _prod(h, n, kind, disp, kmax):
    """expectation of products of n_i and of their squares"""
    contract_powertrace(h)
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    mu, V = state(h, n, kind, disp, hbar)
    m, C = _arr(h, mu, V)
    E = amp_moments(h, mu, V, n, hbar, h.num(1))
    from itertools import permutations

    modes = h.choice("modes", [list(p) for k in range(1, n + 1) for p in permutations(range(n), k)])
    h.eq("product", q.photon_number_expectation(m, C, modes, hbar=hbar), n_moment(E, n, [1 if i in modes else 0 for i in range(n)]))
    if len(modes) <= kmax:
        h.eq("squares", q.photon_number_squared_expectation(m, C, modes, hbar=hbar), n_moment(E, n, [2 if i in modes else 0 for i in range(n)]))


for d in (False, True):
    t = "-disp" if d else ""
    case("C17", "product-1-all" + t, 1, "all", d, 1, bounds="1 mode, every state")(_prod)
    case("C17", "product-2-all" + t, 2, "all", d, 0, bounds="2 modes, every state, <n_i>, <n_1 n_2>", opts=dict(weight=3))(_prod)
    case("C17", "product-2-line" + t, 2, "line", d, 2, bounds="2 modes, generic line, every ordered mode list", opts=dict(weight=6))(_prod)
    case("C17", "product-3-line" + t, 3, "line", d, 1, bounds="3 modes, generic line, every ordered mode list", opts=dict(weight=6))(_prod)


def _mom(h, n, kind, disp, total):
    contract_powertrace(h)
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    mu, V = state(h, n, kind, disp, hbar)
    m, C = _arr(h, mu, V)
    E = amp_moments(h, mu, V, n, hbar, h.num(1))
    opts = []
    for r in product(range(total + 1), repeat=n):
        if 0 < sum(r) <= total:
            opts.append({i: x for i, x in enumerate(r) if x})
            opts.append({i: r[i] for i in reversed(range(n))})
    ind = h.choice("indices", opts)
    h.eq("moment", q.photon_number_moment(m, C, dict(ind), hbar=hbar), n_moment(E, n, [ind.get(i, 0) for i in range(n)]))


def _cum(h, n, kind, disp, total):
    contract_powertrace(h)
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    mu, V = state(h, n, kind, disp, hbar)
    m, C = _arr(h, mu, V)
    E = amp_moments(h, mu, V, n, hbar, h.num(1))
    modes = h.choice("modes", [list(r) for k in range(1, total + 1) for r in product(range(n), repeat=k)])
    how = h.choice("type", ["list", "array"])
    got = q.photon_number_cumulant(m, C, modes if how == "list" else h.np.array(modes), hbar=hbar)
    h.eq("cumulant", got, cumulant(lambda t: n_moment(E, n, [t.count(i) for i in range(n)]), modes))


for d in (False, True):
    t = "-disp" if d else ""
    case("C17", "moment-1-line" + t, 1, "line", d, 3, bounds="1 mode, generic line, power <= 3", opts=dict(weight=4))(_mom)
    case("C17", "moment-1-all" + t, 1, "all", d, 2, bounds="1 mode, every state, power <= 2", opts=dict(weight=4))(_mom)
    case("C17", "moment-2-line" + t, 2, "line", d, 2 if d else 3, bounds="2 modes, generic line, total power <= %d" % (2 if d else 3), opts=dict(weight=8))(_mom)
    case("C17", "moment-3-line" + t, 3, "line", d, 3, tier="thorough", bounds="3 modes, generic line, total power <= 3", opts=dict(weight=8))(_mom)
    case("C17", "cumulant-1-line" + t, 1, "line", d, 3, bounds="1 mode, generic line, order <= 3", opts=dict(weight=4))(_cum)
    case("C17", "cumulant-2-line" + t, 2, "line", d, 2, bounds="2 modes, generic line, order <= 2", opts=dict(weight=8))(_cum)
    case("C17", "cumulant-3-line" + t, 3, "line", d, 3, tier="thorough", bounds="3 modes, generic line, order <= 3", opts=dict(weight=8))(_cum)
