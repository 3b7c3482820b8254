"""The hafnian sampler draws from the state's photon-number distribution.

Symbolic inputs: the means, hbar, the outcomes of every internal random draw (normal variates and the outcome of every conditional
choice), the squeezing and temperatures; the order in which modes are measured is arbitrary.
Decided step by step of the chain rule: (a) the mixture over pure states has the state's covariance, (b) the heterodyne outcome of the pure
state has its Husimi law, (c) every conditional distribution handed to the random generator is that of the mode's photon number given the
photon numbers before it and the heterodyne outcomes after it, from the generating function of the pure state, (d) the returned pattern
is the drawn one in the order of the caller's modes, (e) rejection happens exactly as documented and does not touch accepted samples.
Assumptions:
- exact arithmetic; numpy.random draws what its documentation says
- thewalrus.decompositions.williamson returns a Williamson decomposition (decided by C16), numpy.linalg.cholesky a Cholesky factor
- thermal parts either exactly 0 or above the code's cut of 1e-10; mode numbers, cutoffs and families as listed per case
"""
from fractions import Fraction
from itertools import permutations

from engine.harness import case
from .gauss import add_diag, bargmann
from .oracles import expand_reps, fact, haf, rows


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(c) for c in zip(*A)]


def gates(h, n, kind):
    """a symplectic matrix (rows) in xxpp order"""
    N = 2 * n
    I = [[h.num(1) if i == j else h.num(0) for j in range(N)] for i in range(N)]
    if n == 1 and kind == "all":
        a, b, c = h.pos("sa"), h.real("sb"), h.real("sc")
        return [[a, b], [c, (1 + b * c) / a]]
    q = [Fraction(1, 2), Fraction(3, 2), Fraction(4, 3)]

    def sq(S):
        R = [list(r) for r in S]
        for k in range(n):
            e = h.num(q[k]) if kind != "sq" else h.real("e%d" % k, Fraction(1, 4), 4)
            R[k] = [e * x for x in R[k]]
            R[k + n] = [x / e for x in R[k + n]]
        return R

    def bs(S, i, j, c, s):
        R = [list(r) for r in S]
        c, s = h.num(Fraction(*c)), h.num(Fraction(*s))
        for o in (0, n):
            R[i + o] = [c * x - s * y for x, y in zip(S[i + o], S[j + o])]
            R[j + o] = [s * x + c * y for x, y in zip(S[i + o], S[j + o])]
        return R

    def ph(S, i, c, s):
        R = [list(r) for r in S]
        c, s = h.num(Fraction(*c)), h.num(Fraction(*s))
        R[i] = [c * x - s * y for x, y in zip(S[i], S[i + n])]
        R[i + n] = [s * x + c * y for x, y in zip(S[i], S[i + n])]
        return R

    S = sq(I)
    for k in range(n - 1):
        S = ph(S, k, (5, 13), (12, 13))
        S = bs(S, k, k + 1, (3, 5), (4, 5))
    return ph(S, n - 1, (4, 5), (3, 5))


class Chain:
    """the random generator, the decompositions and the oracle of one run of a sampler"""

    def __init__(self, h, n, hbar, mu, S, nbar, cutoff, pnames="thewalrus.samples"):
        self.h, self.n, self.hbar, self.mu, self.cutoff = h, n, hbar, mu, cutoff
        N = 2 * n
        self.S = S
        self.nu = [hbar / 2 + hbar * x for x in nbar]
        Dg = [self.nu[i % n] for i in range(N)]
        self.V = [[sum(S[i][k] * Dg[k] * S[j][k] for k in range(N)) for j in range(N)] for i in range(N)]
        self.oo = self.p = None
        self.z = []
        self.mvn = []
        self.L = None
        self.picks = []
        h.mod(pnames)
        h.wrap("thewalrus.decompositions", "williamson", self.williamson)
        h.wrap(pnames, "photon_means_order", self.order)
        h.linalg("cholesky", self.cholesky)
        h.rng(normal=self.normal, choice=self.choice, multivariate_normal=self.multi, standard_normal=lambda size=None: self.normal(0, 1, size), randn=lambda *s: self.normal(0, 1, s))

    def arr(self, X):
        return self.h.array(X, shape=(len(X), len(X[0])))

    def order(self, orig, mu, cov, *a, **k):
        # any order of the modes is a valid one: the oracle below holds for each
        h = self.h
        if not h.symbolic:
            return h.np.asarray(self.perm())
        return h.ints(self.perm())

    def perm(self):
        if self.p is None:
            ps = list(permutations(range(self.n)))
            self.p = list(ps[self.h.choice("order", list(range(len(ps))))])
        return list(self.p)

    def williamson(self, orig, V, *a, **k):
        h, n = self.h, self.n
        p = self.perm()
        self.oo = list(p) + [x + n for x in p]
        want = [[self.V[i][j] for j in self.oo] for i in self.oo]
        h.eq("covariance decomposed", V, self.arr(want))
        self.W = want
        if orig is not None and not h.symbolic:
            D, S = orig(V, *a, **k)
            self.Sp = [[float(x) for x in r] for r in S]
            self.nup = [float(D[i, i]) for i in range(2 * n)]
            return D, S
        # S has rows in the order of the caller's modes; columns (normal modes) as they are
        self.Sp = [self.S[i] for i in self.oo]
        self.nup = [self.nu[i % n] for i in range(2 * n)]
        D = [[self.nup[i] if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)]
        return self.arr(D), self.arr(self.Sp)

    def T(self):
        h = self.h
        return [[self.hbar / 2 * x for x in r] for r in mm(self.Sp, tr(self.Sp))]

    def cholesky(self, orig, a, *r, **k):
        h, N = self.h, 2 * self.n
        h.eq("heterodyne covariance", a, self.arr(add_diag(self.T(), self.hbar / 2)))
        if orig is not None:
            L = orig(a, *r, **k)
            self.L = rows(L)
            return L
        if self.n == 1:
            self.L = [[h.pos("l0"), h.num(0)], [h.real("l1"), h.pos("l2")]]
        else:
            self.L = [[h.num(Fraction((3 * i + 5 * j) % 7 + 1, 4)) if j <= i else h.num(0) for j in range(N)] for i in range(N)]
        return self.arr(self.L)

    def normal(self, loc=0, scale=1, size=None):
        h = self.h
        if isinstance(size, (tuple, list)):
            assert len(size) == 1
            size = size[0]
        k = len(self.z)
        z = [h.real("z%d_%d" % (k, i), -4, 4) for i in range(int(size))]
        self.z.append(z)
        v = h.array(z, shape=(len(z),))
        return loc + scale * v

    def multi(self, mean, cov, size=None, **kw):
        h, N = self.h, 2 * self.n
        k = len(self.mvn)
        h.eq("mvn mean %d" % k, mean, h.array(self.mup() if k == 0 else self.pure(), shape=(N,)))
        T = self.T()
        want = add_diag(T, self.hbar / 2) if k else [[x - y for x, y in zip(r, s)] for r, s in zip(self.W, T)]
        h.eq("mvn cov %d" % k, cov, self.arr(want))
        v = [h.real("y%d_%d" % (k, i), -8, 8) for i in range(N)]
        self.mvn.append(v)
        return h.array(v, shape=(N,))

    def mup(self):
        return [self.mu[i] for i in self.oo]

    def pure(self):
        h, N = self.h, 2 * self.n
        if self.mvn:
            return self.mvn[0]
        half = self.hbar / 2
        w = []
        for k in range(N):
            d = self.nup[k] - half
            if not h.symbolic and abs(d) < 1e-10:
                d = 0.0
            w.append(h.sqrt(d) * self.z[0][k])
        return [m + sum(self.Sp[i][k] * w[k] for k in range(N)) for i, m in enumerate(self.mup())]

    def het(self):
        N = 2 * self.n
        if len(self.mvn) > 1:
            return self.mvn[1]
        z = self.z[0 if self.mvn else 1]
        return [m + sum(self.L[i][k] * z[k] for k in range(N)) for i, m in enumerate(self.pure())]

    def alpha(self, v):
        s = self.h.sqrt(2 * self.hbar)
        return [(v[i] + self.h.I * v[i + self.n]) / s for i in range(self.n)]

    def prepare(self):
        if getattr(self, "A", None) is None:
            h, n = self.h, self.n
            _, A, g = bargmann(h, self.T(), self.pure(), n, self.hbar)
            self.A = [r[:n] for r in A[:n]]
            self.g = g[:n]
            self.al = self.alpha(self.het())

    def weights(self, picks):
        """|amplitude|^2 of the next mode's photon number 0..cutoff, up to a common factor"""
        h, n = self.h, self.n
        m = len(picks) + 1
        g = [self.g[i] + sum(self.A[i][j] * h.conj(self.al[j]) for j in range(m, n)) for i in range(m)]
        A = [r[:m] for r in self.A[:m]]
        out = []
        for k in range(self.cutoff + 1):
            f = haf(A, expand_reps(list(picks) + [k]), loop=True, D=g) + h.num(0)
            out.append(h.re(f * h.conj(f)) / fact(k))
        return out

    def choice(self, a, size=None, replace=True, p=None):
        h = self.h
        self.prepare()
        k = len(self.picks)
        C = self.cutoff
        if isinstance(a, int):
            vals = list(range(a))
        else:
            vals = [int(x) for x in h.lst(a)]
        h.true("outcomes %d" % k, sorted(vals) == list(range(C + 1)))
        w = self.weights(self.picks)
        tot = sum(w)
        if not h.symbolic and not tot > 1e-12:
            h.assume(False)
        P = h.lst(p)
        h.eq("conditional %d" % k, h.array([x * tot for x in P], shape=(len(vals),)), h.array([w[v] for v in vals], shape=(len(vals),)))
        i = h.choice("pick%d" % k, vals)
        self.picks.append(i)
        return i


def _hbar(h, kind):
    return h.num(2) if kind == "two" else h.real("hbar", Fraction(1, 100), 100)


def _nbar(h, n, kind):
    if kind == "pure":
        return [h.num(0)] * n
    if kind == "half":
        return [h.num(0) if k % 2 == 0 else h.num(Fraction(9, 16)) for k in range(n)]
    if kind == "sym":
        w = [h.real("w%d" % k, Fraction(1, 10), 4) for k in range(n)]
        return [x * x for x in w]
    return [h.num(Fraction((k + 2) ** 2, 16)) for k in range(n)]


def _mean(h, n, kind):
    if kind is None:
        return [h.num(0)] * (2 * n)
    if kind == "const":
        return [h.num(Fraction((3 * i + 1) % 5 - 2, 2)) for i in range(2 * n)]
    return [h.real("m%d" % i, -4, 4) for i in range(2 * n)]


def _sample(h, n, S, nbar, mean, cutoff, maxp, hb):
    s = h.mod("thewalrus.samples")
    h.need("thewalrus.samples", "generate_hafnian_sample")
    hbar = _hbar(h, hb)
    mu = _mean(h, n, mean)
    c = Chain(h, n, hbar, mu, gates(h, n, S), _nbar(h, n, nbar), cutoff)
    kw = {} if hb == "two" else dict(hbar=hbar)
    if mean is not None:
        kw["mean"] = h.array(mu, shape=(2 * n,))
    r = s.generate_hafnian_sample(c.arr(c.V), cutoff=cutoff, max_photons=maxp, **kw)
    h.true("one draw per mode", len(c.picks) == n)
    pat = [None] * n
    for k in range(n):
        pat[c.oo[k]] = c.picks[k]
    rej = isinstance(r, int) and r == -1
    if sum(pat) > maxp:
        h.true("rejected", rej)
    elif max(pat) < cutoff or not rej:
        h.true("accepted", not rej)
        if not rej:
            h.true("pattern", [int(x) for x in h.lst(r)] == pat)


def _order(h, n):
    """photon_means_order: a permutation sorting the modes by mean photon number; invert_permutation inverts"""
    s = h.mod("thewalrus.samples")
    h.need("thewalrus.samples", "photon_means_order", "invert_permutation")
    x = [h.real("x%d" % i, 1, 4) for i in range(n)]
    m = [h.real("m%d" % i, -2, 2) for i in range(n)]
    o = s.photon_means_order(h.array(m + [h.num(0)] * n, shape=(2 * n,)), h.array([[x[i % n] if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n)))
    o = [int(i) for i in h.lst(o)]
    h.true("permutation", sorted(o) == list(range(n)))
    t = [2 * x[i] + m[i] * m[i] for i in o]
    h.true("sorted", h.And(*[t[i] <= t[i + 1] + h.num(Fraction(1, 10 ** 9)) for i in range(n - 1)]) if n > 1 else True)
    inv = s.invert_permutation(h.ints(o) if h.symbolic else h.np.array(o))
    h.true("inverse", [o[int(i)] for i in h.lst(inv)] == list(range(n)))


for n in (1, 2, 3):
    case("C27", "order-%d" % n, n, bounds="%d modes, every thermal state with displacements" % n)(_order)


def _wrapper(h, entry, with_mean):
    """the samples requested are returned, rejected ones are drawn again, arguments reach the sampler"""
    s = h.mod("thewalrus.samples")
    hbar = h.real("hbar", Fraction(1, 10), 10)
    n = 2
    a = [h.real("v%d" % i, 1, 2) for i in range(n)]
    cov = h.array([[hbar * a[i % n] if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n))
    mu = h.array([h.real("m%d" % i) for i in range(2 * n)], shape=(2 * n,)) if with_mean else None
    drawn = []
    pats = [-1, [0, 1], [2, 0], [0, 0]]
    hb = [hbar]

    def gen(orig, c, mean=None, hbar=2, cutoff=12, max_photons=8):
        k = len(drawn)
        h.eq("cov%d" % k, c, cov if entry != "graph" else cov_graph[0])
        if with_mean:
            h.true("mean given%d" % k, mean is not None)
            h.eq("mean%d" % k, mean, mu)
        elif mean is not None:
            h.eq("mean%d" % k, mean, h.array([h.num(0)] * (2 * n), shape=(2 * n,)))
        h.eq("hbar%d" % k, h.num(0) + hbar, hb[0])
        h.true("cutoff%d" % k, (cutoff, max_photons) == (7, 5))
        r = pats[h.choice("draw%d" % k, [0, 1, 2, 3])] if k < 3 else pats[1 + k % 3]
        drawn.append(r)
        return r if r == -1 else list(r)

    h.wrap("thewalrus.samples", "generate_hafnian_sample", gen)
    cov_graph = []
    N = h.choice("N", [1, 2])
    if entry == "graph":
        A = h.array([[h.num(1), h.real("g", -2, 2)], [h.num(0), h.num(1)]], shape=(2, 2))
        nm = h.real("nm", Fraction(1, 10), 3)
        Qd = h.array([[a[i % n] + 1 if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n))

        def gq(orig, AA, n_mean):
            h.eq("graph", AA, A)
            h.eq("n_mean", h.num(0) + n_mean, nm)
            return Qd

        h.wrap("thewalrus.samples", "gen_Qmat_from_graph", gq)
        cov_graph.append(h.array([[(2 * a[i % n] + 1) if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n)))
        hb[0] = h.num(2)
        r = s.hafnian_sample_graph(A, nm, samples=N, cutoff=7, max_photons=5)
    else:
        r = s.hafnian_sample_state(cov, N, mean=mu, hbar=hbar, cutoff=7, max_photons=5, parallel=entry == "parallel")
    h.true("shape", tuple(r.shape) == (N, n))
    got = [int(x) for x in h.lst(r)]
    got = [got[i:i + n] for i in range(0, n * N, n)]
    ok = [d for d in drawn if d != -1]
    h.true("samples", (sorted(got) == sorted(ok) if entry == "parallel" else got == ok) and len(got) == N)


for e, m in (("state", True), ("state", False), ("parallel", True), ("graph", False)):
    case("C27", "wrapper-%s%s" % (e, "-mean" if m else ""), e, m, bounds="2 modes, up to 2 samples, every sequence of up to 3 first draws")(_wrapper)


def _invalid(h):
    s = h.mod("thewalrus.samples")
    x = h.real("x", 1, 2)
    h.raises("list", lambda: s.hafnian_sample_state([[1, 0], [0, 1]], 1), TypeError)
    h.raises("rect", lambda: s.hafnian_sample_state(h.array([[x, x, x, x], [x, x, x, x]], shape=(2, 4)), 1), ValueError)
    h.raises("nan", lambda: s.hafnian_sample_state(h.np.array([[float("nan"), 0.0], [0.0, 1.0]]), 1), ValueError)


case("C27", "invalid", bounds="a list, a rectangular matrix, a NaN")(_invalid)


for n, S, nbar, mean, cut, maxp, hb, t in (
    (1, "const", "sym", "all", 2, 1, "all", "quick"),
    (1, "all", "const", None, 2, 8, "two", "quick"),
    (1, "all", "pure", "const", 1, 8, "all", "quick"),
    (2, "const", "pure", "const", 1, 8, "all", "quick"),
    (2, "const", "half", "const", 1, 1, "all", "quick"),
    (2, "const", "pure", None, 2, 8, "two", "quick"),
    (2, "const", "const", None, 2, 8, "two", "thorough"),
    (2, "const", "const", "all", 2, 8, "all", "thorough"),
    (2, "sq", "sym", "all", 1, 8, "all", "quick"),
    (3, "const", "half", "const", 1, 2, "all", "quick"),
):
    case("C27", "sample-%d-%s-%s-%s-c%d-%s" % (n, S, nbar, mean, cut, hb), n, S, nbar, mean, cut, maxp, hb, tier=t,
         bounds="%d modes, %s symplectic, %s thermal part, %s means, hbar %s, cutoff %d, every random draw" % (n, S, nbar, mean, hb, cut), opts=dict(weight=3 * n))(_sample)
