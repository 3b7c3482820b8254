"""The torontonian sampler draws from the click distribution.

Symbolic inputs: means, hbar, the outcomes of every internal random draw; the order in which modes are measured is arbitrary.
Decided step by step, as for the hafnian sampler (C27), on the state in which every mode is spread evenly over `fanout` detectors: (a) and (b)
as there; (c) the heterodyne outcomes of the detectors have the Husimi law of the state spread with vacuum; (d) every conditional
distribution handed to the random generator is the one of the detector's photon number (truncated at the cutoff, as documented) given the
outcomes before it and the heterodyne outcomes of all detectors after it; (e) a mode clicks iff one of its detectors does; (f) the pattern
is returned in the order of the caller's modes, and rejected iff it has more than max_photons clicks.
Oracle: the conditional click and photon-number distributions of the Gaussian state, from its Husimi function.
Assumptions: as for C27; the truncation at `cutoff` photons per detector is part of the documented algorithm.
"""
from fractions import Fraction

from engine.harness import case
from .c27 import Chain, _hbar, _mean, _nbar, gates
from .oracles import expand_reps, fact, haf, rows


class Fan(Chain):
    def __init__(self, h, n, hbar, mu, S, nbar, cutoff, fanout):
        Chain.__init__(self, h, n, hbar, mu, S, nbar, cutoff)
        self.K = fanout
        self.done = []  # clicks per measured mode: list of detector outcomes
        self.cur = []
        h.wrap("thewalrus.samples", "get_heterodyne_fanout", self.fan)

    def fan(self, orig, alpha, fanout, *a, **k):
        h = self.h
        self.prepare()
        h.true("fanout", fanout == self.K)
        h.eq("heterodyne amplitudes", alpha, h.array(self.al, ld="complex", shape=(self.n,)))
        # decided by the fanout cases; any values with that mean are possible outcomes
        if self.K == 1:
            self.sub = [[x] for x in self.al]
        else:
            s = h.sqrt(h.num(self.K))
            self.sub = []
            for j in range(self.n):
                v = [h.real("fx%d_%d" % (j, i), -2, 2) + h.I * h.real("fy%d_%d" % (j, i), -2, 2) for i in range(self.K - 1)]
                v.append(-sum(v))
                self.sub.append([self.al[j] / s + x for x in v])
        return h.array(self.sub, ld="complex", shape=(self.n, self.K))

    def weights(self, picks):
        h, n, K = self.h, self.n, self.K
        m = len(self.done) + 1
        s = h.sqrt(h.num(K))
        # heterodyne outcomes of the detectors not measured yet
        rest = [sum(h.conj(self.sub[j][k]) for k in range(len(self.done[j]), K)) + h.num(0) for j in range(m - 1)]
        rest.append(sum(h.conj(self.sub[m - 1][k]) for k in range(len(self.cur) + 1, K)) + h.num(0))
        rest += [sum(h.conj(x) for x in self.sub[j]) for j in range(m, n)]
        A = [[self.A[i][j] / K for j in range(n)] for i in range(n)]
        g = [self.g[i] / s + sum(A[i][j] * rest[j] for j in range(n)) for i in range(m)]
        pat = [sum(d) for d in self.done]
        out = []
        for k in range(self.cutoff + 1):
            f = haf([r[:m] for r in A[:m]], expand_reps(pat + [k]), loop=True, D=g) + h.num(0)
            out.append(h.re(f * h.conj(f)) / fact(k))
        return out

    def choice(self, *a, **k):
        i = Chain.choice(self, *a, **k)
        self.cur.append(i)
        if i > 0 or len(self.cur) == self.K:
            self.done.append(self.cur)
            self.cur = []
        return i


def _sample(h, n, S, nbar, mean, cutoff, fanout, maxp, hb):
    s = h.mod("thewalrus.samples")
    h.need("thewalrus.samples", "generate_torontonian_sample", "get_heterodyne_fanout")
    hbar = _hbar(h, hb)
    mu = _mean(h, n, mean)
    c = Fan(h, n, hbar, mu, gates(h, n, S), _nbar(h, n, nbar), cutoff, fanout)
    kw = {} if hb == "two" else dict(hbar=hbar)
    if mean is not None:
        kw["mu"] = h.array(mu, shape=(2 * n,))
    r = s.generate_torontonian_sample(c.arr(c.V), cutoff=cutoff, fanout=fanout, max_photons=maxp, **kw)
    clicks = [1 if sum(d) else 0 for d in c.done]
    if isinstance(r, int):
        h.true("rejected", r == -1 and sum(clicks) > maxp and not c.cur)
        return
    h.true("all modes measured", len(c.done) == n and not c.cur)
    pat = [None] * n
    for k in range(n):
        pat[c.oo[k]] = clicks[k]
    h.true("accepted", sum(clicks) <= maxp)
    h.true("pattern", [int(x) for x in h.lst(r)] == pat)


for n, S, nbar, mean, cut, K, maxp, hb, t in (
    (1, "const", "sym", "all", 1, 1, 8, "all", "quick"),
    (1, "all", "const", None, 1, 2, 8, "two", "quick"),
    (1, "all", "const", None, 2, 2, 8, "two", "thorough"),
    (1, "const", "pure", "const", 1, 3, 0, "all", "quick"),
    (1, "all", "pure", "const", 1, 3, 8, "all", "thorough"),
    (2, "const", "pure", "const", 1, 2, 1, "all", "quick"),
    (2, "const", "half", "const", 1, 1, 8, "all", "quick"),
    (2, "const", "pure", None, 2, 1, 8, "two", "quick"),
    (2, "const", "const", None, 2, 1, 8, "two", "thorough"),
    (2, "const", "const", "all", 1, 2, 8, "all", "thorough"),
    (1, "all", "pure", "const", 1, 10, 8, "all", "thorough"),
    (3, "const", "half", "const", 1, 1, 2, "all", "thorough"),
):
    case("C28", "sample-%d-%s-%s-%s-c%d-f%d-%s" % (n, S, nbar, mean, cut, K, hb), n, S, nbar, mean, cut, K, maxp, hb, tier=t,
         bounds="%d modes, %s symplectic, %s thermal part, %s means, hbar %s, %d detectors per mode, cutoff %d, every random draw" % (n, S, nbar, mean, hb, K, cut), opts=dict(weight=3 * n))(_sample)


def _fanout(h, n, K):
    """law of the heterodyne outcomes: affine in independent standard normal draws; mean alpha/sqrt(K); E d d* = 1 - 1/K, E d d = 0"""
    s = h.mod("thewalrus.samples")
    h.need("thewalrus.samples", "get_heterodyne_fanout")
    al = [h.cplx("a%d" % i) for i in range(n)]
    m = {"one": None, "pos": 0}

    zs = {}

    def Z(k):
        if k not in zs:
            zs[k] = h.real("z%d" % k, -4, 4)
        return zs[k]

    def draws(size):
        size = size[0] if isinstance(size, (tuple, list)) else size
        size = 1 if size is None else int(size)
        v = []
        for _ in range(size):
            k = m["pos"]
            m["pos"] += 1
            v.append(Z(k) if m["one"] == "sym" else h.num(1 if m["one"] == k else 0))
        return h.array(v, ld="float", shape=(size,))

    h.rng(normal=lambda loc=0, scale=1, size=None: loc + scale * draws(size), standard_normal=lambda size=None: draws(size), randn=lambda *a: draws(a))

    def run(one):
        m["one"], m["pos"] = one, 0
        return [list(r) for r in rows(s.get_heterodyne_fanout(h.array(al, ld="complex", shape=(n,)), K))]

    base = run(None)
    N = m["pos"]
    q = h.sqrt(h.num(K))
    # the mean: a unit vector with equal weights is the only one for which all detectors see the same amplitude
    h.eq("mean", h.array(base, ld="complex", shape=(n, K)), h.array([[al[j] / q for k in range(K)] for j in range(n)], ld="complex", shape=(n, K)))
    cols = []
    for k in range(N):
        r = run(k)
        cols.append([r[j][i] - base[j][i] for j in range(n) for i in range(K)])
    full = run("sym")
    lin = [base[j][i] + sum(cols[k][j * K + i] * Z(k) for k in range(N)) for j in range(n) for i in range(K)]
    h.eq("affine", h.array([x for r in full for x in r], ld="complex", shape=(n * K,)), h.array(lin, ld="complex", shape=(n * K,)))
    M = n * K
    cov = [[sum(cols[k][a] * h.conj(cols[k][b]) for k in range(N)) + h.num(0) for b in range(M)] for a in range(M)]
    rel = [[sum(cols[k][a] * cols[k][b] for k in range(N)) + h.num(0) for b in range(M)] for a in range(M)]
    want = [[(h.num(1) if a == b else h.num(0)) - (h.num(Fraction(1, K)) if a // K == b // K else 0) for b in range(M)] for a in range(M)]
    h.eq("covariance", h.array(cov, ld="complex", shape=(M, M)), h.array(want, ld="complex", shape=(M, M)))
    h.eq("pseudo-covariance", h.array(rel, ld="complex", shape=(M, M)), h.array([[h.num(0)] * M for _ in range(M)], ld="complex", shape=(M, M)))


for n, K, t in ((1, 1, "quick"), (2, 2, "quick"), (1, 3, "quick"), (2, 4, "quick"), (1, 6, "thorough")):
    case("C28", "fanout-%d-%d" % (n, K), n, K, tier=t, bounds="%d modes spread over %d detectors, every amplitude" % (n, K))(_fanout)


def _wrapper(h, entry, with_mean):
    s = h.mod("thewalrus.samples")
    hbar = h.real("hbar", Fraction(1, 10), 10)
    n = 2
    a = [h.real("v%d" % i, 1, 2) for i in range(n)]
    cov = h.array([[hbar * a[i % n] if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n))
    mu = h.array([h.real("m%d" % i) for i in range(2 * n)], shape=(2 * n,)) if with_mean else None
    drawn = []
    pats = [-1, [0, 1], [1, 0], [0, 0]]
    hb = [hbar]
    want = [cov]

    def gen(orig, c, mu_=None, hbar=2, max_photons=30, fanout=10, cutoff=1, mu=None, mean=None):
        k = len(drawn)
        given = mu_ if mu_ is not None else mu
        h.eq("cov%d" % k, c, want[0])
        if with_mean:
            h.true("mean given%d" % k, given is not None)
            h.eq("mean%d" % k, given, means)
        elif given is not None:
            h.eq("mean%d" % k, given, h.array([h.num(0)] * (2 * n), shape=(2 * n,)))
        h.eq("hbar%d" % k, h.num(0) + hbar, hb[0])
        h.true("arguments%d" % k, (max_photons, fanout, cutoff) == (5, 7, 2))
        r = pats[h.choice("draw%d" % k, [0, 1, 2, 3])] if k < 3 else pats[1 + k % 3]
        drawn.append(r)
        return r if r == -1 else list(r)

    means = mu
    h.wrap("thewalrus.samples", "generate_torontonian_sample", gen)
    N = h.choice("N", [1, 2])
    kw = dict(max_photons=5, fanout=7, cutoff=2)
    if entry == "graph":
        A = h.array([[h.num(1), h.real("g", -2, 2)], [h.num(0), h.num(1)]], shape=(2, 2))
        nm = h.real("nm", Fraction(1, 10), 3)
        Qd = h.array([[a[i % n] + 1 if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n))

        def gq(orig, AA, n_mean):
            h.eq("graph", AA, A)
            h.eq("n_mean", h.num(0) + n_mean, nm)
            return Qd

        h.wrap("thewalrus.samples", "gen_Qmat_from_graph", gq)
        want[0] = h.array([[(2 * a[i % n] + 1) if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)], shape=(2 * n, 2 * n))
        hb[0] = h.num(2)
        r = s.torontonian_sample_graph(A, nm, samples=N, **kw)
    else:
        r = s.torontonian_sample_state(cov, N, mu=mu, hbar=hbar, parallel=entry == "parallel", **kw)
    h.true("shape", tuple(r.shape) == (N, n))
    got = [int(x) for x in h.lst(r)]
    got = [got[i:i + n] for i in range(0, n * N, n)]
    ok = [d for d in drawn if d != -1]
    h.true("samples", (sorted(got) == sorted(ok) if entry == "parallel" else got == ok) and len(got) == N)


for e, m in (("state", True), ("state", False), ("parallel", True), ("graph", False)):
    case("C28", "wrapper-%s%s" % (e, "-mean" if m else ""), e, m, bounds="2 modes, up to 2 samples, every sequence of up to 3 first draws")(_wrapper)


def _invalid(h):
    s = h.mod("thewalrus.samples")
    x = h.real("x", 1, 2)
    h.raises("list", lambda: s.torontonian_sample_state([[1, 0], [0, 1]], 1), TypeError)
    h.raises("rect", lambda: s.torontonian_sample_state(h.array([[x, x, x, x], [x, x, x, x]], shape=(2, 4)), 1), ValueError)
    h.raises("nan", lambda: s.torontonian_sample_state(h.np.array([[float("nan"), 0.0], [0.0, 1.0]]), 1), ValueError)


case("C28", "invalid", bounds="a list, a rectangular matrix, a NaN")(_invalid)
