"""Classical and graph samplers draw from the distributions they document.

Symbolic inputs: covariances, means, hbar, probability tensors, graph factors, mean photon numbers, and the outcomes of every random draw.
Decided: every parameter handed to the random generator is the one of the documented law (P-function of the classical state, Poissonian
counts at the drawn amplitudes, total photon number of the squeezed mode and its multinomial distribution, the given probability table),
for every outcome of the draws before it, and the returned sample is the drawn one.
Assumptions: exact arithmetic; numpy.random draws what its documentation says; the classicality predicate is decided by C14.
"""
from fractions import Fraction
from itertools import product

from engine.harness import case
from .oracles import rows


def _quad(h, n):
    N = 2 * n
    V = rows(h.symmetric("v", N))
    return V, h.array(V, shape=(N, N))


def _classical(h, n, mean, samples, threshold, default):
    s = h.mod("thewalrus.samples")
    N = 2 * n
    hbar = h.num(2) if default else h.real("hbar", Fraction(1, 100), 100)
    kw = {} if default else dict(hbar=hbar)
    V, cov = _quad(h, n)
    m = [h.real("m%d" % i) if mean else h.num(0) for i in range(N)]
    R = [[h.real("r%d_%d" % (k, i), -3, 3) for i in range(N)] for k in range(samples)]
    ok = h.choice("classical", [True, False])
    calls = []
    out = [[h.choice("n%d_%d" % (k, i), [0, 1, 3]) if k * n + i < 2 else (k + i) % 3 for i in range(n)] for k in range(samples)]

    def classical(orig, c, hbar=2, atol=1e-08, **k):
        h.eq("predicate covariance", c, cov)
        h.eq("predicate hbar", h.num(0) + hbar, hb)
        return ok

    hb = hbar

    def multi(mu, C, size=None, **k):
        calls.append("m")
        h.eq("P-function mean", mu, h.array(m, shape=(N,)))
        h.eq("P-function covariance", C, h.array([[x - (hb / 2 if i == j else 0) for j, x in enumerate(r)] for i, r in enumerate(V)], shape=(N, N)))
        h.true("P-function size", size == samples or size == (samples,) or size == [samples])
        return h.array(R, shape=(samples, N))

    def poisson(lam=1.0, size=None):
        calls.append("p")
        w = [[(R[k][i] * R[k][i] + R[k][i + n] * R[k][i + n]) / (2 * hb) for i in range(n)] for k in range(samples)]
        h.eq("intensity", lam, h.array(w, shape=(samples, n)))
        x = h.ints([y for r in out for y in r])
        return x.reshape((samples, n)) if h.symbolic else h.np.array(out)

    h.wrap("thewalrus.samples", "is_classical_cov", classical)
    h.rng(multivariate_normal=multi, poisson=poisson)
    if mean:
        kw["mean"] = h.array(m, shape=(N,))
    f = s.torontonian_sample_classical_state if threshold else s.hafnian_sample_classical_state
    if not ok:
        h.raises("refused", lambda: f(cov, samples, **kw), ValueError)
        return
    r = f(cov, samples, **kw)
    h.true("shape", tuple(r.shape) == (samples, n))
    want = [(1 if y > 0 else 0) if threshold else y for x in out for y in x]
    h.true("samples", [int(x) for x in h.lst(r)] == want and calls == ["m", "p"])


for n, mean, k, thr, d, t in ((1, True, 1, False, False, "quick"), (1, False, 2, True, True, "quick"), (2, True, 2, False, False, "quick"), (2, False, 3, True, False, "quick"), (3, True, 2, True, False, "quick")):
    case("C29", "%s-classical-%d-%s-%d" % ("torontonian" if thr else "hafnian", n, "mean" if mean else "zero", k), n, mean, k, thr, d, tier=t,
         bounds="%d modes, every covariance and mean, every hbar, %d samples, every draw" % (n, k))(_classical)


def _classical_bad(h):
    s = h.mod("thewalrus.samples")
    h.wrap("thewalrus.samples", "is_classical_cov", lambda orig, *a, **k: True)
    V, cov = _quad(h, 1)
    for f in (s.hafnian_sample_classical_state, s.torontonian_sample_classical_state):
        for k in (1, 3, 4):
            h.raises("mean length %d" % k, lambda: f(cov, 1, mean=h.array([h.num(0)] * k, shape=(k,))), ValueError)


case("C29", "classical-bad-mean", bounds="means of the wrong length")(_classical_bad)


def _pnr(h, modes, cutoff, oob, num):
    """photon_number_sampler: the law of the returned patterns is the table"""
    s = h.mod("thewalrus.samples")
    shape = (cutoff,) * modes
    pats = list(product(range(cutoff), repeat=modes))
    P = [h.real("p%d" % i, 0, 1) for i in range(len(pats))]
    tot = sum(P)
    if oob is False:
        h.assume(tot > 0)
    else:
        h.assume(tot <= 1)
    drawn = []

    def choice(a, size=None, replace=True, p=None):
        vals = list(range(a)) if isinstance(a, int) else [int(x) for x in h.lst(a)]
        p = h.lst(p)
        h.true("lengths", len(vals) == len(p) == len(pats) + (0 if oob is False else 1) and len(set(vals)) == len(vals))
        h.eq("normalised", sum(p), h.num(1))

        def one():
            k = h.choice("d%d" % len(drawn), list(range(len(vals)))) if len(drawn) < 2 else len(drawn) % len(vals)
            drawn.append(p[k])
            return vals[k]

        if size is None:
            return one()
        k = size if isinstance(size, int) else size[0]
        r = [one() for _ in range(k)]
        return h.ints(r) if h.symbolic else h.np.array(r)

    h.rng(choice=choice)
    tab = h.array(P, shape=(len(P),)).reshape(shape)
    r = s.photon_number_sampler(tab, num) if oob is False else s.photon_number_sampler(tab, num, out_of_bounds=oob)
    h.true("number of samples", len(r) == num and len(drawn) == num)
    for k, x in enumerate(r):
        if oob is not False and isinstance(x, type(oob)) and x == oob:
            h.eq("out of bounds %d" % k, drawn[k], 1 - tot)
            continue
        t = tuple(int(y) for y in x)
        h.true("pattern %d" % k, t in pats)
        if t in pats:
            p = P[pats.index(t)]
            h.eq("probability %d" % k, drawn[k] * (tot if oob is False else 1), p)


for m, c, o, k in ((1, 3, False, 1), (1, 3, -1, 2), (2, 2, False, 2), (2, 3, "out", 1), (3, 2, False, 1), (3, 2, -1, 1)):
    case("C29", "table-%d-%d-%s-%d" % (m, c, o, k), m, c, o, k, bounds="%d modes, cutoff %d, every probability table, %d samples" % (m, c, k))(_pnr)


def _rank_one(h, n, cplx, pairs, samples):
    s = h.mod("thewalrus.samples")
    h.need("thewalrus.samples", "hafnian_sample_graph_rank_one")
    G = [h.cplx("g%d" % i) if cplx else h.real("g%d" % i) for i in range(n)]
    w = [h.re(x * h.conj(x)) for x in G]
    tot = sum(w)
    h.assume(tot > 0)
    nm = h.real("nm", Fraction(1, 100), 10)
    log = []

    def nb(N, p, size=None):
        h.eq("number of failures", h.num(0) + N, h.num(Fraction(1, 2)))
        # squeezed vacuum of mean photon number nm: 2k photons with k ~ NB(1/2, 1/(1+nm))
        h.eq("success probability", p * (1 + nm), h.num(1))
        k = h.choice("pairs%d" % len(log), list(range(pairs + 1)))
        log.append((k, []))
        if size is None:
            return k
        return (h.ints([k]) if h.symbolic else h.np.array([k]))

    def choice(a, size=None, replace=True, p=None):
        vals = list(range(a)) if isinstance(a, int) else [int(x) for x in h.lst(a)]
        h.true("modes", vals == list(range(n)))
        h.eq("photon's mode", h.array([x * tot for x in h.lst(p)], shape=(n,)), h.array(w, shape=(n,)))
        c = log[-1][1]
        c.append(h.choice("mode%d_%d" % (len(log), len(c)), list(range(n))))
        return c[-1]

    h.rng(negative_binomial=nb, choice=choice)
    arr = h.array(G, ld="complex" if cplx else "float", shape=(n,))
    r = s.hafnian_sample_graph_rank_one(arr, nm, samples) if samples > 1 else s.hafnian_sample_graph_rank_one(arr, nm)
    h.true("shape", tuple(r.shape) == (samples, n))
    want = []
    for k, c in log:
        h.true("photons", len(c) == 2 * k)
        want += [sum(1 for x in c if x == i) for i in range(n)]
    h.true("samples", len(log) == samples)
    h.eq("counts", r, h.array([h.num(x) for x in want], shape=(samples * n,)).reshape((samples, n)))


for n, c, k, m in ((1, False, 2, 1), (2, True, 1, 2), (3, False, 1, 1), (2, False, 2, 1)):
    case("C29", "rank-one-%d-%s-%d-%d" % (n, "complex" if c else "real", k, m), n, c, k, m, bounds="%d modes, every %s factor, every mean photon number, up to %d pairs, %d samples" % (n, "complex" if c else "real", k, m))(_rank_one)


def _thermal(h, n, num, kind):
    cs = h.mod("thewalrus.csamples")
    ls = [h.real("l%d" % i, 0, Fraction(99, 100)) for i in range(n)]
    O = rows(h.matrix("o", n))
    z, out = [], []

    def normal(loc=0.0, scale=1.0, size=None):
        zz = [h.real("z%d_%d" % (len(z), i), -4, 4) for i in range(n)]
        if size is not None:
            sz = size if isinstance(size, int) else size[0]
            h.true("draw size", sz == n)
        z.append(zz)
        return loc + scale * h.array(zz, ld="float", shape=(n,))

    def poisson(lam=1.0, size=None):
        k = len(out)
        h.true("one draw per quadrature", len(z) == 2 * (k + 1))
        x, y = z[-2:]
        # thermal states with mean l/(1-l): P-function of variance l/(1-l)/2 per quadrature
        sd = [h.sqrt(l / (1 - l) / 2) for l in ls]
        a = [sum(O[i][j] * sd[j] * x[j] for j in range(n)) for i in range(n)]
        b = [sum(O[i][j] * sd[j] * y[j] for j in range(n)) for i in range(n)]
        h.eq("intensity%d" % k, lam, h.array([p * p + q * q for p, q in zip(a, b)], shape=(n,)))
        r = [h.choice("n%d_%d" % (k, i), [0, 2]) if k == 0 and i < 2 else i for i in range(n)]
        out.append(r)
        return h.ints(r) if h.symbolic else h.np.array(r)

    h.rng(normal=normal, poisson=poisson)
    A = h.array(O, shape=(n, n))
    r = cs.generate_thermal_samples(h.array(ls, shape=(n,)), A, num) if num > 1 else cs.generate_thermal_samples(h.array(ls, shape=(n,)), A)
    h.true("samples", len(r) == num and [[int(x) for x in h.lst(y)] for y in r] == out)


for n, k in ((1, 1), (2, 2), (3, 1)):
    case("C29", "thermal-%d-%d" % (n, k), n, k, "all", bounds="%d modes, every spectrum below 1 and every real matrix of modes, %d samples" % (n, k))(_thermal)


def _seed(h):
    s = h.mod("thewalrus.samples")
    got = []
    h.rng(seed=lambda x=None: got.append(x))
    s.seed(137)
    s.seed()
    h.true("seeds", got == [137, None])


case("C29", "seed", bounds="with and without a value")(_seed)
