"""Total photon-number distributions are correct.

Symbolic inputs: squeezing parameters, transmissions, the prefactor, squeezed covariances and hbar; photon numbers and mode numbers are symbolic choices.
Oracles: the generating function prod_k sech(s) (1 - tanh(s)^2 w^2)^(-1/2), w = 1 - eta + eta x, expanded by the recursion of its
differential equation; for several squeezings the product of the single-mode power series (p(2m) = binom(2m, m) (tanh/2)^(2m) sech).
Assumptions:
- exact arithmetic; scipy.stats.nbinom.pmf, scipy.special.binom are their definitions; hyp2f1 is evaluated exactly by Euler's transformation
- numpy.linalg.svd returns the singular values of the constructed states; photon numbers and cutoffs bounded as listed per case
"""
from fractions import Fraction
from math import comb

from engine.harness import case
from .c27 import gates, mm, tr
from .oracles import rows


def single(h, t, sech, cutoff):
    """photon-number distribution of squeezed vacuum"""
    return [h.num(Fraction(comb(i, i // 2), 2 ** i)) * t ** i * sech if i % 2 == 0 else h.num(0) for i in range(cutoff)]


def conv(h, ds, cutoff):
    r = [h.num(1)] + [h.num(0)] * (cutoff - 1)
    for d in ds:
        r = [sum(r[j] * d[i - j] for j in range(i + 1)) for i in range(cutoff)]
    return r


def lossy(h, k, t, sech, eta, nmax):
    """distribution of the total number of k lossy squeezed modes, up to nmax"""
    w0, w1 = 1 - eta, eta
    p0, p1, p2 = 1 - t * t * w0 * w0, -2 * t * t * w0 * w1, -t * t * w1 * w1
    g = [sech ** k / (p0 ** (k // 2) * (h.sqrt(p0) if k % 2 else 1))]
    for n in range(nmax):
        a = k * t * t * w1 * (w0 * g[n] + (w1 * g[n - 1] if n else 0)) - p1 * n * g[n] - (p2 * (n - 1) * g[n - 1] if n else 0)
        g.append(a / (p0 * (n + 1)))
    return g


def _lossy(h, ks, nmax, full):
    q = h.mod("thewalrus.quantum.photon_number_distributions")
    k = h.choice("k", ks)
    t = h.real("t", Fraction(-24, 25), Fraction(24, 25))
    s, sech = h.log((1 + t) / (1 - t)) / 2, h.sqrt(1 - t * t)
    eta = h.real("eta", 0, 1) if full else h.num(Fraction(2, 5))
    want = lossy(h, k, t, sech, eta, nmax)
    pref = h.real("pref", 0, 2)
    for n in range(nmax + 1):
        h.eq("P(%d)" % n, q.total_photon_number_distribution(n, k, s, eta), want[n])
        h.eq("pref^n P(%d)" % n, q.total_photon_number_distribution(n, k, s, eta, pref=pref), want[n] * pref ** n)


for ks, nmax, full, t in (([2, 4], 4, True, "quick"), ([1, 3], 3, True, "quick"), ([1, 6], 6, False, "quick"), ([1, 2, 3, 4, 5], 8, False, "thorough"), ([5, 6], 6, True, "thorough")):
    case("C31", "lossy-%s-%d-%s" % ("".join(map(str, ks)), nmax, "all" if full else "eta"), ks, nmax, full, tier=t,
         bounds="%s modes, up to %d photons, every squeezing in [-2, 2], %s" % (ks, nmax, "every transmission" if full else "transmission 2/5"), opts=dict(weight=nmax))(_lossy)


def _edge(h):
    """no loss: the squeezed distribution; full loss: vacuum"""
    q = h.mod("thewalrus.quantum.photon_number_distributions")
    k = h.choice("k", [1, 2, 3])
    s = h.real("s", -2, 2)
    t, sech = h.tanh(s), 1 / h.cosh(s)
    d = conv(h, [single(h, t, sech, 6)] * k, 6)
    for n in range(6):
        h.eq("no loss %d" % n, q.total_photon_number_distribution(n, k, s, 1), d[n])
        h.eq("full loss %d" % n, q.total_photon_number_distribution(n, k, s, 0), h.num(1 if n == 0 else 0))
        h.eq("vacuum %d" % n, q.total_photon_number_distribution(n, k, 0, Fraction(1, 3) if h.symbolic else 1 / 3), h.num(1 if n == 0 else 0))


case("C31", "edge", bounds="1 to 3 modes, up to 5 photons, every squeezing; transmission 0 and 1")(_edge)


def _identical(h, cutoff):
    q = h.mod("thewalrus.quantum.photon_number_distributions")
    h.need("thewalrus.quantum.photon_number_distributions", "_squeezed_state_distribution")
    N = h.choice("N", [1, 2, 3])
    s = h.real("s", -2, 2)
    t, sech = h.tanh(s), 1 / h.cosh(s)
    d = conv(h, [single(h, t, sech, cutoff)] * N, cutoff)
    h.eq("distribution", q._squeezed_state_distribution(s, cutoff=cutoff, N=N), h.array(d, shape=(cutoff,)))
    if N == 1:
        h.eq("default", q._squeezed_state_distribution(s, cutoff), h.array(d, shape=(cutoff,)))


for c in (1, 2, 5, 6, 9):
    case("C31", "identical-%d" % c, c, bounds="cutoff %d, 1 to 3 identical squeezed modes, every squeezing" % c)(_identical)


def _convolve(h, n, cutoff, pad):
    q = h.mod("thewalrus.quantum.photon_number_distributions")
    h.need("thewalrus.quantum.photon_number_distributions", "_convolve_squeezed_state_distribution")
    s = [h.real("s%d" % i, -2, 2) for i in range(n)]
    d = conv(h, [single(h, h.tanh(x), 1 / h.cosh(x), cutoff) for x in s], cutoff)
    r = q._convolve_squeezed_state_distribution(h.array(s, shape=(n,)), cutoff=cutoff, padding_factor=pad)
    h.true("length", r.shape[0] >= cutoff)
    h.eq("distribution", r[:cutoff], h.array(d, shape=(cutoff,)))


for n, c, p in ((1, 4, 1), (2, 5, 2), (3, 4, 1), (3, 3, 3)):
    case("C31", "convolve-%d-%d-%d" % (n, c, p), n, c, p, bounds="%d modes, cutoff %d, padding %d, every squeezing" % (n, c, p))(_convolve)


def _pure(h, n, cutoff, pad, default):
    q = h.mod("thewalrus.quantum")
    hbar = h.num(2) if default else h.real("hbar", Fraction(1, 100), 100)
    kw = {} if default else dict(hbar=hbar)
    e = [h.real("e%d" % i, 1, 4) for i in range(n)]
    N = 2 * n
    # passive orthogonal symplectic from fixed beamsplitters and phases
    O = [[h.num(1) if i == j else h.num(0) for j in range(N)] for i in range(N)]

    def apply(i, j, c, s):
        for k in range(N):
            O[i][k], O[j][k] = c * O[i][k] - s * O[j][k], s * O[i][k] + c * O[j][k]

    F = Fraction
    for i in range(n):
        apply(i, i + n, h.num(F(4, 5)), h.num(F(3, 5)))
        if i:
            for o in (0, n):
                apply(i - 1 + o, i + o, h.num(F(5, 13)), h.num(F(12, 13)))
    D = [1 / x for x in e] + e
    V = [[hbar / 2 * sum(O[i][k] * D[k] * O[j][k] for k in range(N)) for j in range(N)] for i in range(N)]
    th = [(x - 1) / (x + 1) for x in e]  # e = exp(2r)
    sech = [2 * h.sqrt(x) / (x + 1) for x in e]
    for i in range(n - 1):
        h.assume(e[i] >= e[i + 1])
    h.linalg("svd", lambda orig, M, *a, **k: orig(M, *a, **k) if orig is not None else (None if k.get("compute_uv", True) else h.array(th, shape=(n,))))
    seen = []

    def pure(orig, cov, hbar=2, rtol=1e-05, atol=1e-08):
        seen.append(1)
        h.eq("purity asked with this hbar", h.num(0) + hbar, hb)
        return True if h.symbolic else orig(cov, hbar=hbar, rtol=rtol, atol=atol)

    hb = hbar
    h.wrap("thewalrus.quantum.gaussian_checks", "is_pure_cov", pure)
    d = conv(h, [single(h, t, c, cutoff) for t, c in zip(th, sech)], cutoff)
    r = q.pure_state_distribution(h.array(V, shape=(N, N)), cutoff=cutoff, padding_factor=pad, **kw)
    h.eq("distribution", r, h.array(d, shape=(cutoff,)))
    h.true("purity asked", len(seen) >= 1)


for n, c, p, d in ((1, 5, 2, False), (2, 4, 1, False), (1, 3, 2, True), (2, 3, 2, True)):
    case("C31", "pure-%d-%d-%d%s" % (n, c, p, "-default" if d else ""), n, c, p, d, bounds="%d modes, every squeezing up to r = ln(4)/2, cutoff %d, %s" % (n, c, "hbar 2" if d else "every hbar"), opts=dict(weight=n * 2))(_pure)


def _mixed(h):
    q = h.mod("thewalrus.quantum")
    x = h.real("x", Fraction(11, 10), 3)
    h.raises("mixed", lambda: q.pure_state_distribution(h.array([[x, h.num(0)], [h.num(0), x]], shape=(2, 2)), 3), ValueError)
    y = h.real("y", Fraction(1, 10), Fraction(1, 2))
    h.raises("mixed for the given hbar", lambda: q.pure_state_distribution(h.array([[h.num(1), h.num(0)], [h.num(0), h.num(1)]], shape=(2, 2)), 3, hbar=y), ValueError)


case("C31", "mixed", bounds="thermal states of one mode")(_mixed)


def _char(h, m, iters):
    """partial sums of sum_n n^m e^(mu n) P(n), stopped by the documented rule"""
    q = h.mod("thewalrus.quantum.photon_number_distributions")
    k = h.choice("k", [1, 2])
    s, eta, mu = h.real("s", Fraction(1, 2), 2), h.real("eta", Fraction(1, 10), 1), h.real("mu", -1, 0)
    delta = h.real("delta", Fraction(1, 100), Fraction(1, 2))
    P = [h.real("p%d" % i, Fraction(1, 1000) if i % 2 == 0 else 0, 1) for i in range(iters + 1)]
    calls = []

    def tot(orig, n, kk, ss, ee, pref=1.0):
        h.true("photon number", n == len(calls) and kk == k)
        h.eq("squeezing", ss, s)
        h.eq("transmission", ee, eta)
        h.eq("prefactor", pref, h.exp(mu))
        calls.append(n)
        return P[n]

    h.wrap("thewalrus.quantum.photon_number_distributions", "total_photon_number_distribution", tot)
    kw = {} if m is None else dict(poly_corr=m)
    r = q.characteristic_function(k, s, eta, mu, max_iter=iters, delta=delta, **kw)
    c = len(calls)
    w = [(n ** m if m else 1) * P[n] for n in range(c)]
    h.eq("partial sum", r, sum(w))
    h.true("terms", 1 <= c <= iters)
    if c < iters:
        h.true("stopped only when the last two terms are small", w[-1] + w[-2] <= delta * sum(w) if c > 1 else False)


for m, it in ((None, 4), (0, 3), (1, 4), (2, 4), (3, 5)):
    case("C31", "char-%s-%d" % (m, it), m, it, bounds="polynomial correction %s, every sequence of up to %d probabilities" % (m, it))(_char)


def _char_zero(h):
    q = h.mod("thewalrus.quantum.photon_number_distributions")
    k = h.choice("k", [1, 2, 5])
    s, eta, mu = h.real("s", Fraction(1, 2), 2), h.real("eta", Fraction(1, 10), 1), h.real("mu", -1, 0)
    m = h.choice("m", [None, 0, 1, 3])
    for a, b in ((0, eta), (s, 0), (0, 0)):
        kw = {} if m is None else dict(poly_corr=m)
        h.eq("vacuum", h.num(0) + q.characteristic_function(k, a, b, mu, **kw), h.num(0 if m else 1))


case("C31", "char-vacuum", bounds="no squeezing or no transmission")(_char_zero)
