"""Distinguishable squeezed light statistics are sums over the independent sources.

Symbolic inputs: squeezing parameters, every entry of the complex transmission matrix, the outcomes of every random draw of the sampler.
Oracles: each source alone is the Gaussian state hbar/2 (1 + P (diag(e^-2r, e^2r) - 1) P^T), P the real form of its column of the transmission
matrix; the photon-number mean and covariance of the sum are the sums of those of the sources (Wick's theorem).  The sampler draws, for every
source, a photon number from the (truncated, renormalised) squeezed-vacuum law and sends every photon independently to mode j with probability
|T_ji|^2; the counts returned are the sums.
Assumptions:
- exact arithmetic
- in the sampler cases every source reaches some detector (column of T not zero) and no column has norm above one; the binomial and categorical
  generators are taken at their definition, their arguments being what is checked
- mode numbers, cutoffs and numbers of samples bounded as listed per case
"""
from fractions import Fraction

from engine.harness import case
from .c31 import single


def _source(h, T, k, r):
    """covariance (units of hbar/2) of source k alone"""
    n = len(T)
    P = [[h.re(T[i][k]), -h.im(T[i][k])] for i in range(n)] + [[h.im(T[i][k]), h.re(T[i][k])] for i in range(n)]
    d = [h.exp(-2 * r) - 1, h.exp(2 * r) - 1]
    return [[sum(P[a][c] * d[c] * P[b][c] for c in range(2)) + (1 if a == b else 0) for b in range(2 * n)] for a in range(2 * n)]


def _moments(h, n, real):
    q = h.mod("thewalrus.quantum.distinguishable_squeezers")
    r = [h.real("r%d" % i, -2, 2) for i in range(n)]
    T = [[h.real("t%d%d" % (i, j)) if real else h.cplx("t%d%d" % (i, j)) for j in range(n)] for i in range(n)]
    mean = [h.num(0)] * n
    cov = [[h.num(0)] * n for _ in range(n)]
    for k in range(n):
        V = _source(h, T, k, r[k])
        for i in range(n):
            mean[i] = mean[i] + (V[i][i] + V[i + n][i + n]) / 4 - h.num(1) / 2
            for j in range(n):
                cov[i][j] = cov[i][j] + sum(V[a][b] * V[a][b] for a in (i, i + n) for b in (j, j + n)) / 8 - (h.num(1) / 4 if i == j else 0)
    A = h.array(T, ld="float" if real else "complex", shape=(n, n))
    R = h.array(r, ld="float", shape=(n,))
    h.eq("means", q.number_means(A, R), h.array(mean, shape=(n,)))
    h.eq("covariance", q.number_cov(A, R), h.array(cov, shape=(n, n)))


for n, re, t in ((1, False, "quick"), (2, False, "quick"), (2, True, "quick"), (3, False, "quick"), (3, True, "quick"), (4, True, "quick"), (4, False, "thorough"), (5, False, "thorough"), (6, True, "thorough")):
    case("C37", "moments-%d-%s" % (n, "real" if re else "complex"), n, re, tier=t, bounds="%d modes, every squeezing, every %s transmission matrix" % (n, "real" if re else "complex"), opts=dict(weight=n))(_moments)


def _sample(h, n, cutoff, samples, default):
    q = h.mod("thewalrus.quantum.distinguishable_squeezers")
    th = [h.real("u%d" % i, Fraction(-24, 25), Fraction(24, 25)) for i in range(n)]
    r = [h.log((1 + x) / (1 - x)) / 2 for x in th]
    T = [[h.cplx("t%d%d" % (i, j)) for j in range(n)] for i in range(n)]
    w = [[h.re(T[j][i] * h.conj(T[j][i])) for j in range(n)] for i in range(n)]  # source i to mode j
    for i in range(n):
        h.assume(sum(w[i]) > Fraction(1, 100) if h.symbolic else sum(w[i]) > 0.01)
        h.assume(sum(w[i]) <= 1 if n == 1 else sum(w[i]) < 1)
    law = []
    for x in th:
        d = single(h, x, h.num(1), cutoff)
        tot = sum(d)
        law.append([y / tot for y in d])
    st = dict(source=0, stage="number", n=0, det=0, q=None, count=0)
    outs = []
    cur = [0] * n

    def step():
        st["source"] += 1
        st["stage"] = "number"
        if st["source"] == n:
            outs.append(list(cur))
            cur[:] = [0] * n
            st["source"] = 0

    def label(s):
        st["count"] += 1
        return "%s %d" % (s, st["count"])

    def choice(a, size=None, replace=True, p=None):
        i = st["source"]
        m = len(h.lst(p))
        if st["stage"] == "number":
            h.true(label("outcomes are photon numbers"), m == cutoff and (a == m if isinstance(a, int) else [int(x) for x in h.lst(a)] == list(range(m))))
            h.eq(label("photon number law"), h.array(h.lst(p), shape=(m,)), h.array(law[i], shape=(m,)))
            st["n"] = h.choice("n%d" % st["count"], list(range(0, cutoff, 2)))
            st["stage"] = "detect"
            return st["n"]
        h.true("modes are chosen after the number detected", st["stage"] == "modes")
        h.true(label("outcomes are modes"), m == n and (a == m if isinstance(a, int) else [int(x) for x in h.lst(a)] == list(range(m))))
        h.true(label("one mode per photon"), (size[0] if isinstance(size, tuple) else size) == st["det"])
        h.eq(label("where photons go"), h.array([st["q"] * x for x in h.lst(p)], shape=(m,)), h.array(w[i], shape=(m,)))
        to = [h.choice("m%d_%d" % (st["count"], k), list(range(n))) for k in range(st["det"])]
        for j in to:
            cur[j] += 1
        step()
        return h.ints(to)

    def binomial(N, p, size=None):
        h.true("photons are detected after the number is drawn", st["stage"] == "detect" and int(N) == st["n"])
        h.eq(label("detected with the total transmission"), h.num(0) + p, sum(w[st["source"]]))
        st["q"] = p
        st["det"] = h.choice("k%d" % st["count"], list(range(st["n"] + 1)))
        if st["det"] == 0:
            step()
        else:
            st["stage"] = "modes"
        return st["det"]

    h.rng(choice=choice, binomial=binomial)
    kw = {} if default else dict(n_samples=samples)
    out = q.sample(h.array(T, ld="complex", shape=(n, n)), h.array(r, shape=(n,)), input_cutoff=cutoff, **kw)
    h.true("shape", tuple(out.shape) == (samples, n))
    h.true("every draw used", st["stage"] == "number" and st["source"] == 0)
    h.true("counts", [[int(x) for x in row] for row in out] == outs)


for n, c, s, t in ((1, 3, 2, "quick"), (2, 3, 1, "quick"), (1, 5, 1, "quick"), (3, 3, 1, "thorough"), (2, 5, 1, "thorough"), (2, 4, 1, "thorough"), (1, 3, 4, "thorough")):
    case("C37", "sample-%d-c%d-%d" % (n, c, s), n, c, s, False, tier=t, bounds="%d modes, every transmission matrix, photon numbers below %d, %d samples, every draw" % (n, c, s), opts=dict(weight=n * 4, **(dict(timeout=800, max_paths=4000) if t == "thorough" else {})))(_sample)
