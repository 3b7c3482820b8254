"""Loss and noise maps transform photon distributions as physical channels.

Symbolic inputs: every entry of the probability tables and noise distributions, every efficiency; which entries of large tables are non-zero.
Oracles: binomial thinning C(n,k) eta^k (1-eta)^(n-k) of each mode; convolution of each mode with its noise distribution, truncated at the cutoff.
Assumptions:
- exact arithmetic
- mode numbers and cutoffs bounded as listed per case; the tables of ten modes have a few non-zero entries, all symbolic
"""
from itertools import product
from math import comb

from engine.harness import case


def _binom(n, k, eta):
    r = comb(n, k) if k <= n else 0
    if r == 0:
        return 0
    t = r
    for _ in range(k):
        t = t * eta
    for _ in range(n - k):
        t = t * (1 - eta)
    return t


def _lossmat(h, c):
    q = h.mod("thewalrus.quantum.fock_tensors")
    eta = h.real("eta", 0, 1)
    kind = h.choice("kind", ["any", "one", "zero"])
    e = {"any": eta, "one": h.num(1), "zero": h.num(0)}[kind]
    if kind == "any":
        h.assume(eta < 1)
    L = q.loss_mat(e, c)
    h.true("shape", L.shape == (c, c))
    h.eq("binomial", L, h.array([[h.num(1) * _binom(i, j, e) for j in range(c)] for i in range(c)], shape=(c, c)))


for c in (1, 2, 4, 6):
    case("C21", "loss_mat-%d" % c, c, bounds="every eta in [0,1], cutoff %d" % c)(_lossmat)
case("C21", "loss_mat-12", 12, tier="thorough", bounds="every eta in [0,1], cutoff 12")(_lossmat)


def _lossmat_bad(h):
    q = h.mod("thewalrus.quantum.fock_tensors")
    e = h.real("eta", -5, 5)
    h.assume(h.Or(e < 0, e > 1))
    h.raises("eta outside [0,1]", lambda: q.loss_mat(e, 3), ValueError)


case("C21", "loss_mat-bad", bounds="every eta in [-5,5] outside [0,1]")(_lossmat_bad)


def _tab(h, n, c):
    return {ix: h.real("p" + "_".join(map(str, ix)), 0, 1) for ix in product(range(c), repeat=n)}


def _arr(h, n, c, tab):
    return h.array([tab[ix] if ix in tab else h.num(0) for ix in product(range(c), repeat=n)], shape=(c ** n,)).reshape((c,) * n)


def _loss(h, n, c):
    q = h.mod("thewalrus.quantum")
    etas = [h.real("eta%d" % k, 0, 1) for k in range(n)]
    full = h.choice("lossless", list(range(n + 1)))  # one of the modes may be lossless
    if full < n:
        etas[full] = h.num(1)
    for k in range(n):
        if k != full:
            h.assume(etas[k] < 1)
    tab = _tab(h, n, c)
    P = _arr(h, n, c, tab)
    got = q.update_probabilities_with_loss(etas, P)
    h.true("shape", got.shape == (c,) * n)
    for ix in tab:
        w = h.num(0)
        for jx, p in tab.items():
            if all(j >= i for i, j in zip(ix, jx)):
                t = p
                for i, j, e in zip(ix, jx, etas):
                    t = t * _binom(j, i, e)
                w = w + t
        h.eq("p%s" % (ix,), got[ix], w)
    h.eq("input unchanged", P, _arr(h, n, c, tab))


for n, c, t in ((1, 5, "quick"), (2, 3, "quick"), (3, 2, "quick"), (3, 3, "thorough"), (4, 2, "thorough")):
    case("C21", "loss-%d-%d" % (n, c), n, c, tier=t, bounds="%d modes, cutoff %d, every table, every eta" % (n, c), opts=dict(weight=c ** n))(_loss)


def _loss_many(h, n):
    q = h.mod("thewalrus.quantum")
    etas = [h.num(1)] * n
    a, b = n - 2, n - 1
    etas[a], etas[b], etas[0] = h.real("ea", 0, 1), h.real("eb", 0, 1), h.real("e0", 0, 1)
    for k in (0, a, b):
        h.assume(etas[k] < 1)
    one = tuple(1 if k in (0, a, b) else 0 for k in range(n))
    two = tuple(1 if k in (1, a) else 0 for k in range(n))
    tab = {one: h.real("p", 0, 1), two: h.real("r", 0, 1)}
    P = _arr(h, n, 2, tab)
    got = q.update_probabilities_with_loss(etas, P)
    want = {}
    for jx, p in tab.items():
        for ix in product(*[range(j + 1) for j in jx]):
            t = p
            for i, j, e in zip(ix, jx, etas):
                t = t * (_binom(j, i, e))
            want[ix] = want.get(ix, h.num(0)) + t
    h.eq("table", got.reshape((2 ** n,)), _arr(h, n, 2, want).reshape((2 ** n,)))


for n, t in ((9, "quick"), (10, "quick"), (11, "thorough")):
    case("C21", "loss-many-%d" % n, n, tier=t, bounds="%d modes, cutoff 2, two non-zero entries" % n, opts=dict(weight=10))(_loss_many)


def _loss_bad(h, noise):
    q = h.mod("thewalrus.quantum")
    e = h.real("eta", 0, 1)
    P = _arr(h, 2, 2, _tab(h, 2, 2))
    k = h.choice("k", [1, 3])
    if noise:
        h.raises("noise lists", lambda: q.update_probabilities_with_noise([h.array([1 - e, e], shape=(2,))] * k, P), ValueError)
    else:
        h.raises("etas", lambda: q.update_probabilities_with_loss([e] * k, P), ValueError)


case("C21", "loss-bad", False, bounds="wrong number of etas")(_loss_bad)
case("C21", "noise-bad", True, bounds="wrong number of noise distributions")(_loss_bad)


def _noise(h, n, c, lens):
    q = h.mod("thewalrus.quantum")
    ls = [h.choice("len%d" % k, lens) for k in range(n)]
    noise = [[h.real("d%d_%d" % (k, i), 0, 1) for i in range(ls[k])] for k in range(n)]
    tab = _tab(h, n, c)
    P = _arr(h, n, c, tab)
    got = q.update_probabilities_with_noise([h.array(d, shape=(len(d),)) for d in noise], P)
    h.true("shape", got.shape == (c,) * n)
    for ix in tab:
        w = h.num(0)
        for jx, p in tab.items():
            if all(j <= i and i - j < ls[k] for k, (i, j) in enumerate(zip(ix, jx))):
                t = p
                for k, (i, j) in enumerate(zip(ix, jx)):
                    t = t * noise[k][i - j]
                w = w + t
        h.eq("p%s" % (ix,), got[ix], w)
    h.eq("input unchanged", P, _arr(h, n, c, tab))


for n, c, lens, t in ((1, 4, (1, 3, 4, 6), "quick"), (2, 3, (1, 2, 4), "quick"), (3, 2, (1, 2, 3), "quick"), (3, 3, (2, 3), "thorough"), (4, 2, (2,), "thorough")):
    case("C21", "noise-%d-%d" % (n, c), n, c, list(lens), tier=t, bounds="%d modes, cutoff %d, noise of lengths %s, every table" % (n, c, lens), opts=dict(weight=c ** n))(_noise)


def _channel(h):
    """total probability is preserved by loss, mean photon number scales with eta"""
    q = h.mod("thewalrus.quantum")
    c = 5
    e = h.real("eta", 0, 1)
    h.assume(e < 1)
    p = [h.real("p%d" % i, 0, 1) for i in range(c)]
    g = q.update_probabilities_with_loss([e], h.array(p, shape=(c,)))
    h.eq("total", sum(g[i] for i in range(c)), sum(p, h.num(0)))
    h.eq("mean", sum(i * g[i] for i in range(c)), e * sum((i * p[i] for i in range(c)), h.num(0)))
    f = h.real("f", 0, 1)
    h.assume(f < 1)
    h.eq("composition", q.update_probabilities_with_loss([f], g), q.update_probabilities_with_loss([e * f], h.array(p, shape=(c,))))


case("C21", "loss-channel", bounds="1 mode, cutoff 5, every table and every two efficiencies")(_channel)
