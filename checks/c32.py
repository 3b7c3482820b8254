"""Grouped click probabilities are those of the detectors' grouping.

Symbolic inputs: mean photon numbers and coherences of the inputs, every entry of the complex transfer matrix, every random draw.
Decided for every outcome of the draws: a phase-space sample of the input is alpha = T (p u + i q v), beta = T* (p u - i q v) with independent
standard normal u, v (drawn in this order) and p^2 = (n + m)/2, q^2 = (n - m)/2, so that its second moments are the normally ordered ones of
the state; the estimate of the probability of k clicks is the average over the samples of the real part of
sum_{|S| = k} prod_{S} (1 - e_j) prod_{not S} e_j, e_j = exp(-alpha_j beta_j); the error is the standard deviation of the group averages.
Assumptions:
- exact arithmetic; exp of different polynomials independent; numbers of modes with (modes + 1) dividing 24; the transfer matrix has at least
  as many rows as columns; samples that fill no group are not part of the estimate
"""
from fractions import Fraction

from engine.harness import case
from .oracles import subsets

MOD = "thewalrus.grouped_click_probabilities"


def _setup(h, M, N, const):
    T = []
    for i in range(M):
        if const in ("real", "gen"):
            T.append([h.real("t%d%d" % (i, j), -1, 1, **(dict(kind="gen") if const == "gen" else {})) * (1 + h.I * j) for j in range(N)])
            continue
        T.append([h.num(Fraction((3 * i + 5 * j) % 7 - 3, 8)) + h.I * h.num(Fraction((2 * i + 3 * j) % 5 - 2, 7)) if const else h.cplx("t%d%d" % (i, j)) for j in range(N)])
    draws = []

    def normal(loc=0, scale=1, size=None):
        k = 1 if size is None else int(size[0] if isinstance(size, (tuple, list)) else size)
        v = []
        for _ in range(k):
            v.append(h.real("w%d" % len(draws), -3, 3))
            draws.append(v[-1])
        return v[0] if size is None else h.array(v, ld="float", shape=(k,))

    seeds = []
    h.rng(normal=normal, standard_normal=lambda size=None: normal(size=size), randn=lambda *a: normal(size=a[0] if a else None), seed=lambda s=None: seeds.append(s))
    return T, draws, seeds


def _dist(h, T, p, q, u, v):
    M, N = len(T), len(p)
    a = [sum(T[i][k] * (p[k] * u[k] + h.I * q[k] * v[k]) for k in range(N)) for i in range(M)]
    b = [sum(h.conj(T[i][k]) * (p[k] * u[k] - h.I * q[k] * v[k]) for k in range(N)) for i in range(M)]
    e = [h.exp(-x * y) for x, y in zip(a, b)]
    out = [h.num(0)] * (M + 1)
    for S in subsets(M):
        w = h.num(1)
        for j in range(M):
            w = w * ((1 - e[j]) if j in S else e[j])
        out[len(S)] = out[len(S)] + h.re(w)
    return out


def _mean(ds):
    return [sum(d[k] for d in ds) / len(ds) for k in range(len(ds[0]))]


def _check(h, f, args, M, N, T, p, q, draws, seeds, samples, groups, seed):
    kw = {} if seed is None else dict(seed=seed)
    prob, err = f(*args, h.array(T, ld="complex", shape=(M, N)), samples, groups, **kw)
    h.true("seeded", seeds == [1990 if seed is None else seed])
    per = samples // groups
    h.true("draws", len(draws) >= 2 * N * per * groups)
    ds = [_dist(h, T, p, q, draws[2 * N * s:2 * N * s + N], draws[2 * N * s + N:2 * N * (s + 1)]) for s in range(per * groups)]
    gr = [_mean(ds[g * per:(g + 1) * per]) for g in range(groups)]
    m = _mean(gr)
    h.eq("probabilities", prob, h.array(m, shape=(M + 1,)))
    if groups > 1:
        h.eq("variance of the groups", err * err, h.array([sum((x[k] - m[k]) ** 2 for x in gr) / groups for k in range(M + 1)], shape=(M + 1,)))


def _py(h):
    """the interpreted function: its random generator can be replaced"""
    m = h.mod(MOD)
    if h.symbolic:
        return m
    for n in ("grouped_click_probabilities", "grouped_click_probabilities_squeezed"):
        f = getattr(m, n)
        if hasattr(f, "py_func"):
            h._set(m, n, f.py_func)
    return m


def _general(h, M, N, samples, groups, kind, const, seed):
    m = _py(h)
    T, draws, seeds = _setup(h, M, N, const)
    p = [h.real("p%d" % k, Fraction(1, 10), 1) for k in range(N)]
    q = [h.real("q%d" % k, Fraction(1, 10), 1) for k in range(N)]
    # classical: n >= m; squeezed: n < m, q imaginary
    s = 1 if kind == "classical" else -1
    n = [a * a + s * b * b for a, b in zip(p, q)]
    c = [a * a - s * b * b for a, b in zip(p, q)]
    q = q if s == 1 else [h.I * x for x in q]
    _check(h, m.grouped_click_probabilities, (h.array(n, shape=(N,)), h.array(c, shape=(N,))), M, N, T, p, q, draws, seeds, samples, groups, seed)


for M, N, s, g, k, c, seed, t in (
    (1, 1, 1, 1, "classical", False, None, "quick"), (1, 1, 4, 2, "squeezed", False, 7, "quick"), (2, 2, 1, 1, "squeezed", "real", None, "quick"),
    (2, 1, 2, 2, "classical", False, 0, "quick"), (2, 1, 5, 2, "squeezed", True, None, "quick"), (1, 1, 5, 3, "classical", False, None, "quick"), (1, 1, 7, 4, "squeezed", True, 3, "quick"),
    (3, 2, 1, 1, "squeezed", True, None, "quick"), (3, 1, 2, 1, "classical", True, None, "quick"), (5, 1, 1, 1, "squeezed", True, None, "quick"),
    (2, 2, 1, 1, "squeezed", "gen", None, "thorough"), (2, 2, 4, 2, "squeezed", True, None, "thorough"), (4, 1, 1, 1, "classical", False, None, "thorough"), (3, 1, 1, 1, "classical", False, None, "quick"), (7, 1, 1, 1, "classical", True, None, "thorough"),
):
    case("C32", "general-%d-%d-%d-%d-%s%s" % (M, N, s, g, k, "" if isinstance(c, bool) else "-" + c), M, N, s, g, k, c, seed, tier=t,
         bounds="%d modes, %d %s inputs, %d samples in %d groups, %s, every draw" % (M, N, k, s, g, {True: "one transfer matrix", False: "every transfer matrix"}.get(c, "every transfer matrix up to phases")), opts=dict(weight=M * s))(_general)


def _squeezed(h, M, N, samples, groups, pos):
    m = _py(h)
    T, draws, seeds = _setup(h, M, N, True)
    if h.symbolic:
        h.c.sqrt_may_be_imag = True
    r = [h.real("r%d" % k, *((Fraction(1, 10), 2) if pos else (-2, -Fraction(1, 10)))) for k in range(N)]
    sh, ch = [h.sinh(x) for x in r], [h.cosh(x) for x in r]
    # n = sinh^2, m = sinh cosh
    p2 = [a * (a + b) / 2 for a, b in zip(sh, ch)]
    q2 = [a * (a - b) / 2 for a, b in zip(sh, ch)]
    if pos:
        p, q = [h.sqrt(x) for x in p2], [h.I * h.sqrt(-x) for x in q2]
    else:
        p, q = [h.I * h.sqrt(-x) for x in p2], [h.sqrt(x) for x in q2]
    _check(h, m.grouped_click_probabilities_squeezed, (h.array(r, shape=(N,)),), M, N, T, p, q, draws, seeds, samples, groups, h.choice("seed", [None, 5]))


for M, N, s, g, pos in ((1, 1, 1, 1, True), (2, 1, 2, 2, True), (2, 2, 1, 1, True), (1, 1, 1, 1, False), (2, 1, 1, 1, False)):
    case("C32", "squeezed-%d-%d-%d-%d-%s" % (M, N, s, g, "pos" if pos else "neg"), M, N, s, g, pos,
         bounds="%d modes, %d squeezed inputs, every %s squeezing, %d samples in %d groups, every draw" % (M, N, "positive" if pos else "negative", s, g), opts=dict(weight=M * s))(_squeezed)
