"""Gaussian fidelity is symmetric and correct.

Symbolic inputs: covariances (one mode: all physical ones; two modes: families), means, hbar.
Oracles: the overlap exp(-d (V1+V2)^-1 d/2)/sqrt(det((V1+V2)/hbar)) when one state is pure; for two mixed one-mode states
F = (sqrt(D+L) + sqrt(L))/D * exp(..) with D = det(V1+V2)/hbar^2, L = 4 (det V1/hbar^2 - 1/4)(det V2/hbar^2 - 1/4), also for products of two modes.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality (literally in the near-pure case)
- scipy.linalg.sqrtm executed on 2x2 and diagonal matrices (principal root); mode numbers and families as listed per case
"""
from fractions import Fraction

from engine.harness import case
from .gauss import add_diag, cov_family, cov_full, posdef_all, pure_family, quad
from .oracles import det, rows


def _phys1(h, name, hbar, nv):
    if nv is None:
        V = cov_full(h, 1, name)
    else:
        V = cov_family(h, 1, hbar, nv, 31 if name == "v" else 32, name=name)
    h.assume(V[0][0] > 0)
    h.assume(V[0][0] * V[1][1] - V[0][1] * V[0][1] >= hbar * hbar * h.num(1 if nv is None else Fraction(65, 64)) / 4)
    return V


def _mean(h, N, name, kind, hbar):
    if kind == "zero":
        return [h.num(0)] * N
    if kind == "const":
        return [h.num((i * 5 + len(name)) % 7 - 3) / 4 for i in range(N)]
    return [h.real("%s%d" % (name, i), kind="gen") for i in range(N)]


def _arr(h, V):
    return h.array(V, shape=(len(V), len(V)))


def _sum(A, B):
    return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]


def overlap(h, m1, V1, m2, V2, hbar):
    M = _sum(V1, V2)
    d = [a - b for a, b in zip(m1, m2)]
    n = len(M) // 2
    return hbar ** n / h.sqrt(det(M)) * h.exp(-quad(M, d) / 2)


def _pure(h, n, nv, mean, default):
    q = h.mod("thewalrus.quantum")
    hbar = h.num(2) if default else h.pos("hbar")
    kw = {} if default else dict(hbar=hbar)
    V1 = pure_family(h, n, hbar, nv, 41)
    V2 = cov_family(h, n, hbar, 0 if n > 1 else 1, 42)
    posdef_all(h, V2)
    N = 2 * n
    m1, m2 = _mean(h, N, "m", mean, hbar), _mean(h, N, "mm", mean, hbar)
    a = [h.array(m1, shape=(N,)), _arr(h, V1)]
    b = [h.array(m2, shape=(N,)), _arr(h, V2)]
    h.eq("pure-mixed", q.fidelity(*a, *b, **kw), overlap(h, m1, V1, m2, V2, hbar))
    h.eq("mixed-pure", q.fidelity(*b, *a, **kw), overlap(h, m1, V1, m2, V2, hbar))
    h.eq("identical", q.fidelity(*a, *a, **kw), h.num(1))
    W = pure_family(h, n, hbar, 0, 43)
    h.eq("pure-pure", q.fidelity(*a, b[0], _arr(h, W), **kw), overlap(h, m1, V1, m2, W, hbar))


for n, nv, mean, d, t in ((1, None, "all", False, "quick"), (1, 1, "const", True, "quick"), (2, 0, "const", False, "quick"), (2, 0, "all", False, "quick"), (2, 1, "zero", False, "thorough"), (3, 0, "const", False, "thorough")):
    case("C24", "pure-%d-%s-%s%s" % (n, "all" if nv is None else nv, mean, "-default" if d else ""), n, nv, mean, d, tier=t,
         bounds="%d modes, %s pure states against a family of states" % (n, "all" if nv is None else "%d-parameter family of" % nv), opts=dict(weight=n * n))(_pure)


def _sq1(h, V1, V2, hbar):
    """(F without the exponential)^2, one mode"""
    h2 = hbar * hbar
    D = det(_sum(V1, V2)) / h2
    L = 4 * (det(V1) / h2 - h.num(1) / 4) * (det(V2) / h2 - h.num(1) / 4)
    return (D + 2 * L + 2 * h.sqrt(L) * h.sqrt(D + L)) / (D * D)


def _mixed(h, nv, mean, default):
    q = h.mod("thewalrus.quantum")
    hbar = h.num(2) if default else h.pos("hbar")
    kw = {} if default else dict(hbar=hbar)
    V1, V2 = _phys1(h, "v", hbar, nv), _phys1(h, "w", hbar, nv)
    m1, m2 = _mean(h, 2, "m", mean, hbar), _mean(h, 2, "mm", mean, hbar)
    a = [h.array(m1, shape=(2,)), _arr(h, V1)]
    b = [h.array(m2, shape=(2,)), _arr(h, V2)]
    f = q.fidelity(*a, *b, **kw)
    e = h.exp(-quad(_sum(V1, V2), [x - y for x, y in zip(m1, m2)]))
    h.eq("formula", f * f, _sq1(h, V1, V2, hbar) * e)
    h.true("non-negative", h.re(f) >= 0)


for nv, mean, d, t in ((0, "const", False, "quick"), (1, "zero", False, "quick"), (1, "const", True, "quick")):
    case("C24", "mixed-1-%s-%s%s" % ("all" if nv is None else nv, mean, "-default" if d else ""), nv, mean, d, tier=t,
         bounds="1 mode, %s pairs of states, %s means" % ("all" if nv is None else "%d-parameter families of" % nv, mean), opts=dict(weight=3))(_mixed)


def _thermal(h, n):
    """products of thermal states with the same squeezing: every pair of temperatures; symmetric, and identical states have fidelity 1"""
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    e = h.pos("e")
    x = [h.real("x%d" % i, Fraction(1, 8), 4) + h.num(1) / 2 for i in range(n)]
    y = [h.real("y%d" % i, Fraction(1, 8), 4) + h.num(1) / 2 for i in range(n)]
    N = 2 * n
    D = lambda t: [[(hbar * t[i % n] * (e if i < n else 1 / e) if i == j else h.num(0)) for j in range(N)] for i in range(N)]
    V1, V2 = D(x), D(y)
    m1, m2 = _mean(h, N, "m", "const", hbar), _mean(h, N, "mm", "const", hbar)
    a = [h.array(m1, shape=(N,)), _arr(h, V1)]
    b = [h.array(m2, shape=(N,)), _arr(h, V2)]
    f = q.fidelity(*a, *b, hbar=hbar)
    w = h.exp(-quad(_sum(V1, V2), [s - t for s, t in zip(m1, m2)]))
    for i in range(n):
        ix = (i, i + n)
        w = w * _sq1(h, [[V1[p][q2] for q2 in ix] for p in ix], [[V2[p][q2] for q2 in ix] for p in ix], hbar)
    h.eq("formula", f * f, w)
    h.eq("symmetric", q.fidelity(*b, *a, hbar=hbar), f)
    h.eq("identical", q.fidelity(*a, *a, hbar=hbar), h.num(1))


case("C24", "thermal-1", 1, bounds="1 mode, every pair of squeezed thermal states with common squeezing", opts=dict(weight=4))(_thermal)
case("C24", "thermal-2", 2, bounds="2 modes, every pair of products of squeezed thermal states", opts=dict(weight=6))(_thermal)


def _near(h):
    """states close to pure ones: the shortcut for pure states is taken only within the tolerance (literal |x| <= 1e-8)"""
    q = h.mod("thewalrus.quantum")
    if h.symbolic:
        h.c.literal_tolerance = True
    x, y = h.real("x", Fraction(1, 1000), 1), h.real("y", Fraction(1, 1000), 1)
    D = lambda t: [[1 + t if i == j else h.num(0) for j in range(2)] for i in range(2)]
    z = h.array([h.num(0)] * 2, shape=(2,))
    V1, V2 = D(x), D(y)
    f = q.fidelity(z, _arr(h, V1), z, _arr(h, V2))
    h.eq("formula", f * f, _sq1(h, V1, V2, h.num(2)))


case("C24", "near-pure", bounds="1 mode, thermal states with at most half a photon and at least 5e-4, hbar = 2, literal tolerance", opts=dict(weight=2))(_near)


def _bad(h, which):
    q = h.mod("thewalrus.quantum")
    x = h.real("x", 1, 2)
    C = lambda k: h.array([[x if i == j else h.num(0) for j in range(k)] for i in range(k)], shape=(k, k))
    z = lambda k: h.array([x] * k, shape=(k,))
    a = {"cov": (z(2), C(2), z(2), C(4)), "cov1": (z(2), C(4), z(2), C(2)), "mu1": (z(4), C(2), z(2), C(2)), "mu2": (z(2), C(2), z(4), C(2)), "mu1-one": (z(1), C(2), z(2), C(2)),
         "mu2-one": (z(2), C(2), z(1), C(2)), "both": (z(4), C(2), z(4), C(2)),
         "rect": (z(2), C(2), z(2), h.array([[x, x, x], [x, x, x]], shape=(2, 3)))}[which]
    h.raises(which, lambda: q.fidelity(*a), ValueError)


for w in ("cov", "cov1", "mu1", "mu2", "mu1-one", "mu2-one", "both", "rect"):
    case("C24", "bad-" + w, w, bounds="mismatched sizes")(_bad)
