"""Entanglement measures use the right bipartition and spectrum.

Symbolic inputs: covariances (families of physical states of one to three modes), hbar; bipartitions are symbolic choices.
Oracles: sum of g(nu) over the symplectic spectrum of the (reduced) covariance, -sum log(nu < 1) over that of the partially transposed one,
g(nu) = (nu+1)/2 log((nu+1)/2) - (nu-1)/2 log((nu-1)/2).
Assumptions:
- exact arithmetic; np.isclose modelled as exact equality
- numpy.linalg.eigvals of Omega V replaced by its contract: pairs +i nu, -i nu (positive imaginary part first, as LAPACK documents for real
  matrices), the spectrum nu > 0 being some function of the characteristic polynomial of the matrix
- is_valid_cov / is_pure_cov replaced by their contracts (decided by C14) on the states of the families
- log is uninterpreted; mode numbers and families as listed per case
"""
from itertools import combinations, permutations

from engine.harness import case
from .gauss import block, cov_family, posdef_all, pure_family
from .oracles import det, rows, subsets


def _g(h, nu):
    if h.symbolic:
        if bool(nu == 1):
            return h.num(0)
    elif abs(nu - 1) < 1e-7:
        return h.num(0)
    a, b = (nu + 1) / 2, (nu - 1) / 2
    return a * h.log(a) - b * h.log(b)


class Spectrum:
    def __init__(self, h, hbar, V, valid=True, pure=False):
        self.h, self.hbar, self.V, self.n = h, hbar, V, len(V) // 2
        self.known = []
        if h.symbolic:
            h.contract(eigvals=self.eigvals)
            h.patch("thewalrus.quantum.gaussian_checks", "is_valid_cov", self._valid)
            h.patch("thewalrus.quantum.gaussian_checks", "is_pure_cov", self._pure)
            self.pure = pure

    def _state(self, C, hbar, full=False):
        """is C/hbar the covariance of some modes of the state"""
        from engine.scalar import tos

        R = [[tos(x) * 2 / hbar for x in r] for r in rows(C)]
        k = len(R) // 2
        for S in ([tuple(range(self.n))] if full else permutations(range(self.n), k)):
            W = block(self.V, self.n, S)
            if len(W) == len(R) and all((R[a][b] - 2 * W[a][b] / self.hbar).is_zero() for a in range(2 * k) for b in range(2 * k)):
                return True
        raise AssertionError("predicate called on something else than the state")

    def _valid(self, cov, hbar=2, rtol=1e-05, atol=1e-08):
        return self._state(cov, hbar)

    def _pure(self, cov, hbar=2, rtol=1e-05, atol=1e-08):
        return self._state(cov, hbar, True) and self.pure

    def _invariants(self, M):
        """elementary symmetric functions of nu^2: coefficients of the characteristic polynomial of M = Omega V"""
        k = len(M)
        return [sum(det([[M[i][j] for j in X] for i in X]) for X in subsets(k) if len(X) == 2 * q) for q in range(1, k // 2 + 1)]

    def _nus(self, M):
        from engine.scalar import tos

        h = self.h
        inv = [tos(x) for x in self._invariants(M)]
        for k, ls in self.known:
            if len(k) == len(inv) and all((a - b).is_zero() for a, b in zip(k, inv)):
                return ls
        ones = 0
        rest = inv
        while rest:
            # P(1) = 1 - e1 + e2 - ... : a mode in the vacuum of its Williamson form; divide it out
            q = [h.num(1)]
            for e in rest:
                q.append(e - q[-1])
            if not tos(q[-1]).is_zero():
                break
            rest, ones = [tos(x) for x in q[1:-1]], ones + 1
        n = len(rest)
        if n == 0:
            ls = [h.num(1)] * ones
        elif n == 1:
            ls = [h.sqrt(rest[0])] + [h.num(1)] * ones
        else:
            ls = [h.num(1)] * ones + [h.real("nu%d_%d" % (len(self.known), i)) for i in range(n)]
            for x in ls[ones:]:
                h.assume(x > 0)
        self.known.append((inv, ls))
        return ls

    def eigvals(self, a):
        from engine import sarr

        h = self.h
        M = rows(sarr.asS(a))
        if len(M) % 2:
            raise AssertionError("odd dimension")
        out = []
        for x in self._nus(M):
            out += [h.I * x, -h.I * x]
        return sarr.mkarr((len(out),), out, "complex")

    def of(self, V, physical=False):
        """oracle: symplectic spectrum of 2V/hbar"""
        h = self.h
        n = len(V) // 2
        W = [[2 * x / self.hbar for x in r] for r in V]
        M = [[W[i + n][j] for j in range(2 * n)] for i in range(n)] + [[-W[i][j] for j in range(2 * n)] for i in range(n)]
        if not h.symbolic:
            np = h.np
            ls = sorted(np.abs(np.linalg.eigvals(np.array(M, dtype=float)).imag))[::2]
            if physical:
                h.assume(bool(ls[0] > 1 - 1e-9))
            return ls
        ls = self._nus(M)
        if physical:
            for x in ls:
                h.assume(x >= 1)
        return ls


def _arr(h, V):
    return h.array(V, shape=(len(V), len(V)))


def _family(h, n, nv, hbar, seed=51):
    V = cov_family(h, n, hbar, nv, seed)
    posdef_all(h, V)
    return V


def _entropy(h, n, nv, default):
    from_ = h.mod("thewalrus.quantum.entanglement")
    hbar = h.num(2) if default else h.pos("hbar")
    kw = {} if default else dict(hbar=hbar)
    V = _family(h, n, nv, hbar)
    sp = Spectrum(h, hbar, V)
    nus = sp.of(V, physical=True)
    h.eq("entropy", from_.vonneumann_entropy(_arr(h, V), **kw), sum((_g(h, x) for x in nus), h.num(0)))


for n, nv, d, t in ((1, 2, False, "quick"), (1, 1, True, "quick"), (2, 1, False, "quick"), (2, 2, False, "thorough"), (3, 1, False, "thorough")):
    case("C25", "entropy-%d-%d%s" % (n, nv, "-default" if d else ""), n, nv, d, tier=t, bounds="%d modes, %d-parameter family" % (n, nv), opts=dict(weight=n))(_entropy)


def _parts(n, ints=True):
    out = [("modes_A", list(X)) for k in range(1, n) for X in combinations(range(n), k)]
    out += [("modes_A", list(reversed(X))) for k in range(2, n) for X in combinations(range(n), k)]
    out += [("modes_A", 0), ("modes_A", n - 1), ("split", 1), ("split", n - 1), ("tuple", (0,)), ("range", range(1, n)), ("array", [n - 1]), ("both", [0])]
    return out


def _args(h, kind, X, n):
    if kind == "split":
        return dict(split=X), list(range(X))
    if kind == "both":
        return dict(modes_A=X, split=n - 1), X
    if kind == "array":
        return dict(modes_A=h.np.array(X)), X
    return dict(modes_A=X), [X] if isinstance(X, int) else list(X)


def _ent(h, n, nv, default):
    e = h.mod("thewalrus.quantum.entanglement")
    hbar = h.num(2) if default else h.pos("hbar")
    kw = {} if default else dict(hbar=hbar)
    V = pure_family(h, n, hbar, nv, 61)
    sp = Spectrum(h, hbar, V, pure=True)
    i = h.choice("part", list(range(len(_parts(n)))))
    a, A = _args(h, *_parts(n)[i], n)
    nus = sp.of(block(V, n, sorted(A)), physical=True)
    want = sum((_g(h, x) for x in nus), h.num(0))
    h.eq("entanglement_entropy", e.entanglement_entropy(_arr(h, V), **a, **kw), want)
    B = [k for k in range(n) if k not in A]
    if n == 2:
        h.eq("other part", e.entanglement_entropy(_arr(h, V), modes_A=B, **kw), want)


for n, nv, d, t in ((2, 0, False, "quick"), (2, 1, False, "quick"), (2, 0, True, "quick"), (3, 0, False, "quick"), (3, 1, False, "thorough")):
    case("C25", "pure-%d-%d%s" % (n, nv, "-default" if d else ""), n, nv, d, tier=t, bounds="%d modes, %d-parameter family of pure states, every bipartition" % (n, nv), opts=dict(weight=n))(_ent)


def _neg(h, n, nv, default):
    e = h.mod("thewalrus.quantum.entanglement")
    hbar = h.num(2) if default else h.pos("hbar")
    kw = {} if default else dict(hbar=hbar)
    V = _family(h, n, nv, hbar)
    sp = Spectrum(h, hbar, V)
    sp.of(V, physical=True)
    i = h.choice("part", list(range(len(_parts(n)))))
    a, A = _args(h, *_parts(n)[i], n)
    sg = [1] * n + [-1 if k in A else 1 for k in range(n)]
    nus = sp.of([[sg[i] * sg[j] * V[i][j] for j in range(2 * n)] for i in range(2 * n)])
    want = h.num(0)
    for x in nus:
        if bool(x < 1):
            want = want - h.log(x)
    h.eq("log_negativity", e.log_negativity(_arr(h, V), **a, **kw), want)
    B = [k for k in range(n) if k not in A]
    h.eq("other part", e.log_negativity(_arr(h, V), modes_A=B, **kw), want)


for n, nv, d, t in ((2, 0, False, "quick"), (2, 1, False, "quick"), (2, 0, True, "quick"), (3, 0, False, "quick"), (3, 1, False, "thorough"), (2, 2, False, "thorough")):
    case("C25", "neg-%d-%d%s" % (n, nv, "-default" if d else ""), n, nv, d, tier=t, bounds="%d modes, %d-parameter family, every bipartition" % (n, nv), opts=dict(weight=n))(_neg)


def _product(h):
    e = h.mod("thewalrus.quantum.entanglement")
    hbar = h.pos("hbar")
    A, B = cov_family(h, 1, hbar, 1, 71, name="a"), cov_family(h, 1, hbar, 1, 72, name="b")
    posdef_all(h, A)
    posdef_all(h, B)
    z = h.num(0)
    V = [[A[0][0], z, A[0][1], z], [z, B[0][0], z, B[0][1]], [A[1][0], z, A[1][1], z], [z, B[1][0], z, B[1][1]]]
    sp = Spectrum(h, hbar, V)
    sp.of(V, physical=True)
    h.eq("product state", e.log_negativity(_arr(h, V), modes_A=[h.choice("A", [0, 1])], hbar=hbar), h.num(0))
    W = pure_family(h, 1, hbar, None, 73)
    X = pure_family(h, 1, hbar, 0, 74, name="x")
    U = [[W[0][0], z, W[0][1], z], [z, X[0][0], z, X[0][1]], [W[1][0], z, W[1][1], z], [z, X[1][0], z, X[1][1]]]
    Spectrum(h, hbar, U, pure=True)
    h.eq("pure product", e.entanglement_entropy(_arr(h, U), modes_A=[0], hbar=hbar), h.num(0))


case("C25", "product", bounds="2 modes, families of product states")(_product)


def _partition(h, n):
    e = h.mod("thewalrus.quantum.entanglement")
    m = h.int("m", -2, n + 2)
    m = int(m)
    inside = 0 <= m <= n - 1
    for lab, arg in (("int", m), ("list", [0, m]), ("tuple", (m,)), ("array", h.np.array([m]))):
        if inside:
            h.true(lab, [int(x) for x in e.get_partition(arg, None, n)] == ([0, m] if lab == "list" else [m]))
        else:
            h.raises(lab, lambda: e.get_partition(arg, None, n), ValueError)
    if m > n - 1:
        h.raises("split", lambda: e.get_partition(None, m, n), ValueError)
    elif m >= 0:
        h.true("split", list(e.get_partition(None, m, n)) == list(range(m)))
    h.raises("none", lambda: e.get_partition(None, None, n), TypeError)
    h.raises("type", lambda: e.get_partition("01", None, n), TypeError)
    h.raises("float mode", lambda: e.get_partition([0.5], None, n), ValueError)
    h.raises("float split", lambda: e.get_partition(None, 1.5, n), ValueError)


for n in (1, 3):
    case("C25", "partition-%d" % n, n, bounds="%d modes, every integer mode from -2 to %d" % (n, n + 2))(_partition)


def _invalid(h):
    e = h.mod("thewalrus.quantum.entanglement")
    hbar = h.real("hbar", 1, 4)
    s = h.real("s", 1, 9) / 20
    z = h.num(0)
    D = lambda k: h.array([[hbar * k, z], [z, hbar * k]], shape=(2, 2))
    h.raises("entropy", lambda: e.vonneumann_entropy(D(s), hbar=hbar), ValueError)
    h.raises("negativity", lambda: e.log_negativity(D(s), split=0, hbar=hbar), ValueError)
    h.raises("impure", lambda: e.entanglement_entropy(D(s + 1), split=0, hbar=hbar), ValueError)


case("C25", "invalid", bounds="1 mode, multiples of the vacuum covariance")(_invalid)
