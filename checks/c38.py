"""The numeric type of the inputs does not change the result.

Symbolic inputs: integer-valued entries (every integer in the stated range), given as integer, real and complex arrays; transmissions,
efficiencies and hbar are real symbols.
Oracle: the result for the real array; the integer and the complex array either give the same values or are refused with an error.
Assumptions:
- exact arithmetic; stores into integer arrays truncate as numpy's do; machine-integer overflow is outside the claim
- a refusal by numba's type inference is seen only in the replay on the compiled code, where it counts as a refusal
- powertrace replaced by its contract (decided by C09); sizes and ranges as listed per case
"""
from fractions import Fraction

import numpy as np

from engine.harness import case
from .common import contract_powertrace

TW = "thewalrus"
Q = "thewalrus.quantum"
S = "thewalrus.symplectic"


class _In:
    """the integers of one case, as arrays of a chosen type"""

    def __init__(self, h):
        self.h, self.vals = h, {}

    def _v(self, name, lo, hi):
        if name not in self.vals:
            self.vals[name] = self.h.int(name, lo, hi)
        return self.vals[name]

    def real(self, name, lo, hi):
        if name not in self.vals:
            self.vals[name] = self.h.real(name, lo, hi)
        return self.vals[name]

    def pos(self, name, lo, hi):
        if name not in self.vals:
            self.vals[name] = self.h.pos(name, lo, hi)
        return self.vals[name]

    def arr(self, rows, ld, shape):
        h = self.h
        if ld != "int":
            rows = [[h.num(x) * 1.0 if not h.symbolic else x for x in r] for r in rows] if len(shape) == 2 else [h.num(x) * 1.0 if not h.symbolic else x for x in rows]
        return h.array(rows, ld=ld, shape=shape)

    def sym(self, name, n, ld, lo=-3, hi=3):
        r = [[self._v("%s%d%d" % (name, min(i, j), max(i, j)), lo, hi) for j in range(n)] for i in range(n)]
        return self.arr(r, ld, (n, n))

    def mat(self, name, n, m, ld, lo=-3, hi=3):
        return self.arr([[self._v("%s%d%d" % (name, i, j), lo, hi) for j in range(m)] for i in range(n)], ld, (n, m))

    def vec(self, name, n, ld, lo=-3, hi=3):
        return self.arr([self._v("%s%d" % (name, i), lo, hi) for i in range(n)], ld, (n,))

    def const(self, rows, ld):
        if ld == "int":
            return self.h.ints(rows)
        return self.arr(rows, ld, np.array(rows).shape)


def _flat(h, o):
    if isinstance(o, (tuple, list)):
        return [z for x in o for z in _flat(h, x)]
    if isinstance(o, np.ndarray):
        return [x for x in np.asarray(o).reshape(-1)]
    return [o]


def _run(h, f, *types):
    vals, out = {}, {}
    for ld in ("float",) + types:
        try:
            i = _In(h)
            i.vals = vals
            out[ld] = _flat(h, f(h, i, ld))
        except (TypeError, AttributeError) as e:
            if h.symbolic:
                from engine.scalar import Unsupported

                if isinstance(e, Unsupported) or ld == "float":
                    raise
            elif ld == "float":
                raise
        except Exception as e:
            # numba's TypingError
            if h.symbolic or ld == "float" or "TypingError" not in type(e).__name__:
                raise
    for ld in types:
        if ld in out:
            h.true("same shape for %s" % ld, len(out[ld]) == len(out["float"]))
            n = len(out["float"])
            if n:
                h.eq("%s gives the result of float" % ld, h.array(out[ld], ld="complex", shape=(n,)), h.array(out["float"], ld="complex", shape=(n,)))
    h.true("real arrays are accepted", True)


F = {}


def fn(name, types=("int", "complex"), weight=1, bounds="", pt=False, **kw):
    def deco(f):
        def go(h):
            if pt:
                contract_powertrace(h)
            _run(h, f, *types)

        case("C38", name, bounds=bounds or "every integer in the range", opts=dict(weight=weight), **kw)(go)
        return f

    return deco


for n in (2, 3, 4):
    for me, kw in (("glynn", dict(method="glynn")), ("inclexcl", dict(method="inclexcl")), ("recursive", dict(method="recursive")), ("loop", dict(loop=True))):
        fn("hafnian-%s-%d" % (me, n), pt=True, bounds="%dx%d symmetric, entries -3..3" % (n, n))(lambda h, i, ld, n=n, kw=kw: h.mod(TW).hafnian(i.sym("a", n, ld), **kw))
    fn("sparse-%d" % n, bounds="%dx%d, diagonal and one off-diagonal non-zero" % (n, n))(lambda h, i, ld, n=n: h.mod(TW).hafnian_sparse(i.arr([[i._v("a%d" % min(u, v), 1, 3) if abs(u - v) <= 1 else 0 for v in range(n)] for u in range(n)], ld, (n, n)), loop=True))
    fn("banded-%d" % n, bounds="%dx%d tridiagonal" % (n, n))(lambda h, i, ld, n=n: h.mod(TW).hafnian_banded(i.arr([[i._v("a%d" % min(u, v), 1, 3) if abs(u - v) <= 1 else 0 for v in range(n)] for u in range(n)], ld, (n, n)), loop=True))
    for me in ("bbfg", "ryser"):
        fn("perm-%s-%d" % (me, n), bounds="%dx%d, entries -3..3" % (n, n))(lambda h, i, ld, n=n, me=me: h.mod(TW).perm(i.mat("a", n, n, ld), method=me))
for me in ("glynn", "inclexcl", "recursive"):
    fn("hafnian-%s-6" % me, pt=True, weight=20, bounds="6x6, a symmetric band of symbolic entries -3..3 over constants")(
        lambda h, i, ld, me=me: h.mod(TW).hafnian(i.arr([[i._v("a%d" % min(u, v), -3, 3) if abs(u - v) == 1 else 1 + (u * v) % 3 for v in range(6)] for u in range(6)], ld, (6, 6)), method=me))
fn("loop-6", pt=True, weight=20, bounds="5x5, a symmetric band of symbolic entries over constants")(
    lambda h, i, ld: h.mod(TW).hafnian(i.arr([[i._v("a%d" % min(u, v), -3, 3) if abs(u - v) == 1 else 1 + (u * v) % 3 for v in range(5)] for u in range(5)], ld, (5, 5)), loop=True))
for n in (2, 3):
    fn("loop-D-%d" % n, pt=True, bounds="%d modes, matrix and loop weights -3..3" % n)(lambda h, i, ld, n=n: h.mod(TW).loop_hafnian(i.sym("a", n, ld), i.vec("d", n, ld)))
    fn("loop-D-mixed-%d" % n, pt=True, bounds="%d modes, integer loop weights with a real matrix" % n)(lambda h, i, ld, n=n: h.mod(TW).loop_hafnian(i.sym("a", n, "float"), i.vec("d", n, ld)))
    fn("loop-A-mixed-%d" % n, pt=True, bounds="%d modes, integer matrix with real loop weights" % n)(lambda h, i, ld, n=n: h.mod(TW).loop_hafnian(i.sym("a", n, ld), h.array([h.num(Fraction(k + 1, 3)) if h.symbolic else (k + 1) / 3 for k in range(n)], ld="float", shape=(n,))))
    fn("repeated-%d" % n, pt=True, bounds="%d modes, repetitions 2" % n)(lambda h, i, ld, n=n: h.mod(TW).hafnian_repeated(i.sym("a", n, ld), [2] + [1] * (n - 1), mu=i.vec("d", n, ld), loop=True))
    fn("repeated-noloop-%d" % n, pt=True, bounds="%d modes, repetitions 2" % n)(lambda h, i, ld, n=n: h.mod(TW).hafnian_repeated(i.sym("a", n, ld), [2] * n))
    fn("low-rank-%d" % n, bounds="%dx2 factor" % n)(lambda h, i, ld, n=n: h.mod(TW).low_rank_hafnian(i.mat("g", n, 2, ld)))
    fn("hermite-%d" % n, bounds="%d variables, cutoff 3" % n)(lambda h, i, ld, n=n: [h.mod(TW).hermite_multidimensional(i.sym("a", n, ld), 3, y=i.vec("y", n, ld), modified=m) for m in (True, False)])
    fn("hermite-renorm-%d" % n, bounds="%d variables, cutoff 3" % n)(lambda h, i, ld, n=n: [h.mod(TW).hermite_multidimensional(i.sym("a", n, ld), 3, y=i.vec("y", n, ld), renorm=True, modified=m) for m in (True, False)])
    fn("hermite-y-mixed-%d" % n, bounds="%d variables, integer vector with a real matrix" % n)(lambda h, i, ld, n=n: h.mod(TW).hermite_multidimensional(h.array([[i.real("r", -1, 1)] * n] * n, ld="float", shape=(n, n)), 3, y=i.vec("y", n, ld), modified=True))
    fn("hermite-R-mixed-%d" % n, bounds="%d variables, integer matrix with a real vector" % n)(lambda h, i, ld, n=n: h.mod(TW).hermite_multidimensional(i.sym("a", n, ld), 3, y=h.array([i.real("r", -1, 1)] * n, ld="float", shape=(n,)), modified=True))
    fn("hermite-C-mixed-%d" % n, bounds="%d variables, integer matrix and vector, real C" % n)(lambda h, i, ld, n=n: h.mod(TW).hermite_multidimensional(i.sym("a", n, ld), 3, y=i.vec("y", n, ld), C=i.real("c", -1, 1), modified=True))
    fn("batched-%d" % n, bounds="%d variables, cutoff 3" % n)(lambda h, i, ld, n=n: [h.mod(TW).hafnian_batched(i.sym("a", n, ld), 3, mu=i.vec("y", n, ld), renorm=r) for r in (False, True)])
    fn("gradient-%d" % n, bounds="%d variables, cutoff 3" % n)(
        lambda h, i, ld, n=n: h.mod(TW).grad_hermite_multidimensional(h.mod(TW).hermite_multidimensional(i.sym("a", n, ld), 3, y=i.vec("y", n, ld), renorm=True, modified=True), i.sym("a", n, ld), i.vec("y", n, ld)))
    fn("loop-batch-%d" % n, pt=True, weight=3, bounds="%d modes, cutoff 2" % n)(lambda h, i, ld, n=n: h.mod("thewalrus.loop_hafnian_batch").loop_hafnian_batch(i.sym("a", n, ld), i.vec("d", n, ld), [1] * (n - 1), 2))
    fn("loop-batch-gamma-%d" % n, pt=True, weight=3, bounds="%d modes, two rows, cutoff 2" % n)(lambda h, i, ld, n=n: h.mod("thewalrus.loop_hafnian_batch_gamma").loop_hafnian_batch_gamma(i.sym("a", n, ld), i.mat("d", 2, n, ld), [1] * (n - 1), 2))
    fn("permanent-repeated-%d" % n, pt=True, bounds="%d modes" % n)(lambda h, i, ld, n=n: h.mod(TW).permanent_repeated(i.mat("a", n, n, ld), [2] + [1] * (n - 1)))
    fn("reference-%d" % n, bounds="%dx%d" % (n, n))(lambda h, i, ld, n=n: [h.mod("thewalrus.reference").hafnian(i.sym("a", n, ld), loop=l) for l in (False, True)])
for n in (1, 2):
    fn("mtl-%d" % n, bounds="%d modes" % n)(lambda h, i, ld, n=n: h.mod(TW).mtl(i.sym("a", 2 * n, ld)))
    fn("mtl-reference-%d" % n, bounds="%d modes" % n)(lambda h, i, ld, n=n: [h.mod("thewalrus.reference").mtl(i.sym("a", 2 * n, ld), loop=l) for l in (False, True)])
for n in (1, 2, 3):
    fn("charpoly-%d" % n, types=("complex",) if n == 3 else ("int", "complex"), bounds="%dx%d" % (n, n))(lambda h, i, ld, n=n: [h.mod("thewalrus.charpoly").charpoly(i.mat("a", n, n, ld) if n < 3 else i.sym("a", n, ld, 0, 0)), h.mod("thewalrus.charpoly").powertrace(i.mat("a", n, n, ld) if n < 3 else i.sym("a", n, ld, 0, 0), n + 2)])


# ---- phase space
for n in (1, 2):
    N = 2 * n
    z = lambda h, N: h.array([h.num(0)] * N, shape=(N,))
    fn("Qmat-%d" % n, ("int",), bounds="%d modes" % n)(lambda h, i, ld, N=N: h.mod(Q).Qmat(i.sym("v", N, ld), hbar=i.pos("hbar", Fraction(1, 2), 3)))
    fn("displacements-%d" % n, ("int",), bounds="%d modes" % n)(lambda h, i, ld, N=N: h.mod(Q).real_to_complex_displacements(i.vec("m", N, ld), hbar=i.pos("hbar", Fraction(1, 2), 3)))
    fn("expand-%d" % n, ("int",), bounds="%d of 3 modes, every order" % n)(lambda h, i, ld, n=n, N=N: h.mod(S).expand(i.mat("s", N, N, ld), [2, 0][:n], 3))
    fn("expand-passive-%d" % n, bounds="%d of 3 modes" % n)(lambda h, i, ld, n=n: h.mod(S).expand_passive(i.mat("s", n, n, ld), [2, 0][:n], 3))
    fn("orderings-%d" % n, bounds="%d modes" % n)(lambda h, i, ld, N=N: [h.mod(S).xxpp_to_xpxp(i.mat("s", N, N, ld)), h.mod(S).xpxp_to_xxpp(i.mat("s", N, N, ld)), h.mod(S).xxpp_to_xpxp(i.vec("m", N, ld))])
    fn("passive-%d" % n, ("int",), bounds="%d modes, every transmission matrix with entries in [-1/2, 1/2]" % n)(
        lambda h, i, ld, n=n, N=N: h.mod(S).passive_transformation(i.vec("m", N, ld), i.sym("v", N, ld), h.array([[i.real("t%d%d" % (a, b), -Fraction(1, 2), Fraction(1, 2)) for a in range(n)] for b in range(n)], ld="float", shape=(n, n)), hbar=i.pos("hbar", Fraction(1, 2), 3)))
    fn("passive-T-%d" % n, bounds="%d modes, integer transmission matrices" % n)(
        lambda h, i, ld, n=n, N=N: h.mod(S).passive_transformation(h.array([i.real("x", -1, 1)] * N, ld="float", shape=(N,)), h.array([[i.real("y", -1, 1)] * N] * N, ld="float", shape=(N, N)), i.const([[1 if a == b else 0 for a in range(n)] for b in range(n)], ld)))
    fn("loss-%d" % n, ("int",), bounds="%d modes, every transmission" % n)(lambda h, i, ld, n=n, N=N: h.mod(S).loss(i.vec("m", N, ld), i.sym("v", N, ld), i.real("T", 0, 1), n - 1, nbar=i.real("nb", 0, 2), hbar=i.pos("hbar", Fraction(1, 2), 3)))
    fn("loss-means-%d" % n, ("int",), bounds="%d modes, integer means with a real covariance matrix, every transmission" % n)(lambda h, i, ld, n=n, N=N: h.mod(S).loss(i.vec("m", N, ld), h.array([[i.real("r", 1, 2) if a == b else 0 for a in range(N)] for b in range(N)], ld="float", shape=(N, N)), i.real("T", 0, 1), n - 1, nbar=i.real("nb", 0, 2), hbar=i.pos("hbar", Fraction(1, 2), 3)))
    fn("reduced-%d" % n, ("int",), bounds="%d modes" % n)(lambda h, i, ld, n=n, N=N: [h.mod(S).reduced_state(i.vec("m", N, ld), i.sym("v", N, ld), [n - 1]), h.mod(Q).reduced_gaussian(i.vec("m", N, ld), i.sym("v", N, ld), [n - 1])])
    fn("photon-stats-%d" % n, ("int",), bounds="%d modes" % n)(lambda h, i, ld, n=n, N=N: [h.mod(Q).photon_number_mean_vector(i.vec("m", N, ld), i.sym("v", N, ld), hbar=i.pos("hbar", Fraction(1, 2), 3)), h.mod(Q).photon_number_covmat(i.vec("m", N, ld), i.sym("v", N, ld), hbar=i.pos("hbar", Fraction(1, 2), 3))])
    fn("expand-vector-%d" % n, bounds="integer displacements")(lambda h, i, ld, n=n: h.mod(S).expand_vector(i.vec("a", 1, ld)[0], n - 1, n, hbar=i.pos("hbar", Fraction(1, 2), 3)))


def _cov(i, n, ld):
    """an integer covariance matrix of a physical state for hbar = 2"""
    N = 2 * n
    return i.arr([[i._v("c%d" % a, 1, 4) if a == b else (1 if n == 2 and {a, b} == {0, 1} else 0) for a in range(N)] for b in range(N)], ld, (N, N))


fn("density-matrix", ("int",), weight=5, bounds="1 mode, diagonal covariance with entries 1..4, means -1..1, cutoff 3")(lambda h, i, ld: h.mod(Q).density_matrix(i.vec("m", 2, ld, -1, 1), i.const([[3, 1], [1, 2]], ld), cutoff=3, hbar=2))
fn("density-element", ("int",), weight=5, bounds="1 mode, means -1..1")(lambda h, i, ld: h.mod(Q).density_matrix_element(i.vec("m", 2, ld, -1, 1), i.const([[3, 1], [1, 2]], ld), [1], [2], hbar=2))
fn("state-vector", ("int",), weight=5, bounds="1 mode, means -1..1, cutoff 3")(lambda h, i, ld: h.mod(Q).state_vector(i.vec("m", 2, ld, -1, 1), i.const([[1, 0], [0, 1]], ld), cutoff=3, hbar=2, check_purity=False))
fn("amplitude", ("int",), weight=5, bounds="1 mode, means -1..1")(lambda h, i, ld: h.mod(Q).pure_state_amplitude(i.vec("m", 2, ld, -1, 1), i.const([[1, 0], [0, 1]], ld), [2], hbar=2, check_purity=False))
fn("probabilities", ("int",), weight=5, bounds="1 mode, means -1..1, cutoff 3")(lambda h, i, ld: h.mod(Q).probabilities(i.vec("m", 2, ld, -1, 1), i.const([[3, 1], [1, 2]], ld), 3, hbar=2))
fn("marginals", ("int",), weight=5, bounds="2 modes with diagonal covariance, means -1..1, cutoff 2")(lambda h, i, ld: h.mod(Q).n_body_marginals(i.vec("m", 4, ld, -1, 1), i.const([[3, 0, 0, 0], [0, 1, 0, 0], [0, 0, 2, 0], [0, 0, 0, 2]], ld), 2, 2, hbar=2))
fn("threshold", ("int",), weight=5, bounds="1 mode, means -1..1")(lambda h, i, ld: h.mod(TW).threshold_detection_prob(i.vec("m", 2, ld, -1, 1), i.const([[3, 1], [1, 2]], ld), [1], hbar=2))
fn("clicks", ("int",), weight=5, bounds="2 modes, a covariance matrix of integers")(lambda h, i, ld: [h.mod(Q).mean_clicks(i.const([[3, 1, 0, 0], [1, 3, 0, 0], [0, 0, 2, 0], [0, 0, 0, 2]], ld)), i.real("x", 0, 1)])


# ---- tables
for n in (1, 2):
    sh = (3,) * n

    def _table(h, i, ld, n=n, sh=sh):
        vals = [i._v("p%d" % k, 0, 4) for k in range(3 ** n)]
        if ld != "int" and not h.symbolic:
            vals = [float(v) for v in vals]
        return h.array(vals, ld=ld, shape=sh)

    fn("table-loss-%d" % n, ("int",), bounds="%d modes, cutoff 3, tables of integers 0..4, every efficiency" % n)(lambda h, i, ld, n=n, t=_table: h.mod(Q).update_probabilities_with_loss([i.real("e%d" % k, 0, Fraction(9, 10)) for k in range(n)], t(h, i, ld)))
    fn("table-noise-%d" % n, ("int",), bounds="%d modes, cutoff 3, tables of integers 0..4, every noise distribution on 0, 1, 2 photons" % n)(
        lambda h, i, ld, n=n, t=_table: h.mod(Q).update_probabilities_with_noise([h.array([i.real("q%d%d" % (k, l), 0, 1) for l in range(3)], ld="float", shape=(3,)) for k in range(n)], t(h, i, ld)))
    fn("table-noise-int-%d" % n, ("int",), bounds="%d modes, real tables, noise distributions of integers" % n)(
        lambda h, i, ld, n=n, sh=sh: h.mod(Q).update_probabilities_with_noise([i.vec("q%d" % k, 3, ld, 0, 2) for k in range(n)], h.array([i.real("p%d" % k, 0, 1) for k in range(3 ** n)], ld="float", shape=sh)))

# ---- gates
for g, k in (("displacement", 2), ("squeezing", 2), ("two_mode_squeezing", 2), ("beamsplitter", 2), ("mzgate", 2)):
    fn("gate-%s" % g, ("int",), bounds="parameters 0 and 1 given as integers, cutoff 3")(lambda h, i, ld, g=g: [getattr(h.mod("thewalrus.fock_gradients"), g)(*([a, b] if ld == "int" else [float(a), float(b)]), 3) for a in (0,) for b in (0,)] + [i.real("x", 0, 1)])
fn("brs", bounds="2x2 integer scattering matrices")(lambda h, i, ld: [h.mod(TW).ubrs(i.mat("u", 2, 2, ld)), h.mod(TW).brs(i.mat("u", 2, 2, ld), i.mat("e", 2, 2, ld))])
fn("fock-prob", bounds="2x2 integer matrices")(lambda h, i, ld: h.mod("thewalrus._permanent").fock_prob([1, 1], [2, 0], i.mat("u", 2, 2, ld)))
fn("fock-tensor", ("int",), bounds="identity, a swap and a shear given as integers, cutoff 3")(lambda h, i, ld: [h.mod(Q).fock_tensor(i.const(s, ld), h.array([h.num(0)], ld="complex", shape=(1,)), 3) for s in ([[1, 0], [0, 1]], [[0, -1], [1, 0]])] + [i.real("x", 0, 1)])
fn("decompositions", ("int",), bounds="the identity given as integers")(lambda h, i, ld: [h.mod("thewalrus.decompositions").takagi(i.const([[2, 0], [0, 1]], ld)), i.real("x", 0, 1)])
