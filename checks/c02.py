"""Repeated-index hafnians equal the hafnian of the explicitly repeated matrix.

Symbolic inputs: every matrix entry and every displacement entry is a solver variable; the
repetition vector is a symbolic choice over all vectors within the stated total; the
matching/edge bookkeeping (matched_reps, find_kept_edges, precompute_binoms, submatrix
selection) is executed for every choice.
Oracle: the same matching sum for the matrix with rows and columns written out as often as asked.
Assumptions:
- exact arithmetic (floating-point rounding is outside the claim)
- np.allclose tests are modelled as exact equality
- thewalrus.charpoly.powertrace replaced by its contract tr(A^k) (decided by C09)
- sizes and total repetitions bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .common import contract_powertrace
from .oracles import haf, rows, expand_reps


def _reps(n, lo, hi, each=None):
    return [list(r) for r in product(range((each or hi) + 1), repeat=n) if lo <= sum(r) <= hi]


def _go(h, n, lo, hi, glynn, loop, mu, line):
    contract_powertrace(h)
    tw = h.mod("thewalrus")
    A = h.symmetric("a", n) if not line else h.line_symmetric("a", n, seed=line)
    opts = _reps(n, lo, hi)
    if not loop:
        opts = [r for r in opts if sum(r) % 2 == 0] + [r for r in opts if sum(r) % 2][:3]
    rpt = h.choice("rpt", opts)
    R = rows(A)
    idx = expand_reps(rpt)
    if not loop:
        got = tw.hafnian_repeated(A, rpt, glynn=glynn)
        h.eq("hafnian_repeated-%s" % ("glynn" if glynn else "ryser"), got, haf(R, idx) if len(idx) % 2 == 0 else 0)
        return
    if mu:
        m = h.vector("m", n) if not line else h.array([2 * R[0][0] + 3 - k for k in range(n)], shape=(n,))
        got = tw.hafnian_repeated(A, rpt, mu=m, loop=True, glynn=glynn)
        D = [m[i] for i in range(n)]
    else:
        got = tw.hafnian_repeated(A, rpt, loop=True, glynn=glynn)
        D = [R[i][i] for i in range(n)]
    h.eq("loop_hafnian_repeated-%s" % ("glynn" if glynn else "ryser"), got, haf(R, idx, True, D))


for g in (True, False):
    gn = "glynn" if g else "ryser"
    for n, lo, hi in ((1, 0, 6), (2, 0, 6), (3, 0, 4), (4, 0, 4)):
        case("C02", "rep-%d-%s" % (n, gn), n, lo, hi, g, False, False, 0,
             bounds="%d modes, all repetition vectors with total %d..%d, all entries symbolic" % (n, lo, hi))(_go)
    for n, lo, hi in ((1, 0, 6), (2, 0, 5), (3, 0, 4)):
        case("C02", "loop-rep-mu-%d-%s" % (n, gn), n, lo, hi, g, True, True, 0,
             bounds="%d modes, all repetition vectors with total %d..%d, all entries and mu symbolic" % (n, lo, hi))(_go)
    for n, lo, hi in ((2, 0, 5), (3, 0, 4)):
        case("C02", "loop-rep-diag-%d-%s" % (n, gn), n, lo, hi, g, True, False, 0,
             bounds="%d modes, all repetition vectors with total %d..%d, loops on the diagonal" % (n, lo, hi))(_go)
    case("C02", "rep-line-3-6-%s" % gn, 3, 5, 6, g, False, False, 5, bounds="3 modes, total 5..6, generic line A0+t*A1")(_go)
    case("C02", "loop-rep-line-3-6-%s" % gn, 3, 5, 6, g, True, True, 6, bounds="3 modes, total 5..6, generic line")(_go)
    for n, lo, hi, t in ((2, 7, 10, 11), (4, 5, 8, 12), (3, 7, 9, 13)):
        case("C02", "rep-line-%d-%d-%s" % (n, hi, gn), n, lo, hi, g, False, False, t, tier="thorough", bounds="%d modes, total %d..%d, generic line" % (n, lo, hi))(_go)
    for n, lo, hi, t in ((2, 6, 9, 14), (4, 4, 6, 15), (3, 7, 8, 16)):
        case("C02", "loop-rep-line-%d-%d-%s" % (n, hi, gn), n, lo, hi, g, True, True, t, tier="thorough", bounds="%d modes, total %d..%d, generic line" % (n, lo, hi))(_go)


def _vec(h, n):
    """reduction() repeats rows and columns"""
    m = h.mod("thewalrus._hafnian")
    A = h.symmetric("a", n)
    v = h.vector("v", n)
    rpt = h.choice("rpt", _reps(n, 0, 4))
    idx = expand_reps(rpt)
    h.eq("reduction-matrix", m.reduction(A, rpt), h.array([[A[i, j] for j in idx] for i in idx], shape=(len(idx), len(idx))))
    h.eq("reduction-vector", m.reduction(v, rpt), h.array([v[i] for i in idx], shape=(len(idx),)))


for n in (1, 2, 3):
    case("C02", "reduction-%d" % n, n, bounds="%d modes, total <= 4" % n)(_vec)


def _lh(h, n, glynn):
    """loop_hafnian(A, D, reps) entry point"""
    contract_powertrace(h)
    m = h.mod("thewalrus._hafnian")
    A = h.symmetric("a", n)
    D = h.vector("d", n)
    rpt = h.choice("rpt", [r for r in _reps(n, 0, 4)])
    idx = expand_reps(rpt)
    h.eq("loop_hafnian", m.loop_hafnian(A, D=D, reps=rpt, glynn=glynn), haf(rows(A), idx, True, [D[i] for i in range(n)]))


for n in (2, 3):
    for g in (True, False):
        case("C02", "loop_hafnian-%d-%s" % (n, "glynn" if g else "ryser"), n, g, bounds="%d modes, total <= 4, explicit loop weights" % n)(_lh)
