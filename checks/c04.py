"""Batched hafnians: every entry of a batch is the corresponding individual (loop) hafnian.

Symbolic inputs: all matrix and loop-weight entries; the fixed repetition vector, the cutoff
and the formula (Glynn / inclusion-exclusion) are symbolic choices.
Oracle: the matching sum of the matrix repeated according to each batch position separately.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality
- thewalrus.charpoly.powertrace replaced by its contract tr(A^k) (decided by C09)
- sizes bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .common import contract_powertrace
from .oracles import haf, rows, expand_reps, fact


def _fixed(n, hi):
    """fixed patterns with a total of at most hi photons (or exactly the totals listed in hi)"""
    hs = range(hi + 1) if isinstance(hi, int) else hi
    return [list(r) for r in product(range(max(hs) + 1), repeat=n - 1) if sum(r) in hs]


def _want(A, D, n, fixed, N):
    return [haf(rows(A), expand_reps(list(fixed) + [k]), True, D) for k in range(N + 1)]


def _mats(h, n, line, nd=1):
    if not line:
        A = h.symmetric("a", n)
        Ds = [[h.real("d%d_%d" % (q, i), kind="gen") for i in range(n)] for q in range(nd)]
    else:
        A = h.line_symmetric("a", n, seed=line)
        Ds = [[A[0, 0] * (i + 1) + (2 * q - i) for i in range(n)] for q in range(nd)]
    return A, Ds


def _batch(h, n, hi, cuts, glynn, line):
    contract_powertrace(h)
    m = h.mod("thewalrus.loop_hafnian_batch")
    A, (d,) = _mats(h, n, line)
    fixed = h.choice("fixed", _fixed(n, hi))
    N = h.choice("cutoff", cuts)
    D = h.array(d, shape=(n,))
    h.eq("loop_hafnian_batch", m.loop_hafnian_batch(A, D, fixed, N, glynn=glynn), h.array(_want(A, d, n, fixed, N), shape=(N + 1,)))


def _gamma(h, n, hi, cuts, glynn, line):
    contract_powertrace(h)
    m = h.mod("thewalrus.loop_hafnian_batch_gamma")
    A, ds = _mats(h, n, line, 2)
    fixed = h.choice("fixed", _fixed(n, hi))
    N = h.choice("cutoff", cuts)
    D = h.array(ds, shape=(2, n))
    h.eq("loop_hafnian_batch_gamma", m.loop_hafnian_batch_gamma(A, D, fixed, N, glynn=glynn),
         h.array([_want(A, d, n, fixed, N) for d in ds], shape=(2, N + 1)))


for g in (True, False):
    gn = "glynn" if g else "ryser"
    case("C04", "batch-1-%s" % gn, 1, 0, [0, 1, 2, 3, 4, 5], g, 0, bounds="no fixed mode, cutoff 0..5")(_batch)
    case("C04", "batch-2-%s" % gn, 2, 3, [0, 1, 2, 3], g, 0, bounds="one fixed mode with 0..3 photons, cutoff 0..3")(_batch)
    case("C04", "batch-3-%s" % gn, 3, 2, [0, 1, 2], g, 0, bounds="two fixed modes, at most 2 photons, cutoff 0..2")(_batch)
    case("C04", "batch-3-line-%s" % gn, 3, 4, [1, 3], g, 3, bounds="two fixed modes, at most 4 photons, cutoff 1, 3; generic line", opts=dict(weight=4))(_batch)
    case("C04", "batch-4-line-%s" % gn, 4, 3, [2, 3], g, 4, bounds="three fixed modes, at most 3 photons, cutoff 2, 3; generic line", opts=dict(weight=5))(_batch)
    case("C04", "gamma-1-%s" % gn, 1, 0, [0, 1, 2, 3, 4], g, 0, bounds="no fixed mode, cutoff 0..4, two displacement rows")(_gamma)
    case("C04", "gamma-2-%s" % gn, 2, 3, [0, 1, 2, 3], g, 0, bounds="one fixed mode with 0..3 photons, cutoff 0..3")(_gamma)
    case("C04", "gamma-3-%s" % gn, 3, 2, [0, 1, 2], g, 0, bounds="two fixed modes, at most 2 photons, cutoff 0..2")(_gamma)
    case("C04", "gamma-3-line-%s" % gn, 3, 3, [1, 2, 3], g, 5, bounds="two fixed modes, at most 3 photons; generic line", opts=dict(weight=4))(_gamma)
    case("C04", "batch-4-line2-%s" % gn, 4, 4, [4, 5], g, 8, tier="thorough", bounds="three fixed modes, at most 4 photons, cutoff 4, 5; generic line")(_batch)
    case("C04", "batch-2-line-%s" % gn, 2, 6, [4, 5, 6], g, 9, tier="thorough", bounds="one fixed mode, at most 6 photons, cutoff 4..6; generic line")(_batch)
    case("C04", "gamma-4-line-%s" % gn, 4, 3, [3, 4], g, 10, tier="thorough", bounds="three fixed modes; generic line")(_gamma)
    case("C04", "batch-4-total5-%s" % gn, 4, (5,), [1, 2], g, 12, bounds="three fixed modes with exactly 5 photons, cutoff 1, 2; generic line", opts=dict(weight=6))(_batch)
    for t in (6, 7):
        case("C04", "batch-4-total%d-%s" % (t, gn), 4, (t,), [1], g, 13, tier="quick" if g else "thorough", bounds="three fixed modes with exactly %d photons, cutoff 1; generic line" % t, opts=dict(weight=8))(_batch)
    case("C04", "batch-5-total5-%s" % gn, 5, (5,), [1], g, 14, tier="quick" if g else "thorough", bounds="four fixed modes with exactly 5 photons, cutoff 1; generic line", opts=dict(weight=8))(_batch)
    case("C04", "gamma-4-total5-%s" % gn, 4, (5, 7), [1], g, 15, tier="quick" if g else "thorough", bounds="three fixed modes with exactly 5 or 7 photons, cutoff 1; generic line", opts=dict(weight=8))(_gamma)


def _hb(h, n, cut, mu, renorm, tensor):
    tw = h.mod("thewalrus")
    A = h.symmetric("a", n)
    d = [h.real("m%d" % i, kind="gen") for i in range(n)] if mu else [0] * n
    kw = dict(mu=h.array(d, shape=(n,))) if mu else {}
    got = tw.hafnian_batched(A, cut, renorm=renorm, make_tensor=tensor, **kw)
    cs = cut if isinstance(cut, tuple) else (cut,) * n
    want = []
    for k in product(*[range(c) for c in cs]):
        v = haf(rows(A), expand_reps(k), True, d)
        if renorm:
            f = 1
            for q in k:
                f *= fact(q)
            v = v / h.sqrt(h.num(f))
        want.append(v)
    h.eq("hafnian_batched", got, h.array(want, shape=cs if tensor else (len(want),)))


for n, cut in ((1, 6), (2, 4), (3, 3), (2, (3, 5)), (3, (2, 3, 2))):
    for mu in (False, True):
        for renorm in (False, True):
            case("C04", "hafnian_batched-%s-%s%s" % (str(n) + "-" + str(cut).replace(" ", ""), "mu" if mu else "0", "-renorm" if renorm else ""),
                 n, cut, mu, renorm, n != 2, bounds="n=%d cutoff %s, all entries symbolic" % (n, cut))(_hb)
