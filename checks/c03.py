"""The specialised hafnian algorithms (sparse, banded, low rank) equal the sum over matchings.

Symbolic inputs: all non-zero entries are solver variables; the zero pattern is a symbolic
choice over the listed patterns.
Oracle: the matching sum of the full matrix (for the low-rank form, of G G^T).
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality
- sizes bounded as listed per case
"""
from itertools import combinations

from engine.harness import case
from .oracles import haf, rows


def _pattern(h, n, zeros, name="a"):
    e = {}
    for i in range(n):
        for j in range(i, n):
            if (i, j) in zeros:
                e[i, j] = e[j, i] = h.num(0)
            else:
                v = h.real("%s_%d_%d" % (name, i, j), kind="gen")
                h.assume(v != 0)
                e[i, j] = e[j, i] = v
    return h.array([[e[i, j] for j in range(n)] for i in range(n)], shape=(n, n))


def _patterns(n):
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    out = [(), tuple((i, i) for i in range(n))]
    # one star, one path, two blocks, alternating pattern, first row removed ...
    out.append(tuple((i, j) for i, j in pairs if i != 0 and i != j))
    out.append(tuple((i, j) for i, j in pairs if j - i > 1))
    out.append(tuple((i, j) for i, j in pairs if (i < n // 2) != (j < n // 2)))
    out.append(tuple((i, j) for i, j in pairs if (i + j) % 2 == 0))
    out.append(tuple((i, j) for i, j in pairs if i == 0))
    out.append(tuple((i, j) for i, j in pairs if (i, j) != (0, n - 1)))
    res = []
    for o in out:
        if o not in res and len(o) < len(pairs):
            res.append(o)
    return res


def _sparse(h, n, loop):
    tw = h.mod("thewalrus")
    A = _pattern(h, n, h.choice("pattern", _patterns(n)))
    h.eq("hafnian_sparse", tw.hafnian_sparse(A, loop=loop), haf(rows(A), range(n), loop) if (loop or n % 2 == 0) else 0)


def _sparse_sub(h, n, loop):
    tw = h.mod("thewalrus")
    A = _pattern(h, n, h.choice("pattern", _patterns(n)[:4]))
    D = h.choice("D", [c for k in range(0, n + 1) for c in combinations(range(n), k)])
    h.eq("hafnian_sparse-submatrix", tw.hafnian_sparse(A, D=set(D), loop=loop), haf(rows(A), D, loop) if (loop or len(D) % 2 == 0) else 0)


def _sparse_empty(h):
    """hafnian of the empty (sub)matrix is 1"""
    tw = h.mod("thewalrus")
    Z = h.array([[h.num(0)] * 2] * 2, shape=(2, 2))
    E = h.np.zeros((0, 0))
    h.eq("empty-matrix", tw.hafnian_sparse(E), 1)
    h.eq("empty-submatrix-of-zero", tw.hafnian_sparse(Z, D=set()), 1)
    h.eq("empty-submatrix-of-zero-loop", tw.hafnian_sparse(Z, D=set(), loop=True), 1)
    h.eq("zero", tw.hafnian_sparse(Z), 0)


for n in (1, 2, 3, 4, 5):
    case("C03", "sparse-%d" % n, n, False, bounds="n=%d, zero patterns listed, all entries symbolic" % n)(_sparse)
    case("C03", "sparse-loop-%d" % n, n, True, bounds="n=%d, zero patterns listed, all entries symbolic" % n)(_sparse)
case("C03", "sparse-6", 6, False, bounds="n=6, zero patterns listed, all entries symbolic")(_sparse)
case("C03", "sparse-sub-4", 4, False, bounds="n=4, every index subset")(_sparse_sub)
case("C03", "sparse-sub-loop-4", 4, True, bounds="n=4, every index subset")(_sparse_sub)
case("C03", "sparse-empty", bounds="empty matrices and subsets")(_sparse_empty)


def _banded(h, n, w, loop):
    tw = h.mod("thewalrus")
    A = _pattern(h, n, tuple((i, j) for i in range(n) for j in range(i, n) if j - i > w))
    h.eq("hafnian_banded", tw.hafnian_banded(A, loop=loop), haf(rows(A), range(n), loop) if (loop or n % 2 == 0) else 0)


def _banded_holes(h, n, w, loop):
    """zeros inside the band (outermost diagonal partly zero, inner diagonal zero)"""
    tw = h.mod("thewalrus")
    z = [(i, j) for i in range(n) for j in range(i, n) if j - i > w]
    k = h.choice("hole", [0, 1, 2])
    if k == 0:
        z += [(i, i + w) for i in range(n - w) if i != 1]
    elif k == 1:
        z += [(i, i + 1) for i in range(n - 1) if w > 1]
    else:
        z += [(i, i) for i in range(n)]
    A = _pattern(h, n, tuple(z))
    h.eq("hafnian_banded-holes", tw.hafnian_banded(A, loop=loop), haf(rows(A), range(n), loop) if (loop or n % 2 == 0) else 0)


for n, ws in ((1, (0,)), (2, (0, 1)), (3, (0, 1, 2)), (4, (0, 1, 2, 3)), (5, (1, 2)), (6, (1, 2))):
    for w in ws:
        for loop in (False, True):
            case("C03", "banded-%d-%d%s" % (n, w, "-loop" if loop else ""), n, w, loop, bounds="n=%d, bandwidth %d, all entries symbolic" % (n, w))(_banded)
for n, w in ((4, 2), (5, 2), (6, 1), (6, 2)):
    for loop in (False, True):
        case("C03", "banded-holes-%d-%d%s" % (n, w, "-loop" if loop else ""), n, w, loop, bounds="n=%d, bandwidth %d with zeros inside the band" % (n, w))(_banded_holes)
for n, w in ((8, 1), (8, 2), (7, 3)):
    for loop in (False, True):
        case("C03", "banded-%d-%d%s" % (n, w, "-loop" if loop else ""), n, w, loop, tier="thorough", bounds="n=%d, bandwidth %d" % (n, w))(_banded)


def _lowrank(h, n, r, cplx):
    tw = h.mod("thewalrus")
    G = h.matrix("g", n, r, kind="cplx" if cplx else "gen")
    A = [[sum(G[i, k] * G[j, k] for k in range(r)) for j in range(n)] for i in range(n)]
    h.eq("low_rank_hafnian", tw.low_rank_hafnian(G), haf(A, range(n)) if n % 2 == 0 else 0)


for n, r in ((1, 1), (2, 1), (4, 1), (6, 1), (2, 2), (3, 2), (4, 2), (4, 3), (2, 3)):
    case("C03", "lowrank-%d-%d" % (n, r), n, r, False, bounds="G is %dx%d, all entries symbolic" % (n, r))(_lowrank)
case("C03", "lowrank-cplx-2-2", 2, 2, True, bounds="G is 2x2 complex")(_lowrank)
case("C03", "lowrank-cplx-4-1", 4, 1, True, bounds="G is 4x1 complex")(_lowrank)
case("C03", "lowrank-cplx-4-2", 4, 2, True, tier="thorough", bounds="G is 4x2 complex")(_lowrank)
case("C03", "lowrank-4-4", 4, 4, False, tier="thorough", bounds="G is 4x4")(_lowrank)
case("C03", "lowrank-6-2", 6, 2, False, tier="thorough", bounds="G is 6x2")(_lowrank)
