"""Multidimensional Hermite polynomials, their normalisation, the interferometer variant and
the gradients agree with the generating function C*exp(y.z - z.R.z/2).

Symbolic inputs: all entries of R, y and C.
Oracle: the power-series coefficients of C exp(y.z - z.R.z/2) (modified and standard convention), their derivatives for the gradients, and the loop hafnian of the repeated matrix.
Assumptions:
- exact arithmetic; np.allclose and np.real_if_close modelled exactly
- sizes and cutoffs bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .oracles import haf, expand_reps, fact


def _herm(R, y, k):
    n = len(R)
    M = [[-R[i][j] for j in range(n)] for i in range(n)]
    if any(q < 0 for q in k):
        return 0
    return haf(M, expand_reps(k), True, y)


def _norm(h, k):
    f = 1
    for q in k:
        f *= fact(q)
    return h.sqrt(h.num(f))


def _rows(A, n):
    return [[A[i, j] for j in range(n)] for i in range(n)]


def _tensor(h, R, y, C, cs, renorm):
    out = []
    for k in product(*[range(c) for c in cs]):
        v = C * _herm(R, y, k)
        if renorm:
            v = v / _norm(h, k)
        out.append(v)
    return out


def _hm(h, n, cut, renorm, mode, tensor=True):
    tw = h.mod("thewalrus")
    A = h.symmetric("r", n)
    R = _rows(A, n)
    C = h.real("C", kind="gen")
    cs = cut if isinstance(cut, tuple) else (cut,) * n
    if mode == "zero":
        got = tw.hermite_multidimensional(A, cut, C=C, renorm=renorm, make_tensor=tensor)
        y = [0] * n
    else:
        d = [h.real("y%d" % i, kind="gen") for i in range(n)]
        yv = h.array(d, shape=(n,))
        if mode == "modified":
            y = d
            got = tw.hermite_multidimensional(A, cut, y=yv, C=C, renorm=renorm, make_tensor=tensor, modified=True)
        else:
            y = [sum(R[i][j] * d[j] for j in range(n)) for i in range(n)]
            got = tw.hermite_multidimensional(A, cut, y=yv, C=C, renorm=renorm, make_tensor=tensor)
    want = _tensor(h, R, y, C, cs, renorm)
    h.eq("hermite", got, h.array(want, shape=cs if tensor else (len(want),)))


for n, cut in ((1, 7), (2, 4), (3, 3), (2, (2, 5)), (3, (2, 3, 1)), (4, 2)):
    for renorm in (False, True):
        for mode in ("modified", "standard", "zero"):
            if n == 4 and mode == "standard":
                continue
            case("C05", "hermite-%s-%s%s" % (str(n) + "-" + str(cut).replace(" ", ""), mode, "-renorm" if renorm else ""),
                 n, cut, renorm, mode, cut != 4, bounds="n=%d cutoff %s" % (n, cut))(_hm)
for renorm in (False, True):
    case("C05", "hermite-2-6%s" % ("-renorm" if renorm else ""), 2, 6, renorm, "modified", tier="thorough", bounds="n=2 cutoff 6")(_hm)
    case("C05", "hermite-3-4%s" % ("-renorm" if renorm else ""), 3, 4, renorm, "modified", tier="thorough", bounds="n=3 cutoff 4")(_hm)


def _intin(h, renorm):
    """integer-typed R and y give the same polynomials as their floating-point copies"""
    tw = h.mod("thewalrus")
    a, b, c = (h.choice(q, [-1, 0, 2]) for q in "abc")
    y = [h.choice("y%d" % i, [0, 1, 3]) for i in range(2)]
    A = h.ints([[a, b], [b, c]])
    got = tw.hermite_multidimensional(A, 4, y=h.ints(y), renorm=renorm, modified=True)
    want = _tensor(h, [[a, b], [b, c]], y, 1, (4, 4), renorm)
    h.eq("hermite-int-input", got, h.array([h.num(w) for w in want], shape=(4, 4)))


case("C05", "hermite-int", False, bounds="2x2 integer R in {-1,0,2}, integer y in {0,1,3}, cutoff 4", opts=dict(max_paths=300))(_intin)
case("C05", "hermite-int-renorm", True, bounds="2x2 integer R in {-1,0,2}, integer y in {0,1,3}, cutoff 4", opts=dict(max_paths=300))(_intin)


def _interf(h, m, cut, renorm):
    """R = [[0, U], [U^T, 0]]-type matrices: equal to the Hermite polynomials"""
    tw = h.mod("thewalrus")
    U = h.matrix("u", m)
    Z = [[h.num(0)] * m for _ in range(m)]
    R = [Z[i] + [U[i, j] for j in range(m)] for i in range(m)] + [[U[j, i] for j in range(m)] + Z[i] for i in range(m)]
    A = h.array(R, shape=(2 * m, 2 * m))
    C = h.real("C", kind="gen")
    got = tw.interferometer(A, cut, C=C, renorm=renorm)
    cs = (cut,) * (2 * m)
    h.eq("interferometer", got, h.array(_tensor(h, R, [0] * (2 * m), C, cs, renorm), shape=cs))


for m, cut in ((1, 5), (2, 3)):
    for renorm in (False, True):
        case("C05", "interferometer-%d-%d%s" % (m, cut, "-renorm" if renorm else ""), m, cut, renorm, bounds="%d modes, cutoff %d, block-antidiagonal R" % (m, cut))(_interf)


def _grad(h, n, cut, renorm):
    """gradients with respect to C, y and the (symmetric) entries of R"""
    m = h.mod("thewalrus._hermite_multidimensional")
    A = h.symmetric("r", n)
    R = _rows(A, n)
    y = [h.real("y%d" % i, kind="gen") for i in range(n)]
    C = h.real("C", kind="gen")
    h.assume(C != 0)
    cs = (cut,) * n
    G = h.array(_tensor(h, R, y, C, cs, renorm), shape=cs)
    dC, dR, dy = m.grad_hermite_multidimensional(G, A, h.array(y, shape=(n,)), C=C, renorm=renorm)
    h.eq("dC", dC, h.array(_tensor(h, R, y, h.num(1), cs, renorm), shape=cs))
    e = lambda k, *ds: tuple(q - sum(1 for d in ds if d == i) for i, q in enumerate(k))
    for i in range(n):
        want = []
        for k in product(*[range(c) for c in cs]):
            v = C * k[i] * _herm(R, y, e(k, i))
            want.append(v / _norm(h, k) if renorm else h.num(v))
        h.eq("dy", dy[..., i], h.array(want, shape=cs))
        for j in range(i, n):
            want = []
            for k in product(*[range(c) for c in cs]):
                if i == j:
                    v = -C * (k[i] * (k[i] - 1)) * _herm(R, y, e(k, i, i)) / h.num(2)
                else:
                    v = -C * (k[i] * k[j]) * _herm(R, y, e(k, i, j))
                want.append(v / _norm(h, k) if renorm else h.num(v))
            got = dR[..., i, i] if i == j else dR[..., i, j] + dR[..., j, i]
            h.eq("dR", got, h.array(want, shape=cs))


for n, cut in ((1, 5), (2, 3), (2, 4), (3, 2)):
    for renorm in (False, True):
        case("C05", "grad-%d-%d%s" % (n, cut, "-renorm" if renorm else ""), n, cut, renorm, bounds="n=%d cutoff %d" % (n, cut))(_grad)
