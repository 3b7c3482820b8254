"""Montrealer functions equal the sum over restricted matchings.

Symbolic inputs: every entry of the symmetric matrix and every (complex) displacement.
Oracle: all perfect matchings (loop case: all matchings with zero or two self-loops) of the 2n
indices whose union with the fixed matching {(i, i+n)} is connected, found by a union-find
independent of the code's permutation-based generators.
Assumptions:
- exact arithmetic (floating-point rounding is outside the claim)
- thewalrus.charpoly.powertrace replaced by its contract tr(A^k) (decided by C09)
- sizes bounded as listed per case
"""
from engine.harness import case
from .common import contract_powertrace
from .oracles import matchings, rows


def connected(m, n):
    p = list(range(n))

    def f(x):
        while p[x] != x:
            x = p[x]
        return x

    for a, b in m:
        p[f(a % n)] = f(b % n)
    return len({f(x) for x in range(n)}) == 1


def mtl_def(R, n, loops=None):
    t = 0
    for m in matchings(list(range(2 * n)), loops is not None):
        k = sum(1 for a, b in m if a == b)
        if k not in (0, 2) or not connected(m, n):
            continue
        v = 1
        for a, b in m:
            v = v * (loops[a] if a == b else R[a][b])
        t = t + v
    return t


def _mat(h, n, kind, seed):
    if kind == "line":
        return rows(h.line_symmetric("a", 2 * n, seed))
    if kind == "block":  # [[B, C], [C*, B*]], B symmetric, C Hermitian
        B, C = {}, {}
        for i in range(n):
            C[i, i] = h.real("c%d%d" % (i, i))
            for j in range(i, n):
                B[i, j] = B[j, i] = h.cplx("b%d%d" % (i, j))
                if j > i:
                    C[i, j] = h.cplx("c%d%d" % (i, j))
                    C[j, i] = h.conj(C[i, j])
        M = [[0] * (2 * n) for _ in range(2 * n)]
        for i in range(n):
            for j in range(n):
                M[i][j] = B[i, j]
                M[i + n][j + n] = h.conj(B[i, j])
                M[i][j + n] = C[i, j]
                M[j + n][i] = C[i, j]
        return M
    return rows(h.symmetric("a", 2 * n))


def _mtl(h, n, kind, which):
    contract_powertrace(h)
    R = _mat(h, n, kind, 3)
    A = h.array(R, ld="complex", shape=(2 * n, 2 * n))
    if which == "fast":
        got = h.mod("thewalrus").mtl(A)
    else:
        got = h.mod("thewalrus.reference").mtl(A)
    h.eq("mtl-" + which, got, mtl_def(R, n))


def _lmtl(h, n, kind, which):
    contract_powertrace(h)
    R = _mat(h, n, kind, 4)
    z = [h.cplx("z%d" % i) for i in range(n)]
    g = z + [h.conj(x) for x in z]
    for i in range(2 * n):
        R[i][i] = g[i]
    A = h.array(R, ld="complex", shape=(2 * n, 2 * n))
    if which == "fast":
        got = h.mod("thewalrus").lmtl(A, h.array([h.conj(x) for x in g], ld="complex", shape=(2 * n,)))
    else:
        got = h.mod("thewalrus.reference").mtl(A, loop=True)
    h.eq("lmtl-" + which, got, mtl_def(R, n, g))


for w in ("fast", "reference"):
    for n, kind in ((1, "all"), (2, "all"), (3, "all"), (1, "block"), (2, "block"), (4, "line")):
        case("C10", "mtl-%s-%d-%s" % (w, n, kind), n, kind, w, bounds="%d modes, %s" % (n, {"all": "every symmetric matrix", "block": "every matrix of the block form", "line": "generic line"}[kind]), opts=dict(weight=n ** 3))(_mtl)
    for n, kind in ((1, "all"), (2, "all"), (2, "block"), (3, "line")):
        case("C10", "lmtl-%s-%d-%s" % (w, n, kind), n, kind, w, bounds="%d modes, %s, all complex displacements" % (n, {"all": "every symmetric matrix", "block": "every matrix of the block form", "line": "generic line"}[kind]), opts=dict(weight=n ** 3))(_lmtl)
    case("C10", "mtl-%s-5-line" % w, 5, "line", w, tier="thorough", bounds="5 modes, generic line", opts=dict(weight=200))(_mtl)
    case("C10", "lmtl-%s-3-all" % w, 3, "all", w, tier="thorough", bounds="3 modes, every symmetric matrix", opts=dict(weight=200))(_lmtl)
    case("C10", "lmtl-%s-4-line" % w, 4, "line", w, tier="thorough", bounds="4 modes, generic line", opts=dict(weight=200))(_lmtl)


def _bad(h, fn):
    tw = h.mod("thewalrus")
    r, c = h.choice("shape", [(1, 1), (3, 3), (2, 3), (4, 2), (2, 2)])
    l = h.choice("l", [1, 2, 3])
    a = h.real("a")
    A = h.array([[a] * c for _ in range(r)], shape=(r, c))
    z = h.array([a] * l, shape=(l,))
    bad = r != c or r % 2 == 1 or (fn in ("lmtl", "ltor") and l != r)
    if bad:
        h.raises(fn + "-shape", lambda: getattr(tw, fn)(A, z) if fn in ("lmtl", "ltor") else getattr(tw, fn)(A), ValueError)
    else:
        h.true("fits", True)


for fn in ("mtl", "lmtl"):
    case("C10", "reject-" + fn, fn, bounds="non-square, odd or mismatched shapes")(_bad)
