"""State predicates decide exactly what they name.

Symbolic inputs: covariance / symplectic matrix entries and hbar > 0.
Oracles: validity <=> symmetric and every eigenvalue of cov + i hbar/2 Omega above -atol; classicality <=> valid and
every eigenvalue of cov - hbar/2 above -atol; purity <=> valid and det(2 cov/hbar) = 1; symplecticity <=> S^T Omega S = Omega.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality, the eigenvalue threshold atol as the exact number
- numpy.linalg.eigvalsh replaced by its contract: ascending real numbers, the spectrum of the matrix (tied to the
  characteristic polynomial when the code asks for another matrix than the two that define the property)
- mode numbers and matrix families bounded as listed per case
"""
from fractions import Fraction

from engine.harness import case
from .gauss import det
from .oracles import rows, subsets


def _omega(n):
    return [[(1 if j == i + n else -1 if i == j + n else 0) for j in range(2 * n)] for i in range(2 * n)]


class Spectra:
    """contract of eigvalsh: ascending real eigenvalues, one fresh vector per matrix (per positive multiple).
    The oracle registers the matrices whose spectrum defines the property; when the code asks for the spectrum of another
    matrix, the eigenvalues of all of them are tied to their characteristic polynomials."""

    def __init__(self, h):
        self.h = h
        self.known = []
        self.tied = set()
        if h.symbolic:
            h.contract(eigvalsh=self.call)

    def _find(self, H):
        """index, scale c > 0 with H = c * known"""
        h = self.h
        n = len(H)
        low = [(i, j) for i in range(n) for j in range(i + 1)]
        for k, (M, ls) in enumerate(self.known):
            if len(M) != n:
                continue
            piv = [p for p in low if not M[p[0]][p[1]].is_zero()]
            if not piv:
                if all(H[i][j].is_zero() for i, j in low):
                    return k, h.num(1)
                continue
            i, j = piv[0]
            c = H[i][j] / M[i][j]
            if c.has_I() or c.is_zero():
                continue
            if all((H[i][j] - c * M[i][j]).is_zero() for i, j in low):
                pos = c > 0
                if pos is True or (not isinstance(pos, bool) and h.c.implied(pos)):
                    return k, c
        return None, None

    def of(self, H):
        """oracle side: eigenvalues of the hermitian matrix H"""
        h = self.h
        if not h.symbolic:
            A = h.np.array([[complex(x) for x in r] for r in H])
            return list(h.np.linalg.eigvalsh(A))
        from engine.scalar import tos

        H = [[tos(x) for x in r] for r in H]
        k, c = self._find(H)
        if k is None:
            ls = [h.real("eig%d_%d" % (len(self.known), i)) for i in range(len(H))]
            for x, y in zip(ls, ls[1:]):
                h.assume(x <= y)
            self.known.append((H, ls))
            return ls
        return [c * x for x in self.known[k][1]]

    def call(self, a):
        from engine import sarr

        h = self.h
        H = rows(sarr.asS(a))
        n0 = len(self.known)
        ls = self.of(H)
        if len(self.known) > n0:
            for k in range(len(self.known)):
                if k not in self.tied:
                    self.tied.add(k)
                    M, e = self.known[k]
                    M = [[M[i][j] if j <= i else h.conj(M[j][i]) for j in range(len(M))] for i in range(len(M))]
                    for q in range(1, len(M) + 1):
                        l = r = 0
                        for X in subsets(len(M)):
                            if len(X) == q:
                                p = 1
                                for i in X:
                                    p = p * e[i]
                                l = l + p
                                r = r + h.re(det([[M[i][j] for j in X] for i in X]))
                        h.assume(h.iseq(l, r))
        return sarr.mkarr((len(ls),), ls, "float")


def _matrix(h, kind, hbar):
    """rows, number of modes; the family of candidate covariance matrices"""
    def r(x):
        return h.real(x)

    if kind == "1-all":
        a, b, c = r("a"), r("b"), r("c")
        return [[a, c], [c, b]], 1
    if kind == "1-asym":
        return [[r("a"), r("c")], [r("d"), r("b")]], 1
    if kind == "2-diag":
        d = [r("d%d" % i) for i in range(4)]
        return [[d[i] if i == j else 0 for j in range(4)] for i in range(4)], 2
    if kind in ("2-all", "3-all"):
        n = int(kind[0])
        return rows(h.symmetric("v", 2 * n)), n
    if kind == "2-line":
        return rows(h.line_symmetric("v", 4, 5)), 2
    if kind == "3-line":
        return rows(h.line_symmetric("v", 6, 3)), 3
    if kind == "2-asym":
        V = [[0] * 4 for _ in range(4)]
        for i in range(4):
            V[i][i] = hbar
        V[0][3], V[3][0] = r("a"), r("b")
        return V, 2
    raise KeyError(kind)


def _pred(h, which, kind):
    g = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    V, n = _matrix(h, kind, hbar)
    N = 2 * n
    atol = h.num(1) / 10 ** 8
    sym = [h.iseq(V[i][j], V[j][i]) for i in range(N) for j in range(i)] if "asym" in kind else []
    om = _omega(n)
    sp = Spectra(h)
    fs = [l > -atol for l in sp.of([[V[i][j] + h.I * om[i][j] * hbar / 2 for j in range(N)] for i in range(N)])]
    if which == "pure":
        fs.append(h.iseq(det([[2 * x / hbar for x in r] for r in V]), 1))
    if which == "classical":
        fs += [l > -atol for l in sp.of([[V[i][j] - (hbar / 2 if i == j else 0) for j in range(N)] for i in range(N)])]
    cov = h.array(V, shape=(N, N))
    got = bool(getattr(g, "is_%s_cov" % which)(cov, hbar=hbar))
    want = h.And(*(sym + fs))
    h.true("is_%s_cov accepts only such matrices" % which if got else "is_%s_cov rejects only others" % which, want if got else h.Not(want))


def _tol(h, which):
    """the tolerance and the default hbar = 2 reach the decision"""
    g = h.mod("thewalrus.quantum")
    a, b = h.real("a"), h.real("b")
    atol = h.pos("atol")
    cov = h.array([[a, 0], [0, b]], shape=(2, 2))
    sp = Spectra(h)
    fs = [l > -atol for l in sp.of([[a, h.I], [-h.I, b]])]
    if which == "pure":
        fs.append(h.iseq(a * b, 1))
    if which == "classical":
        fs += [l > -atol for l in sp.of([[a - 1, 0], [0, b - 1]])]
    got = bool(getattr(g, "is_%s_cov" % which)(cov, atol=atol))
    want = h.And(*fs)
    h.true("tolerance: accepts only such" if got else "tolerance: rejects only others", want if got else h.Not(want))


def _tol2(h, which):
    """two modes: the tolerance of the validity test reaches the purity and the classicality test"""
    g = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    t = h.pos("t")
    # unit purity for every t; violates the uncertainty relation unless t = 1
    d = [t, 1 / t, t, 1 / t] if which == "pure" else [t, h.num(3), t, h.num(3)]
    cov = h.array([[d[i] * hbar / 2 if i == j else h.num(0) for j in range(4)] for i in range(4)], shape=(4, 4))
    atol = h.num(1) / 10 ** 8
    if which == "pure":
        want = h.And((t - 1) * hbar / 2 > -atol, (1 / t - 1) * hbar / 2 > -atol)
    else:
        want = (t - 1) * hbar / 2 > -atol
    got = bool(getattr(g, "is_%s_cov" % which)(cov, hbar=hbar))
    h.true("accepts only valid" if got else "rejects only others", want if got else h.Not(want))


for w in ("valid", "pure", "classical"):
    case("C14", "unit-%s" % w, w, bounds="2 modes, a line of matrices of unit purity (or above vacuum in one mode), hbar")(_tol2)
for w in ("valid", "pure", "classical"):
    for k, b in (("1-all", "1 mode, every symmetric matrix, hbar"), ("2-all" if w != "pure" else "2-line", "2 modes, every symmetric matrix (purity: generic line), hbar"),
                 ("2-diag", "2 modes, every diagonal matrix, hbar"), ("1-asym", "1 mode, every real matrix, hbar")):
        case("C14", "%s-%s" % (w, k), w, k, bounds=b)(_pred)
    if w != "pure":
        case("C14", "%s-3-all" % w, w, "3-all", tier="quick" if w == "valid" else "thorough", bounds="3 modes, every symmetric matrix, hbar")(_pred)
    if w == "pure":
        case("C14", "%s-3-line" % w, w, "3-line", bounds="3 modes, generic line, hbar")(_pred)
    case("C14", "tol-" + w, w, bounds="1 mode, diagonal, hbar = 2, every atol > 0")(_tol)
case("C14", "valid-2-asym", "valid", "2-asym", bounds="2 modes, one pair of possibly different off-diagonal entries")(_pred)


def _shape(h):
    g = h.mod("thewalrus.quantum")
    s = h.mod("thewalrus.symplectic")
    r, c = h.choice("shape", [(1, 1), (3, 3), (2, 3), (4, 2), (2, 4), (5, 5)])
    a = h.real("a")
    A = h.array([[a if i == j else 0 for j in range(c)] for i in range(r)], shape=(r, c))
    f = h.choice("f", ["is_valid_cov", "is_pure_cov", "is_classical_cov", "is_symplectic", "s"])
    got = s.is_symplectic(A) if f == "s" else getattr(g, f)(A)
    h.true("a matrix of the wrong shape is rejected", not bool(got))


case("C14", "shapes", bounds="non-square and odd-sized matrices")(_shape)


def _sympl(h, n, mod, kind):
    m = h.mod(mod)
    N = 2 * n
    if kind == "all":
        S = [[h.real("s%d%d" % (i, j), kind="gen") for j in range(N)] for i in range(N)]
    elif kind == "gauss":  # (1 + strictly structured) products: symplectic iff the block is symmetric
        B = [[h.real("b%d%d" % (i, j)) for j in range(n)] for i in range(n)]
        up = h.choice("block", ["upper", "lower"])
        S = [[1 if i == j else 0 for j in range(N)] for i in range(N)]
        for i in range(n):
            for j in range(n):
                if up == "upper":
                    S[i][j + n] = B[i][j]
                else:
                    S[i + n][j] = B[i][j]
    else:  # linear: diag(A, D)
        S = [[0] * N for _ in range(N)]
        for i in range(n):
            for j in range(n):
                S[i][j] = h.real("a%d%d" % (i, j), kind="gen")
                S[i + n][j + n] = h.real("d%d%d" % (i, j), kind="gen")
    om = _omega(n)
    G = [[sum(S[k][i] * om[k][l] * S[l][j] for k in range(N) for l in range(N) if om[k][l]) for j in range(N)] for i in range(N)]
    got = bool(m.is_symplectic(h.array(S, shape=(N, N))))
    want = h.And(*[h.iseq(G[i][j], om[i][j]) for i in range(N) for j in range(i)])
    h.true("is_symplectic accepts only symplectic" if got else "is_symplectic rejects only others", want if got else h.Not(want))


for mod in ("thewalrus.quantum", "thewalrus.symplectic"):
    t = mod.rpartition(".")[2]
    for n, k in ((1, "all"), (2, "all"), (2, "gauss"), (3, "gauss"), (2, "diag")):
        case("C14", "symplectic-%s-%d-%s" % (t, n, k), n, mod, k, bounds="%d modes, %s" % (n, {"all": "every real matrix", "gauss": "every shear", "diag": "every block-diagonal matrix"}[k]), opts=dict(weight=90 if (n, k) == (2, "all") else 1))(_sympl)
    case("C14", "symplectic-%s-3-diag" % t, 3, mod, "diag", tier="thorough", bounds="3 modes, every block-diagonal matrix")(_sympl)


def _lit(h, which):
    """the tolerances rtol, atol reach the decision as documented (literal |a-b| <= atol + rtol |b|); in between both answers are allowed"""
    if h.symbolic:
        h.c.literal_tolerance = True
    given = h.choice("given", [False, True])
    if given:
        rt, at = h.real("rtol", 0, Fraction(1, 2)), h.real("atol", 0, Fraction(1, 2))
        kw = dict(rtol=rt, atol=at)
    else:
        rt, at, kw = Fraction(1, 10 ** 5), Fraction(1, 10 ** 8), {}
    g = h.mod("thewalrus.quantum")
    if which == "symmetric":
        # far from the uncertainty bound: only the asymmetry decides
        b, c = h.real("b", -1, 1), h.real("c", -1, 1)
        if h.symbolic:
            h.contract(eigvalsh=lambda m: h.array([h.num(2)] * 2, shape=(2,)))
        got = bool(g.is_valid_cov(h.array([[h.num(4), b], [c, h.num(4)]], ld="float", shape=(2, 2)), **kw))
        d = [(abs(b - c), abs(b), abs(c))]
        lo = h.And(*[h.Or(x <= at + rt * p, x <= at + rt * q) for x, p, q in d])
        hi = h.And(*[h.And(x <= at + rt * p, x <= at + rt * q) for x, p, q in d])
    elif which == "purity":
        k, u, hb = h.real("k", 1, 3), h.real("u", Fraction(1, 2), 2), h.real("hbar", Fraction(1, 2), 2)
        p = hb / (2 * k)
        if h.symbolic:
            h.contract(eigvalsh=lambda m: h.array([h.num(0), h.num(1)], shape=(2,)))
        got = bool(g.is_pure_cov(h.array([[k * u, h.num(0)], [h.num(0), k / u]], ld="float", shape=(2, 2)), hbar=hb, **kw))
        lo = hi = h.And(p - 1 <= at + rt, 1 - p <= at + rt)
        if not h.symbolic:
            # the uncertainty relation of the concrete matrix
            import numpy as np
            if min(np.linalg.eigvalsh(np.array([[k * u, 0.5j * hb], [-0.5j * hb, k / u]]))) < -float(at):
                lo = hi = False
    else:
        a, d = h.real("a", Fraction(1, 2), 2), h.real("d", Fraction(1, 2), 2)
        s = h.mod("thewalrus.symplectic")
        got = bool(s.is_symplectic(h.array([[a, h.num(0)], [h.num(0), d]], ld="float", shape=(2, 2)), **kw))
        x = a * d - 1
        lo = hi = h.And(x <= at + rt, -x <= at + rt)
    if got:
        h.true(which + ": accepts only within the tolerance", lo)
    else:
        h.true(which + ": rejects only outside of the tolerance", h.Not(hi))


for w in ("symmetric", "purity", "symplectic"):
    case("C14", "literal-" + w, w, bounds="1 mode, every tolerance rtol, atol in [0, 1/2] and the default ones, %s" % {"symmetric": "every pair of off-diagonal entries in [-1,1]", "purity": "every diagonal matrix of the family, hbar in [1/2,2]", "symplectic": "every diagonal matrix with entries in [1/2,2]"}[w])(_lit)
