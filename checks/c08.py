"""Torontonians equal their inclusion-exclusion definition and give the state's click probabilities.

Symbolic inputs: entries of the matrix O (one mode: all; two modes: planes through matrix space, all
entries in the thorough tier; three and four modes: lines), complex displacements, means, covariances
and hbar; click patterns are symbolic choices.  The domain I-O > 0 is an assumption on the symbolic entries.
Oracles: the signed sum over mode subsets; for states, the probability of vacuum on mode subsets.
Assumptions:
- exact arithmetic (floating-point rounding is outside the claim)
- det, inv and cholesky are executed symbolically (adjugate / Cholesky recurrences), not as LAPACK
- mode numbers bounded as listed per case; "line"/"plane" = generic affine family of matrices
"""
import random

from engine.harness import case
from .oracles import det, rows, subsets


def _sub(R, n, X):
    idx = list(X) + [x + n for x in X]
    return [[(1 if i == j else 0) - R[i][j] for j in idx] for i in idx]


def _family(h, n, nv, seed, herm=False):
    """O = O0/24 + sum t_k O_k/10, |O0| small: I-O is positive definite around t=0"""
    r = random.Random(seed)
    ts = [h.real("o_t%d" % k, kind="gen") for k in range(nv)]
    N = 2 * n
    e = [[0] * N for _ in range(N)]
    for i in range(N):
        for j in range(i, N):
            v = h.num(r.randint(-4, 4) or 1) / 24
            for t in ts:
                v = v + (r.randint(-3, 3) or 1) * t / 10
            if herm and i != j:
                w = h.num(r.randint(-4, 4) or 1) / 24
                for t in ts:
                    w = w + (r.randint(-3, 3) or 1) * t / 10
                v = v + h.I * w
            e[i][j] = v
            e[j][i] = h.conj(v) if herm else v
    return h.array(e, ld="complex" if herm else None, shape=(N, N))


def tor_def(h, R, n, gamma=None):
    t = 0
    for X in subsets(n):
        S = _sub(R, n, X)
        d = h.re(det(S))
        v = h.num((-1) ** (n - len(X))) / h.sqrt(d)
        if gamma is not None and X:
            g = [gamma[i] for i in X] + [gamma[i + n] for i in X]
            # gamma (I-O_XX)^-1 gamma^* by Cramer's rule
            dd = det(S)
            q = 0
            k = len(S)
            for i in range(k):
                col = [[h.conj(g[a]) if b == i else S[a][b] for b in range(k)] for a in range(k)]
                q = q + g[i] * det(col)
            v = v * h.exp(q / (2 * dd))
        t = t + v
    return t


def _pd(h, R, n):
    order = [x for k in range(n) for x in (k, k + n)]
    seen = set()
    for X in subsets(n):
        o = [x for x in order if x % n in X]
        for k in range(1, 2 * len(X) + 1):
            ii = o[:k]
            if tuple(ii) in seen:
                continue
            seen.add(tuple(ii))
            h.assume(h.re(det([[(1 if i == j else 0) - R[i][j] for j in ii] for i in ii])) > 0)


def _mat(h, n, fam, herm):
    if fam:
        return _family(h, n, max(fam, 0), 11 + n - min(fam, 0), herm)
    return h.hermitian("o", 2 * n) if herm else h.symmetric("o", 2 * n)


def _tor(h, n, rec, herm, fam):
    tw = h.mod("thewalrus")
    A = _mat(h, n, fam, herm)
    R = rows(A)
    _pd(h, R, n)
    h.eq("tor", tw.tor(A, recursive=rec), tor_def(h, R, n))


def _ltor(h, n, rec, herm, fam, gk):
    tw = h.mod("thewalrus")
    A = _mat(h, n, fam, herm)
    R = rows(A)
    _pd(h, R, n)
    if gk == "cplx":
        g = [h.cplx("g%d" % i) for i in range(2 * n)]
    elif gk == "real":
        g = [h.real("g%d" % i) for i in range(2 * n)]
    else:
        r = random.Random(3)
        g = [(h.num(r.randint(-4, 4) or 1) + h.I * r.randint(-3, 3)) / 4 for i in range(2 * n)]
    G = h.array(g, ld=None if gk == "real" else "complex", shape=(2 * n,))
    h.eq("ltor", tw.ltor(A, G, recursive=rec), tor_def(h, R, n, g))


for rec in (True, False):
    rn = "rec" if rec else "direct"
    for n, fam, w in ((0, 0, 1), (1, 0, 1), (2, 2, 5), (3, 1, 30)):
        case("C08", "tor-%d-%s" % (n, rn), n, rec, False, fam, bounds="%d modes, %s real symmetric O" % (n, "all" if not fam else "%d-parameter family of" % fam), opts=dict(weight=w))(_tor)
    for n, fam, w in ((1, 0, 1), (2, 1, 5)):
        case("C08", "tor-herm-%d-%s" % (n, rn), n, rec, True, fam, bounds="%d modes, %s Hermitian O" % (n, "all" if not fam else "%d-parameter family of" % fam), opts=dict(weight=w))(_tor)
    case("C08", "tor-full-2-%s" % rn, 2, rec, False, 0, tier="thorough", bounds="2 modes, every real symmetric O", opts=dict(weight=100))(_tor)
    case("C08", "tor-line-4-%s" % rn, 4, rec, False, 1, tier="thorough", bounds="4 modes, generic line", opts=dict(weight=100))(_tor)
    case("C08", "ltor-1-%s" % rn, 1, rec, False, 0, "cplx", bounds="1 mode, all real symmetric O, all complex displacements", opts=dict(weight=9))(_ltor)
    case("C08", "ltor-1-real-%s" % rn, 1, rec, False, 0, "real", bounds="1 mode, all real symmetric O, all real displacements", opts=dict(weight=9))(_ltor)
    case("C08", "ltor-herm-1-%s" % rn, 1, rec, True, 0, "cplx", bounds="1 mode, all Hermitian O, all complex displacements", opts=dict(weight=9))(_ltor)
    case("C08", "ltor-2-%s" % rn, 2, rec, False, 1, "const", bounds="2 modes, generic line, fixed complex displacement", opts=dict(weight=9))(_ltor)
    for k in range(2):
        case("C08", "ltor-2-disp%d-%s" % (k, rn), 2, rec, False, -1 - k, "real" if k == 0 else "cplx", bounds="2 modes, fixed O, all %s displacements" % ("real" if k == 0 else "complex"), opts=dict(weight=9))(_ltor)
    case("C08", "ltor-0-%s" % rn, 0, rec, False, 0, "const", bounds="no modes")(_ltor)
    case("C08", "ltor-3-%s" % rn, 3, rec, False, 1, "const", tier="thorough", bounds="3 modes, generic line, fixed complex displacement", opts=dict(weight=90))(_ltor)


from .gauss import add_diag, click_prob, cov_family, cov_full, posdef, posdef_all  # noqa: E402
from itertools import product  # noqa: E402


def _thr(h, n, nv, disp, given):
    tw = h.mod("thewalrus")
    hbar = h.pos("hbar") if given else h.num(2)
    if nv is None:
        V = cov_full(h, n)
        posdef(h, V)
    else:
        V = cov_family(h, n, hbar, nv, 5)
    posdef_all(h, add_diag(V, hbar / 2))
    det_p = h.choice("pattern", [list(p) for p in product((0, 1), repeat=n)])
    if disp == "zero":
        mu = [0] * (2 * n)
    elif disp == "all":
        mu = [h.real("mu%d" % i) for i in range(2 * n)]
        h.assume(h.Or(*[h.Not(h.iseq(x, 0)) for x in mu]))
    else:
        mu = [h.num(k + 1) / 3 for k in range(2 * n)]
    kw = dict(hbar=hbar) if given else {}
    kw.update(atol=0.0, rtol=0.0)
    got = tw.threshold_detection_prob(h.array(mu, shape=(2 * n,)), h.array(V), h.np.array(det_p), **kw)
    h.eq("threshold_detection_prob", got, click_prob(h, V, None if disp == "zero" else mu, n, det_p, hbar))


for nm, a, tier in (("1-zero", (1, None, "zero", True), None), ("1-disp", (1, None, "all", True), None), ("1-disp-default", (1, None, "all", False), None),
                    ("2-zero", (2, 1, "zero", True), None), ("2-disp", (2, 1, "const", True), None), ("2-alldisp", (2, 0, "all", True), None),
                    ("3-zero", (3, 0, "zero", True), None), ("3-disp", (3, 0, "const", True), None),
                    ("3-alldisp", (3, 0, "all", True), "thorough"), ("2-full-zero", (2, 2, "zero", True), "thorough")):
    case("C08", "threshold-" + nm, *a, tier=tier or "quick", bounds="%d modes, %s covariances, %s displacement, every click pattern, %s" % (a[0], "all" if a[1] is None else "%d-parameter family of" % a[1], a[2], "all hbar" if a[3] else "default hbar"), opts=dict(weight=10))(_thr)
