"""Random matrix generators return matrices of the promised class.

Symbolic inputs: the outcome of every random draw, the factors of the QR decomposition, the interferometers the other generators are built from,
hbar, scale.
Oracles: U U^dagger = 1 (O O^T = 1 when real), S Omega S^T = Omega, covariances whose inverse-symplectic image is diag(n, n) with n >= 1
(n = 1 for pure states), zero patterns of block and banded matrices.  The interferometer must not depend on the phase convention of the QR
decomposition, and the matrix decomposed has independent entries of equal variance (a multiple of the Ginibre ensemble): together the Haar measure.
Assumptions:
- exact arithmetic; scipy.linalg.qr replaced by its contract (some unitary q and some upper triangular r with non-vanishing diagonal)
- the generators built on random_interferometer / random_symplectic are decided for every unitary (symplectic) of the families below in their place
- sizes bounded as listed per case
"""
from fractions import Fraction

from engine.harness import case
from .c27 import gates
from .oracles import rows

MOD = "thewalrus.random"


def _phase(h, name, real, n=1):
    if real and n > 2:
        return h.num(-1 if int(name[1:]) % 2 else 1)
    if real:
        return h.num(h.choice(name, [1, -1]))
    t = h.real(name, -5, 5)
    return (1 - t * t + 2 * h.I * t) / (1 + t * t)


def _rot(h, U, i, j, t):
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    U[i], U[j] = [c * x - s * y for x, y in zip(U[i], U[j])], [s * x + c * y for x, y in zip(U[i], U[j])]


def unitary(h, name, n, real, sym=True):
    """n = 1, 2 (sym): every unitary but a null set; else products of fixed rotations with symbolic phases (or none)"""
    F = Fraction
    U = [[h.num(1) if i == j else h.num(0) for j in range(n)] for i in range(n)]
    fix = [h.num(F(3, 5)) + h.I * h.num(F(4, 5)), h.num(F(5, 13)) - h.I * h.num(F(12, 13)), h.I + h.num(0), h.num(-1)]
    ph = lambda k: (h.num([1, -1, -1, 1][k % 4]) if real else fix[k % 4]) if not sym or sym == "rot" else _phase(h, "%s_p%d" % (name, k), real)
    for i in range(n):
        if i or not sym or n == 1:
            U[i][i] = ph(i)
    for i in range(n - 1):
        _rot(h, U, i, i + 1, h.real("%s_t%d" % (name, i), -5, 5) if sym and n <= 3 else h.num(F(1, 2 + i)))
    if n > 1 and sym:
        for i in range(n if n == 2 else 1):
            p = ph(n + i)
            U[i] = [p * x for x in U[i]]
    return U


def mm(*Ms):
    R = Ms[0]
    for M in Ms[1:]:
        R = [[sum((R[i][k] * M[k][j] for k in range(len(M))), 0) for j in range(len(M[0]))] for i in range(len(R))]
    return R


def dag(h, U):
    return [[h.conj(U[j][i]) for j in range(len(U))] for i in range(len(U[0]))]


def eye(h, n):
    return h.array([[h.num(1 if i == j else 0) for j in range(n)] for i in range(n)], shape=(n, n))


def arr(h, M, ld="float"):
    return h.array(M, ld=ld, shape=(len(M), len(M[0])))


def _rows(h, A):
    return [list(r) for r in rows(A)]


def _draws(h, m):
    """standard normal draws: symbols, or unit vectors"""
    syms = {}

    def randn(*shape):
        n = 1
        for s in shape:
            n *= s
        v = []
        for _ in range(n):
            k = m["pos"]
            m["pos"] += 1
            if m["one"] == "sym" and k not in syms:
                syms[k] = h.real("z%d" % k, -3, 3)
            v.append(syms[k] if m["one"] == "sym" else h.num(1 if m["one"] == k else 0))
        return h.array(_shape(v, shape), ld="float", shape=shape) if shape else v[0]

    h.rng(randn=randn, standard_normal=lambda size=None: randn(*(() if size is None else size if isinstance(size, tuple) else (size,))),
          normal=lambda loc=0, scale=1, size=None: loc + scale * randn(*(() if size is None else size if isinstance(size, tuple) else (size,))))
    return syms


def _shape(v, shape):
    if len(shape) == 1:
        return v
    k = len(v) // shape[0]
    return [_shape(v[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])]


def _interferometer(h, n, real):
    m = h.mod(MOD)
    st = dict(one=None, pos=0)
    sym = _draws(h, st)
    ld = "float" if real else "complex"
    Q = unitary(h, "q", n, real, "rot" if real and n > 2 else True)
    R = [[(h.real("r%d%d" % (i, j)) if real else h.cplx("r%d%d" % (i, j))) if j >= i else h.num(0) for j in range(n)] for i in range(n)]
    for i in range(n):
        # positive moduli that are rational functions: diagonal = modulus * phase
        R[i][i] = h.real("d%d" % i, Fraction(1, 10), 10) * _phase(h, "f%d" % i, real, n)
    L = [_phase(h, "l%d" % (i + 1), real, n) for i in range(n)]
    Q2 = [[Q[i][j] * L[j] for j in range(n)] for i in range(n)]
    R2 = [[h.conj(L[i]) * R[i][j] for j in range(n)] for i in range(n)]
    cur = []
    got = []

    def qr(orig, z, *a, **k):
        got.append(_rows(h, z))
        return (arr(h, cur[0][0], ld), arr(h, cur[0][1], ld))

    h.linalg("qr", qr)
    kw = dict(real=True) if real else {}
    cur[:] = [(Q, R)]
    U = m.random_interferometer(n, **kw)
    h.true("shape", tuple(U.shape) == (n, n))
    W = _rows(h, U)
    h.eq("unitary", arr(h, mm(W, dag(h, W)), ld), eye(h, n))
    if real:
        h.eq("real", h.array([h.im(x) for r in W for x in r], shape=(n * n,)), h.array([h.num(0)] * (n * n), shape=(n * n,)))
    cur[:] = [(Q2, R2)]
    h.eq("independent of the phase convention of the decomposition", m.random_interferometer(n, **kw), U)
    # law of the matrix decomposed: linear in independent standard normal draws
    st["pos"], st["one"] = 0, None
    del got[:]
    m.random_interferometer(n, **kw)
    N = st["pos"]
    base = got[0]
    cols = []
    for k in range(N):
        st["pos"], st["one"] = 0, k
        m.random_interferometer(n, **kw)
        cols.append([x - y for r, b in zip(got[-1], base) for x, y in zip(r, b)])
    st["pos"], st["one"] = 0, "sym"
    m.random_interferometer(n, **kw)
    M = n * n
    full = [x for r in got[-1] for x in r]
    lin = [sum(cols[k][a] * sym[k] for k in range(N)) + base[a // n][a % n] for a in range(M)]
    h.eq("centred", h.array([x for r in base for x in r], ld="complex", shape=(M,)), h.array([h.num(0)] * M, shape=(M,)))
    c = sum(cols[k][0] * h.conj(cols[k][0]) for k in range(N)) + h.num(0)
    h.true("not degenerate", h.re(c) > 0)
    h.eq("covariance", h.array([[sum(cols[k][a] * h.conj(cols[k][b]) for k in range(N)) + h.num(0) for b in range(M)] for a in range(M)], ld="complex", shape=(M, M)),
         h.array([[c if a == b else h.num(0) for b in range(M)] for a in range(M)], ld="complex", shape=(M, M)))
    h.eq("pseudo-covariance", h.array([[sum(cols[k][a] * cols[k][b] for k in range(N)) + h.num(0) for b in range(M)] for a in range(M)], ld="complex", shape=(M, M)),
         h.array([[c if a == b and real else h.num(0) for b in range(M)] for a in range(M)], ld="complex", shape=(M, M)))
    h.eq("linear", h.array(full, ld="complex", shape=(M,)), h.array(lin, ld="complex", shape=(M,)))


for n, re in ((1, False), (1, True), (2, False), (2, True), (3, True), (3, False)):
    case("C33", "interferometer-%d-%s" % (n, "real" if re else "complex"), n, re, bounds="%d modes, %s, every QR decomposition (n <= 2: every; n = 3: a family)" % (n, "real" if re else "complex"), opts=dict(weight=n * n))(_interferometer)


class Inter:
    """random_interferometer in its place: any unitary of the requested kind"""

    def __init__(self, h, sym=True):
        self.h, self.calls, self.sym = h, [], sym
        h.wrap(MOD, "random_interferometer", self.call)

    def call(self, orig, N, real=False):
        h = self.h
        U = unitary(h, "u%d" % len(self.calls), N, bool(real), self.sym)
        self.calls.append((N, bool(real), U))
        return arr(h, U, "float" if real else "complex")


def _omega(h, n):
    return [[h.num(1) if j == i + n else h.num(-1) if i == j + n else h.num(0) for j in range(2 * n)] for i in range(2 * n)]


def tr(S):
    return [list(x) for x in zip(*S)]


def _symplectic(h, n, passive, block, scaled):
    m = h.mod(MOD)
    st = dict(one="sym", pos=0)
    _draws(h, st)
    it = Inter(h, n < 2)
    kw = {}
    if passive:
        kw["passive"] = True
    if block:
        kw["block_diag"] = True
    if scaled:
        kw["scale"] = h.real("scale", Fraction(1, 10), 3)
    S = m.random_symplectic(n, **kw)
    h.true("shape", tuple(S.shape) == (2 * n, 2 * n))
    S = _rows(h, S)
    om = _omega(h, n)
    h.eq("symplectic", arr(h, mm(S, om, tr(S))), arr(h, om))
    h.true("real interferometers exactly when block diagonal", all(r == block for _, r, _ in it.calls))
    if passive:
        h.eq("passive", arr(h, mm(S, tr(S))), eye(h, 2 * n))
        h.eq("keeps phases", arr(h, mm(S, om)), arr(h, mm(om, S)))
        U = it.calls[0][2]
        h.eq("the interferometer drawn", arr(h, S), arr(h, [[h.re(x) for x in r] + [-h.im(x) for x in r] for r in U] + [[h.im(x) for x in r] + [h.re(x) for x in r] for r in U]))
    if block:
        z = [S[i][j + n] for i in range(n) for j in range(n)] + [S[i + n][j] for i in range(n) for j in range(n)]
        h.eq("positions and momenta do not mix", h.array(z, shape=(len(z),)), h.array([h.num(0)] * len(z), shape=(len(z),)))


for n in (1, 2, 3):
    for p in (False, True):
        for b in (False, True):
            case("C33", "symplectic-%d-%s%s" % (n, "passive" if p else "active", "-block" if b else ""), n, p, b, n == 1, bounds="%d modes, %s, every draw" % (n, "every interferometer" if n == 1 else "a family of interferometers"), opts=dict(weight=n))(_symplectic)


def _scale(h, n):
    """the squeezing parameters are scale times a modulus of one law: compare with scale = 1 under the same draws and trivial interferometers"""
    m = h.mod(MOD)
    st = dict(one="sym", pos=0)
    zs = {}

    def randn(*shape):
        v = []
        for i in range(shape[0] if shape else 1):
            k = st["pos"]
            st["pos"] += 1
            if k not in zs:
                zs[k] = h.real("z%d" % k, Fraction(1, 10), 3)
            v.append(zs[k])
        return h.array(v, ld="float", shape=shape) if shape else v[0]

    h.rng(randn=randn)
    h.wrap(MOD, "random_interferometer", lambda orig, N, real=False: arr(h, [[h.num(1 if i == j else 0) for j in range(N)] for i in range(N)], "float" if real else "complex"))
    d = []
    for s in (None, h.num(1), h.real("scale", Fraction(1, 10), 2)):
        st["pos"] = 0
        S = _rows(h, m.random_symplectic(n, **({} if s is None else dict(scale=s))))
        d.append([h.log(S[i + n][i + n]) for i in range(n)])
        h.eq("momenta squeezed inversely %d" % len(d), h.array([S[i][i] * S[i + n][i + n] for i in range(n)], shape=(n,)), h.array([h.num(1)] * n, shape=(n,)))
        sc = h.num(1) if s is None else s
        h.eq("squeezing %d" % len(d), h.array([S[i + n][i + n] for i in range(n)], shape=(n,)), h.array([h.exp(sc * h.sqrt(zs[i] ** 2 + zs[i + n] ** 2)) for i in range(n)], shape=(n,)))


case("C33", "scale-2", 2, bounds="2 modes, every scale and draw")(_scale)


def _covariance(h, n, pure, block, default):
    m = h.mod(MOD)
    hbar = h.num(2) if default else h.real("hbar", Fraction(1, 100), 100)
    S = gates(h, n, "all" if n == 1 else "const") if not block else [[(h.real("e%d" % (i % n), Fraction(1, 4), 4) if i < n else 1 / h.real("ee%d" % i, 1, 2)) if i == j else h.num(0) for j in range(2 * n)] for i in range(2 * n)]
    if block:
        e = [S[i][i] for i in range(n)]
        for i in range(n):
            S[i + n][i + n] = 1 / e[i]
        if n > 1:
            c, s = h.num(Fraction(3, 5)), h.num(Fraction(4, 5))
            for o in (0, n):
                S[o], S[o + 1] = [c * x - s * y for x, y in zip(S[o], S[o + 1])], [s * x + c * y for x, y in zip(S[o], S[o + 1])]
    seen = []

    def rs(orig, N, passive=False, block_diag=False, scale=1.0):
        seen.append((N, bool(passive), bool(block_diag)))
        return arr(h, S)

    h.wrap(MOD, "random_symplectic", rs)

    def random(size=None):
        k = 1 if size is None else int(size[0] if isinstance(size, tuple) else size)
        v = [h.real("th%d" % i, 0, 1) for i in range(k)]
        return v[0] if size is None else h.array(v, ld="float", shape=(k,))

    h.rng(random=random, rand=lambda *a: random(a[0] if a else None))
    kw = {}
    if not default:
        kw["hbar"] = hbar
    if pure:
        kw["pure"] = True
    if block:
        kw["block_diag"] = True
    V = m.random_covariance(n, **kw)
    h.true("shape", tuple(V.shape) == (2 * n, 2 * n))
    h.true("symplectic drawn as asked", seen == [(n, False, block)])
    V = _rows(h, V)
    h.eq("symmetric", arr(h, V), arr(h, tr(V)))
    om = _omega(h, n)
    # inverse of a symplectic matrix: -Omega S^T Omega
    Si = [[-x for x in r] for r in mm(om, tr(S), om)]
    D = mm(Si, V, tr(Si))
    D = [[2 * x / hbar for x in r] for r in D]
    off = [D[i][j] for i in range(2 * n) for j in range(2 * n) if i != j]
    h.eq("thermal form", h.array(off, shape=(len(off),)), h.array([h.num(0)] * len(off), shape=(len(off),)))
    h.eq("symmetric thermal state", h.array([D[i][i] for i in range(n)], shape=(n,)), h.array([D[i + n][i + n] for i in range(n)], shape=(n,)))
    for i in range(n):
        if pure:
            h.eq("pure %d" % i, D[i][i], h.num(1))
        else:
            h.true("physical %d" % i, h.re(D[i][i]) >= 1)
    if block:
        z = [V[i][j + n] for i in range(n) for j in range(n)]
        h.eq("block diagonal", h.array(z, shape=(n * n,)), h.array([h.num(0)] * (n * n), shape=(n * n,)))


for n, p, b, d in ((1, False, False, False), (1, True, False, False), (1, False, True, False), (2, False, False, False), (2, True, False, True), (2, False, True, True), (2, True, True, False), (3, False, False, False), (3, True, False, False), (1, False, False, True)):
    case("C33", "covariance-%d%s%s%s" % (n, "-pure" if p else "", "-block" if b else "", "-default" if d else ""), n, p, b, d,
         bounds="%d modes, %s symplectic, every draw, %s" % (n, "every" if n == 1 and not b else "a family of", "hbar 2" if d else "every hbar"), opts=dict(weight=n))(_covariance)


def _block(h, top):
    m = h.mod(MOD)
    N = h.choice("N", list(range(1, top + 1)))
    one = h.choice("top_one", [None, True, False])
    real = h.choice("real", [False, True])
    it = Inter(h, "rot" if real else True)
    kw = dict(real=real)
    if one is not None:
        kw["top_one"] = one
    U = m.random_block_interferometer(N, **kw)
    h.true("shape", tuple(U.shape) == (N, N))
    one = True if one is None else one
    sizes = []
    left = N
    if one or N == 1:
        sizes.append(1)
        left -= 1
    sizes += [2] * (left // 2) + [1] * (left % 2)
    W = _rows(h, U)
    where = []
    for k, s in enumerate(sizes):
        where += [k] * s
    off = [W[i][j] for i in range(N) for j in range(N) if where[i] != where[j]]
    if off:
        h.eq("nothing outside the blocks", h.array(off, ld="complex", shape=(len(off),)), h.array([h.num(0)] * len(off), shape=(len(off),)))
    h.eq("unitary", arr(h, mm(W, dag(h, W)), "complex"), eye(h, N))
    h.true("each block drawn", sorted(c[0] for c in it.calls) == sorted(sizes) and all(c[1] == real for c in it.calls))
    # every block is another one of those drawn
    same = lambda A, B: len(A) == len(B) and all(((x - y).is_zero() if h.symbolic else abs(x - y) < 1e-9) for r, q in zip(A, B) for x, y in zip(r, q))
    free = [c[2] for c in it.calls]
    p = 0
    for k, s in enumerate(sizes):
        B = [[h.num(0) + x for x in r[p:p + s]] for r in W[p:p + s]]
        p += s
        hit = [i for i, c in enumerate(free) if same(B, c)]
        h.true("block %d is one drawn" % k, bool(hit))
        if hit:
            free.pop(hit[0])


case("C33", "block", 6, bounds="1 to 6 modes, real and complex, both positions of the 1x1 block, every interferometer of size 1 and 2", opts=dict(weight=3))(_block)


def _banded(h, top):
    m = h.mod(MOD)
    it = Inter(h, False)
    N = h.choice("N", list(range(1, top + 1)))
    w = h.choice("w", list(range(0, top + 1)))
    one = h.choice("top_one_init", [None, True, False])
    real = h.choice("real", [False, True])
    kw = dict(real=real)
    if one is not None:
        kw["top_one_init"] = one
    if w > N - 1:
        h.raises("bandwidth too large", lambda: m.random_banded_interferometer(N, w, **kw), ValueError)
        return
    U = m.random_banded_interferometer(N, w, **kw)
    h.true("shape", tuple(U.shape) == (N, N))
    W = _rows(h, U)
    off = [W[i][j] for i in range(N) for j in range(N) if abs(i - j) > w]
    if off:
        h.eq("banded", h.array(off, ld="complex", shape=(len(off),)), h.array([h.num(0)] * len(off), shape=(len(off),)))
    h.eq("unitary", arr(h, mm(W, dag(h, W)), "complex"), eye(h, N))
    h.true("kind", all(c[1] == real for c in it.calls))
    if w:
        h.true("the band is used", h.Or(*[h.Not(h.iseq(W[i][j], 0)) for i in range(N) for j in range(N) if abs(i - j) == w]) if h.symbolic else any(abs(W[i][j]) > 1e-12 for i in range(N) for j in range(N) if abs(i - j) == w))


case("C33", "banded-4", 4, bounds="1 to 4 modes, every bandwidth, real and complex, both initial positions, fixed blocks", opts=dict(weight=3))(_banded)
case("C33", "banded-6", 6, tier="thorough", bounds="1 to 6 modes, every bandwidth, fixed blocks", opts=dict(weight=3))(_banded)
