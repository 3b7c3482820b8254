"""Fock-space gate tensors are those of the Gaussian gates.

Symbolic inputs: all gate parameters (magnitudes and angles), displacements, the parameter of the Choi expansion.
Oracle: the kernel <z|G|w> of a Gaussian unitary with Heisenberg action G^dag a_k G = sum_j c_kj a_j + s_kj a_j^dag + alpha_k is the exponential of
a quadratic form computed from c, s, alpha; its Taylor coefficients (sum over matchings with loops) are compared with every entry of the tensor;
also the Heisenberg relations themselves, entry by entry.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality
- mode numbers and cutoffs bounded as listed per case
"""
from fractions import Fraction
from itertools import product

from engine.harness import case
from .oracles import det, expand_reps, fact, haf


def _inv(M):
    n = len(M)
    d = det(M)
    if n == 1:
        return [[1 / d]]
    minor = lambda a, b: det([[M[x][y] for y in range(n) if y != b] for x in range(n) if x != a])
    return [[(-1) ** (a + b) * minor(b, a) / d for b in range(n)] for a in range(n)]


def _mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def _cc(h, A):
    return [[h.conj(x) for x in r] for r in A]


def kernel(h, c, s, al):
    """(N, A, g) with <z*|G|w> e^{..} = N exp(1/2 u^T A u + g u), u = (z*, w); phase convention: G_00 > 0 without displacement"""
    n = len(c)
    ci = _inv(_cc(h, c))
    B = _mm(s, ci)
    D = [[-x for x in r] for r in _mm(ci, _cc(h, s))]
    A = [[0] * (2 * n) for _ in range(2 * n)]
    for i in range(n):
        for j in range(n):
            A[i][j] = B[i][j]
            A[i + n][j + n] = D[i][j]
            A[i][j + n] = A[j + n][i] = ci[j][i]
    d = det(c)
    N = 1 / h.sqrt(h.sqrt(h.re(d * h.conj(d))))
    if al is None:
        return N, A, None
    ac = [h.conj(x) for x in al]
    r = [-sum(ci[i][j] * ac[j] for j in range(n)) for i in range(n)]
    l = [al[i] + sum(s[i][j] * r[j] for j in range(n)) for i in range(n)]
    e = -sum(al[i] * ac[i] for i in range(n)) / 2
    for i in range(n):
        for j in range(n):
            e = e + ac[i] * B[i][j] * ac[j] / 2
    return N * h.exp(e), A, l + r


def entry(h, ker, ix):
    N, A, g = ker
    f = 1
    for k in ix:
        f *= fact(k)
    return N * haf(A, expand_reps(ix), loop=g is not None, D=g) / h.sqrt(h.num(f))


def heisenberg(h, T, c, s, al, cutoff):
    """a_k T = T (c a + s a^dag + al)_k and a_k^dag T = T (c* a^dag + s* a + al*)_k on the entries inside the cutoff"""
    n = len(c)
    e = [tuple(1 if i == k else 0 for i in range(n)) for k in range(n)]
    up = lambda m, k: tuple(a + b for a, b in zip(m, e[k]))
    dn = lambda m, k: tuple(a - b for a, b in zip(m, e[k]))
    rt = lambda x: h.sqrt(h.num(x))
    for m in product(range(cutoff), repeat=n):
        for p in product(range(cutoff - 1), repeat=n):
            for k in range(n):
                R = al[k] * T[m + p] if al is not None else 0
                Q = h.conj(al[k]) * T[m + p] if al is not None else 0
                for j in range(n):
                    U = rt(p[j] + 1) * T[m + up(p, j)]
                    L = rt(p[j]) * T[m + dn(p, j)] if p[j] else 0
                    R = R + c[k][j] * L + s[k][j] * U
                    Q = Q + h.conj(c[k][j]) * U + h.conj(s[k][j]) * L
                if m[k] + 1 < cutoff:
                    h.eq("a%d %s %s" % (k, m, p), rt(m[k] + 1) * T[up(m, k) + p], R)
                h.eq("adag%d %s %s" % (k, m, p), rt(m[k]) * T[dn(m, k) + p] if m[k] else h.num(0), Q)


def gate(h, name, r, phi):
    """Heisenberg action (c, s, alpha) of a gate from its definition"""
    e = lambda x: h.cos(x) + h.I * h.sin(x)
    z, o = h.num(0), h.num(1)
    if name == "displacement":
        return [[o]], [[z]], [r * e(phi)]
    if name == "squeezing":
        return [[h.cosh(r)]], [[-e(phi) * h.sinh(r)]], None
    if name == "two_mode_squeezing":
        t = e(phi) * h.sinh(r)
        return [[h.cosh(r), z], [z, h.cosh(r)]], [[z, t], [t, z]], None
    if name == "beamsplitter":
        return [[h.cos(r), -e(-phi) * h.sin(r)], [e(phi) * h.sin(r), h.cos(r)]], [[z, z], [z, z]], None
    u, v = e(phi), e(r)
    return [[u * (v - 1) / 2, h.I * (1 + v) / 2], [h.I * u * (1 + v) / 2, (1 - v) / 2]], [[z, z], [z, z]], None


GATES = {"displacement": 1, "squeezing": 1, "two_mode_squeezing": 2, "beamsplitter": 2, "mzgate": 2}


def params(h, name):
    if name in ("beamsplitter", "mzgate"):
        r = h.real("r", -4, 4)
    else:
        r = h.real("r", -2, 2)
    return r, h.real("phi", -4, 4)


def _gate(h, name, cutoff):
    fg = h.mod("thewalrus.fock_gradients")
    n = GATES[name]
    r, phi = params(h, name)
    c, s, al = gate(h, name, r, phi)
    T = getattr(fg, name)(r, phi, cutoff)
    h.true("shape", T.shape == (cutoff,) * (2 * n))
    ker = kernel(h, c, s, al)
    for ix in product(range(cutoff), repeat=2 * n):
        h.eq("%s%s" % (name, ix), T[ix], entry(h, ker, ix))


def _heis(h, name, cutoff):
    fg = h.mod("thewalrus.fock_gradients")
    r, phi = params(h, name)
    c, s, al = gate(h, name, r, phi)
    heisenberg(h, getattr(fg, name)(r, phi, cutoff), c, s, al, cutoff)


for name, cs, tc in (("displacement", (1, 5), 8), ("squeezing", (1, 2, 7), 10), ("two_mode_squeezing", (1, 4), 5), ("beamsplitter", (1, 4), 5), ("mzgate", (1, 3), 4)):
    for c in cs:
        case("C22", "%s-%d" % (name, c), name, c, bounds="every parameter, cutoff %d" % c, opts=dict(weight=c))(_gate)
    case("C22", "%s-%d" % (name, tc), name, tc, tier="thorough", bounds="every parameter, cutoff %d" % tc, opts=dict(weight=tc))(_gate)
for name, c in (("displacement", 4), ("squeezing", 5), ("two_mode_squeezing", 3), ("beamsplitter", 3), ("mzgate", 3)):
    case("C22", "heisenberg-%s-%d" % (name, c), name, c, bounds="every parameter, cutoff %d" % c, opts=dict(weight=c))(_heis)


def _sympl(h, c, s):
    n = len(c)
    S = [[None] * (2 * n) for _ in range(2 * n)]
    for i in range(n):
        for j in range(n):
            p, m = c[i][j] + s[i][j], c[i][j] - s[i][j]
            S[i][j] = h.re(p)
            S[i + n][j + n] = h.re(m)
            S[i + n][j] = h.im(p)
            S[i][j + n] = -h.im(m)
    return S


def _tensor(h, name, cutoff, disp, sf, default):
    q = h.mod("thewalrus.quantum")
    z = h.num(0)
    if name == "squeeze-beam":
        # active two-mode gate with fixed angles: beam splitter (3/5, 4/5) after squeezers
        e1, e2 = h.pos("e1") if disp == "zero" else h.num(2), h.num(3) / 2
        n = 2
        a, b = (e1 + 1 / e1) / 2, (e2 + 1 / e2) / 2
        p, m = (e1 - 1 / e1) / 2, h.I * (e2 - 1 / e2) / 2
        C, Sg = h.num(3) / 5, h.num(4) / 5 * h.I
        c = [[C * a, Sg * b], [Sg * a, C * b]]
        s = [[C * p, Sg * m], [Sg * p, C * m]]
    elif name == "squeezed":
        n, e = 1, h.pos("e")
        f = (h.num(3) + 4 * h.I) / 5
        c, s = [[(e + 1 / e) / 2]], [[-f * (e - 1 / e) / 2]]
        h.assume(h.Or(e * 10 > 11, e * 10 < 9))
    elif name == "identity":
        n, c, s = 1, [[h.num(1)]], [[z]]
    else:
        n = GATES[name]
        if name in ("squeezing", "two_mode_squeezing"):
            r, phi = h.real("r", Fraction(1, 8), 2), h.real("phi", -4, 4)
        else:
            r, phi = params(h, name)
        c, s, _ = gate(h, name, r, phi)
    if name == "squeeze-beam" and disp == "zero":
        h.assume(h.Or(e1 * 10 > 11, e1 * 10 < 9))
    S = _sympl(h, c, s)
    if disp == "zero":
        al, arr = None, [h.num(0)] * n
    elif disp == "const":
        al = arr = [(h.num(1) + (i - 2) * h.I) / 3 for i in range(n)]
    else:
        al = arr = [h.cplx("al%d" % i) for i in range(n)]
        h.assume(h.re(al[0]) * 10 >= 1)
    kw = dict(choi_r=h.log(h.num(3) if disp == "const" and n > 1 else h.pos("choi") + 1))
    T = q.fock_tensor(h.array(S, shape=(2 * n, 2 * n)), h.array(arr, ld="complex", shape=(n,)), cutoff, sf_order=sf, **kw)
    h.true("shape", T.shape == (cutoff,) * (2 * n))
    ker = kernel(h, c, s, al)
    for ix in product(range(cutoff), repeat=2 * n):
        at = tuple(x for i in range(n) for x in (ix[i], ix[i + n])) if sf else ix
        h.eq("T%s" % (ix,), T[at], entry(h, ker, ix))


for name, c, disp, sf, t in (("identity", 3, "zero", False, "quick"), ("identity", 4, "all", False, "quick"), ("squeezed", 4, "zero", False, "quick"), ("squeezed", 3, "const", False, "quick"), ("squeezed", 3, "all", False, "thorough"),
                             ("squeezing", 4, "zero", True, "quick"), ("beamsplitter", 3, "zero", False, "quick"), ("beamsplitter", 3, "zero", True, "quick"), ("mzgate", 3, "zero", False, "quick"),
                             ("squeeze-beam", 2, "zero", False, "quick"), ("squeeze-beam", 2, "const", True, "quick"), ("two_mode_squeezing", 2, "zero", False, "quick"), ("beamsplitter", 2, "const", False, "quick"),
                             ("squeeze-beam", 3, "const", False, "thorough"), ("two_mode_squeezing", 3, "zero", True, "thorough"), ("beamsplitter", 4, "zero", False, "thorough")):
    case("C22", "tensor-%s-%d-%s%s" % (name, c, disp, "-sf" if sf else ""), name, c, disp, sf, False, tier=t,
         bounds="%s gate, %s displacement, every Choi parameter, cutoff %d" % (name, disp, c), opts=dict(weight=c))(_tensor)


def _tensor_bad(h):
    q = h.mod("thewalrus.quantum")
    x = h.real("x", 2, 3)
    D = h.array([[x, h.num(0)], [h.num(0), x]], shape=(2, 2))
    I2 = h.array([[h.num(1), h.num(0)], [h.num(0), h.num(1)]], shape=(2, 2))
    z = lambda k: h.array([h.num(0)] * k, ld="complex", shape=(k,))
    h.raises("not symplectic", lambda: q.fock_tensor(D, z(1), 2), ValueError)
    h.raises("dimensions", lambda: q.fock_tensor(I2, z(2), 2), ValueError)


case("C22", "tensor-bad", bounds="multiples of the identity, wrong displacement length")(_tensor_bad)
