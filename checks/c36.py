"""Invalid inputs are rejected and valid ones accepted.

Symbolic inputs: the matrix entries, the deviation from symmetry, the tolerances rtol and atol, the position of a NaN, of a negative or of a
complex entry, shapes, lengths and repetition numbers; the function itself is a choice where several share a domain.
Oracle: the documented domain: with rtol, atol >= 0 a matrix whose entries differ from those of its transpose by at most atol + rtol min(|a|,|b|)
is symmetric, one with a pair differing by more than atol + rtol max(|a|,|b|) is not (in between both answers are allowed); ValueError or
TypeError as documented.  The rejections that the other properties' cases state are asked here again.
Assumptions:
- exact arithmetic; np.allclose is the literal inequality |a - b| <= atol + rtol |b| in the tolerance cases, exact equality in the others
- sizes as listed per case; only functions that document an error are required to raise it; tolerances at most 1/2, entries within [-2, 2]
"""
import fnmatch
from fractions import Fraction

from engine import harness
from engine.harness import case

TW = "thewalrus"
Q = "thewalrus.quantum"


def _fns(h, n, kw):
    """the functions that ask for a symmetric matrix: name -> call on A"""
    tw = h.mod(TW)
    vec = lambda: h.array([h.num(0)] * n, shape=(n,))
    return {
        "hafnian": lambda A: tw.hafnian(A, **kw),
        "hafnian-loop": lambda A: tw.hafnian(A, loop=True, **kw),
        "hafnian-recursive": lambda A: tw.hafnian(A, method="recursive", **kw),
        "repeated": lambda A: tw.hafnian_repeated(A, [1] * n, **kw),
        "repeated-loop": lambda A: tw.hafnian_repeated(A, [1] * n, loop=True, **kw),
        "banded": lambda A: tw.hafnian_banded(A, loop=True, **kw),
        "hermite-modified": lambda A: tw.hermite_multidimensional(A, 2, y=vec(), modified=True, **kw),
        "hermite-standard": lambda A: tw.hermite_multidimensional(A, 2, y=vec(), modified=False, **kw),
        "hermite-no-vector": lambda A: tw.hermite_multidimensional(A, 2, **kw),
        "batched": lambda A: tw.hafnian_batched(A, 2, **kw),
        "interferometer": lambda A: tw.interferometer(A, 2, **kw),
    }


NAMES = ["hafnian", "hafnian-loop", "hafnian-recursive", "repeated", "repeated-loop", "banded", "hermite-modified", "hermite-standard", "hermite-no-vector", "batched", "interferometer"]


def _try(h, fn):
    """True if the call raises ValueError"""
    try:
        fn()
    except ValueError as e:
        if h.symbolic:
            from engine.scalar import Unsupported

            if isinstance(e, Unsupported):
                raise
        return True
    return False


def _tol(h, given):
    if not given:
        return Fraction(1, 10 ** 5), Fraction(1, 10 ** 8), {}
    rt, at = h.real("rtol", 0, Fraction(1, 2)), h.real("atol", 0, Fraction(1, 2))
    return rt, at, dict(rtol=rt, atol=at)


def _verdict(h, label, bad, pairs, rt, at):
    """raised or accepted as the tolerances say; pairs: (|a-b|, |a|, |b|)"""
    if bad:
        h.true(label + " rejects only asymmetric matrices", h.Or(*[d > at + rt * x for d, a, b in pairs for x in (a, b)]))
    else:
        h.true(label + " accepts only symmetric matrices", h.And(*[h.Or(d <= at + rt * a, d <= at + rt * b) for d, a, b in pairs]))


def _sym(h, name, n, given):
    if h.symbolic:
        h.c.literal_tolerance = True
    rt, at, kw = _tol(h, given)
    if n == 2:
        A = [[h.real("a", -2, 2), h.real("b", -2, 2)], [h.real("c", -2, 2), h.real("d", -2, 2)]]
    else:
        # one asymmetric pair anywhere
        i, j = h.choice("pair", [(i, j) for i in range(n) for j in range(n) if i != j])
        A = [[h.num(Fraction(1 + min(u, v) + 2 * max(u, v), 4)) for v in range(n)] for u in range(n)]
        A[i][j] = h.real("b", -2, 2)
    pairs = [(abs(A[i][j] - A[j][i]), abs(A[i][j]), abs(A[j][i])) for i in range(n) for j in range(i)]
    M = h.array(A, ld="float", shape=(n, n))
    _verdict(h, name, _try(h, lambda: _fns(h, n, kw)[name](M)), pairs, rt, at)


for nm in NAMES:
    for n in (2, 3):
        for given in (False, True):
            if n == 3 and nm in ("hafnian-recursive", "interferometer"):
                continue
            case("C36", "symmetric-%s-%d%s" % (nm, n, "-tol" if given else ""), nm, n, given, bounds="%dx%d real matrices, %s, %s" % (n, n, "all entries" if n == 2 else "one pair of entries differing at any place", "all tolerances in [0,1/2]" if given else "default tolerances"), opts=dict(weight=n, timeout=200))(_sym)
for nm in ("hafnian", "hafnian-loop", "repeated", "banded"):
    case("C36", "symmetric-%s-4-tol" % nm, nm, 4, True, bounds="4x4 real matrices, one pair of entries differing at any place, all tolerances", opts=dict(weight=5))(_sym)


def _csym(h, name):
    """complex symmetric, not Hermitian"""
    a, b, c = h.cplx("a"), h.cplx("b"), h.cplx("c")
    kind = h.choice("kind", ["symmetric", "hermitian"])
    if kind == "symmetric":
        A = [[a, b], [b, c]]
    else:
        # a Hermitian matrix that is not symmetric
        y = h.real("y", Fraction(1, 10), 2)
        b = h.re(b) + h.I * y
        A = [[h.re(a) + 0 * h.I, b], [h.conj(b), h.re(c) + 0 * h.I]]
    M = h.array(A, ld="complex", shape=(2, 2))
    h.true("%s %s" % (name, kind), _try(h, lambda: _fns(h, 2, {})[name](M)) == (kind == "hermitian"))


for nm in NAMES:
    case("C36", "complex-%s" % nm, nm, bounds="2x2: every complex symmetric matrix accepted, every Hermitian one with an off-diagonal imaginary part at least 1/10 rejected")(_csym)


def _nan(h, name):
    n = h.choice("n", [2, 4] if name in ("hafnian-recursive", "interferometer") else [2, 3, 4])
    i = h.choice("i", list(range(n)))
    j = h.choice("j", list(range(i + 1)))
    cx = h.choice("cx", [False, True])
    A = [[h.num(Fraction(1 + u + v, 8)) for u in range(n)] for v in range(n)]
    if cx:
        A[0][0] = A[0][0] + h.I * h.real("x", -1, 1)
    else:
        A[0][0] = A[0][0] + h.real("x", -1, 1)
    A[i][j] = A[j][i] = float("nan")
    if h.symbolic:
        M = h.np.array(A)
    else:
        M = h.np.array(A, dtype=complex if cx else float)
    h.raises("NaN in " + name, lambda: _fns(h, n, {})[name](M), ValueError)


for nm in NAMES:
    case("C36", "nan-%s" % nm, nm, bounds="sizes 2..4, a NaN at any (symmetric pair of) places of a real or complex matrix")(_nan)


def _shape(h, name):
    r = h.choice("r", [1, 2, 3, 4])
    c = h.choice("c", [x for x in (1, 2, 3, 4) if x != r])
    x = h.real("x", -1, 1)
    M = h.array([[x] * c for _ in range(r)], shape=(r, c))
    h.raises("shape in " + name, lambda: _fns(h, r, {})[name](M), ValueError)
    h.raises("list in " + name, lambda: _fns(h, 2, {})[name]([[x, x], [x, x]]), TypeError)


for nm in NAMES:
    case("C36", "shape-%s" % nm, nm, bounds="all non-square shapes with 1..4 rows and columns; nested lists")(_shape)


def _perm(h):
    tw = h.mod(TW)
    me = h.choice("method", ["bbfg", "ryser"])
    r = h.choice("r", [1, 2, 3, 4])
    c = h.choice("c", [1, 2, 3, 4])
    x, y = h.real("x", -1, 1), h.real("y", -1, 1)
    # no symmetry is asked for
    A = [[x + i - 2 * j * y for j in range(c)] for i in range(r)]
    M = h.array(A, ld="float", shape=(r, c))
    h.true("perm accepts exactly square matrices", _try(h, lambda: tw.perm(M, method=me)) == (r != c))
    if r == c:
        k = h.choice("k", list(range(r * c)))
        A[k // c][k % c] = float("nan")
        h.raises("NaN in perm", lambda: tw.perm(h.np.array(A), method=me), ValueError)
    h.raises("list in perm", lambda: tw.perm(A, method=me), TypeError)


case("C36", "perm", bounds="all shapes with 1..4 rows and columns, a NaN at any place, nested lists, both methods")(_perm)


def _tor(h, fn):
    tw = h.mod(TW)
    loop = fn in ("ltor", "lmtl")
    r = h.choice("r", [1, 2, 3, 4])
    c = h.choice("c", [1, 2, 3, 4])
    l = h.choice("l", [1, 2, 3, 4]) if loop else 0
    x = h.real("x", 0, Fraction(1, 10))
    A = [[x if i != j else h.num(0) for j in range(c)] for i in range(r)]
    M = h.array(A, ld="float" if fn.endswith("tor") else "complex", shape=(r, c))
    g = h.array([x] * l, ld="float" if fn.endswith("tor") else "complex", shape=(l,)) if loop else None
    f = getattr(tw, fn)
    call = (lambda a, b: f(a, b)) if loop else (lambda a, b: f(a))
    bad = r != c or r % 2 == 1 or (loop and l != r)
    h.true(fn + " accepts exactly even square matrices of fitting size", _try(h, lambda: call(M, g)) == bad)
    h.raises("list in " + fn, lambda: call(A, g), TypeError)
    if loop and not bad:
        h.raises("list vector in " + fn, lambda: call(M, [x] * l), TypeError)


for fn in ("tor", "ltor", "mtl", "lmtl"):
    case("C36", "even-" + fn, fn, bounds="all shapes with 1..4 rows and columns, vectors of length 1..4, lists")(_tor)


def _rpt(h, n):
    """repetition vectors"""
    tw = h.mod(TW)
    loop = h.choice("loop", [False, True])
    z = h.choice("zero", [True, False])
    x = h.real("x", Fraction(1, 10), 1)
    v = h.num(0) if z else x
    M = h.array([[v] * n for _ in range(n)], ld="float", shape=(n, n))
    what = h.choice("what", ["length", "negative", "fraction", "mu", "fits"])
    rpt = [1] * n
    kw = dict(loop=loop)
    if what == "length":
        l = h.choice("l", [k for k in range(5) if k != n])
        rpt = [h.choice("fill", [0, 1])] * l
    elif what == "negative":
        k = h.choice("k", list(range(n)))
        rpt[k] = h.choice("neg", [-1, -2, -3])
    elif what == "fraction":
        k = h.choice("k", list(range(n)))
        rpt[k] = h.choice("frac", [0.5, 1.5, 0.25, 2.75])
    elif what == "mu":
        l = h.choice("l", [k for k in range(1, 5) if k != n])
        rpt = [h.choice("fill", [0, 1, 2])] * n
        kw["mu"] = h.array([x] * l, ld="float", shape=(l,))
    else:
        rpt = [h.choice("fill", [0, 1, 2])] * n
        kw["mu"] = h.array([x] * n, ld="float", shape=(n,))
    if what == "mu" and not loop:
        # the vector of means is not used without loops
        h.true("not used", True)
        return
    h.true("repetitions: " + what, _try(h, lambda: tw.hafnian_repeated(M, rpt, **kw)) == (what != "fits"))


for n in (1, 2, 3):
    case("C36", "repetitions-%d" % n, n, bounds="%d modes, repetition vectors of length 0..4, negative and fractional ones, vectors of means of length 1..4, zero and non-zero matrices, with and without loops" % n, opts=dict(weight=8, max_paths=1000))(_rpt)


def _vec(h):
    tw = h.mod(TW)
    n = h.choice("n", [1, 2, 3])
    l = h.choice("l", [1, 2, 3])
    x = h.real("x", Fraction(1, 10), 1)
    M = h.array([[x] * n for _ in range(n)], ld="float", shape=(n, n))
    y = h.array([x] * l, ld="float", shape=(l,))
    f = h.choice("f", ["modified", "standard", "batched", "gradient"])
    ren = h.choice("renorm", [False, True])
    calls = {
        "modified": lambda: tw.hermite_multidimensional(M, 2, y=y, renorm=ren, modified=True),
        "standard": lambda: tw.hermite_multidimensional(M, 2, y=y, renorm=ren, modified=False),
        "batched": lambda: tw.hafnian_batched(M, 2, mu=y, renorm=ren),
        "gradient": lambda: tw.grad_hermite_multidimensional(h.array([x] * 2 ** n, ld="float", shape=(2,) * n), M, y, renorm=ren),
    }
    if f == "gradient" and not hasattr(tw, "grad_hermite_multidimensional"):
        h.true("absent", True)
        return
    h.true("vector length in " + f, _try(h, calls[f]) == (l != n))


case("C36", "vector-length", bounds="1..3 variables, vectors of length 1..3", opts=dict(weight=3))(_vec)


def _approx(h):
    """the stochastic algorithm asks for real non-negative entries"""
    tw = h.mod(TW)
    if h.symbolic:
        h.patch("thewalrus._hafnian", "hafnian_approx", lambda *a, **k: h.num(1))
    kind = h.choice("kind", ["good", "negative", "complex"])
    i = h.choice("i", list(range(6)))
    j = h.choice("j", list(range(i + 1)))
    A = [[h.num(Fraction(1 + u + v, 4)) for u in range(6)] for v in range(6)]
    x = h.real("x", Fraction(1, 10), 2)
    if kind == "negative":
        A[i][j] = A[j][i] = -x
    elif kind == "complex":
        A[i][j] = A[j][i] = A[i][j] + h.I * x * h.choice("sign", [1, -1])
    M = h.array(A, ld="complex" if kind == "complex" else "float", shape=(6, 6))
    if kind == "good":
        M = h.array([[h.num(1) if u != v else h.num(0) for u in range(6)] for v in range(6)], ld="float", shape=(6, 6))
    h.true("approx " + kind, _try(h, lambda: tw.hafnian(M, approx=True, num_samples=1)) == (kind != "good"))


case("C36", "approx", bounds="6x6, one negative or complex entry at any (pair of) places", opts=dict(weight=4))(_approx)


def _rec(h):
    f = h.need("thewalrus._hafnian", "recursive_hafnian").recursive_hafnian
    r = h.choice("r", [1, 2, 3, 4])
    c = h.choice("c", [1, 2, 3, 4])
    x = h.real("x", -1, 1)
    M = h.array([[x] * c for _ in range(r)], ld="float", shape=(r, c))
    h.true("recursive accepts exactly even square matrices", _try(h, lambda: f(M)) == (r != c or r % 2 == 1))


case("C36", "recursive", bounds="all shapes with 1..4 rows and columns")(_rec)


def _posdef(h):
    """Williamson accepts exactly the positive definite ones; eigenvalues in any admissible order"""
    d = h.mod("thewalrus.decompositions")
    t = h.real("t", -1, 1)
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    l1, l2 = h.real("l1", -2, 2), h.real("l2", -2, 2)
    if h.symbolic:
        h.assume(h.Or(l1 <= -Fraction(1, 100), l1 == 0, l1 >= Fraction(1, 100)))
        h.assume(h.Or(l2 <= -Fraction(1, 100), l2 == 0, l2 >= Fraction(1, 100)))
    bad = h.choice("class", [True, False])
    if bad:
        h.assume(h.Or(l1 < -Fraction(1, 1000), l2 < -Fraction(1, 1000)))
    else:
        h.assume(l1 > Fraction(1, 1000))
        h.assume(l2 > Fraction(1, 1000))
    V = [[c * c * l1 + s * s * l2, c * s * (l1 - l2)], [c * s * (l1 - l2), s * s * l1 + c * c * l2]]
    if h.symbolic:
        def spec(m):
            lo = bool(l1 <= l2)
            return h.array([l1, l2] if lo else [l2, l1], shape=(2,))

        h.contract(eigvalsh=spec)
        if not bad:
            # the rest of the decomposition is C16's
            class Past(Exception):
                pass

            def stop(*a, **k):
                raise Past()

            h.linalg("sqrtm", stop)
            try:
                d.williamson(h.array(V, ld="float", shape=(2, 2)))
                h.true("accepted", True)
            except Past:
                h.true("accepted", True)
            except ValueError:
                h.true("accepted", False)
            return
    r = _try(h, lambda: d.williamson(h.array(V, ld="float", shape=(2, 2))))
    h.true("rejected" if bad else "accepted", r == bad)


case("C36", "williamson-positive", bounds="2x2 symmetric matrices with eigenvalues in [-2,2] at least 1/100 from 0 in modulus (or one of them 0) and every eigenbasis")(_posdef)


def _wsym(h, given):
    if h.symbolic:
        h.c.literal_tolerance = True
    d = h.mod("thewalrus.decompositions")
    rt, at, kw = _tol(h, given)
    a, b, c = h.real("a", 3, 4), h.real("b", -1, 1), h.real("c", -1, 1)
    V = h.array([[a, b], [c, a]], ld="float", shape=(2, 2))
    if h.symbolic:
        class Past(Exception):
            pass

        def stop(*x, **k):
            raise Past()

        h.linalg("eigvalsh", stop)
        h.linalg("sqrtm", stop)
        try:
            bad = _try(h, lambda: d.williamson(V, **kw))
        except Past:
            bad = False
    else:
        bad = _try(h, lambda: d.williamson(V, **kw))
    _verdict(h, "williamson", bad, [(abs(b - c), abs(b), abs(c))], rt, at)


for given in (False, True):
    case("C36", "williamson-symmetric%s" % ("-tol" if given else ""), given, bounds="2x2 matrices with diagonal in [3,4], all off-diagonal entries in [-1,1], %s tolerances" % ("all" if given else "default"))(_wsym)


def _sympl(h, f, n):
    d = h.mod("thewalrus.decompositions" if f != "fock_tensor" else Q)
    if h.symbolic:
        h.c.literal_tolerance = True
    if n == 1:
        a, b, c, e = [h.real(x, -2, 2) for x in "abce"]
        S = [[a, b], [c, e]]
        det = a * e - b * c
        h.assume(h.Or(det > 1 + Fraction(1, 1000), det < 1 - Fraction(1, 1000)))
    else:
        x = h.real("x", Fraction(1, 10), 2)
        S = [[h.num(1 if i == j else 0) for j in range(4)] for i in range(4)]
        # an elementary shear that does not preserve the form
        i, j = h.choice("place", [(0, 1), (1, 0), (2, 3), (3, 2), (0, 3), (1, 2), (2, 1), (3, 0), (0, 0), (1, 1), (2, 2), (3, 3)])
        S[i][j] = S[i][j] + x * h.choice("sign", [1, -1] if i != j else [1])
    M = h.array(S, ld="float", shape=(2 * n, 2 * n))
    if f == "fock_tensor":
        h.raises("not symplectic in " + f, lambda: d.fock_tensor(M, h.array([h.num(0)] * n, ld="complex", shape=(n,)), 2), ValueError)
        return
    h.raises("not symplectic in " + f, lambda: getattr(d, f)(M), ValueError)


for f in ("blochmessiah", "pre_iwasawa", "iwasawa", "fock_tensor"):
    for n in (1, 2):
        case("C36", "symplectic-%s-%d" % (f, n), f, n, bounds="%s" % ("2x2: every matrix with entries in [-2,2] whose determinant is at least 1/1000 from 1" if n == 1 else "4x4: every elementary shear or scaling that is not symplectic"))(_sympl)


def _modes(h, f):
    """mode lists"""
    n = h.choice("n", [1, 2, 3])
    k = h.choice("k", list(range(-2, 5)))
    good = h.choice("other", list(range(n)))
    x = h.real("x", 1, 2)
    mu = h.array([x * i for i in range(2 * n)], shape=(2 * n,))
    V = h.array([[x + i + j for i in range(2 * n)] for j in range(2 * n)], shape=(2 * n, 2 * n))
    fn = h.mod(Q).reduced_gaussian if f == "reduced_gaussian" else h.mod("thewalrus.symplectic").reduced_state
    first = h.choice("first", [True, False, None])
    modes = [k, good] if first else [good, k] if first is False else k
    if first is not None and k == good:
        h.true("repeated mode", True)
        return
    h.true(f, _try(h, lambda: fn(mu, V, modes)) == (not 0 <= k < n))


for f in ("reduced_gaussian", "reduced_state"):
    case("C36", "modes-" + f, f, bounds="1..3 modes, mode numbers -2..4, alone, first or last")(_modes)


# ---- rejections stated by the cases of the other properties -----------------------------------------------
class _H:
    """only the rejections of a borrowed case are asked"""

    def __init__(self, h):
        self.__dict__["_base"] = h

    def __getattr__(self, n):
        return getattr(self._base, n)

    def __setattr__(self, n, v):
        setattr(self._base, n, v)

    def eq(self, label, a, b, tol=None):
        pass

    def true(self, label, f):
        if f is False:
            self._base.true(label, f)

    def raises(self, label, fn, exc=Exception):
        self._base.raises(label, fn, exc)


BORROWED = [
    ("C07", "fock_prob-reject"), ("C07", "threshold-reject"), ("C15", "expand_passive"), ("C15", "orderings"), ("C16", "williamson-rejects"), ("C16", "rejects"),
    ("C19", "impure-amplitude"), ("C19", "impure-vector"), ("C20", "tvd-invalid"), ("C20", "marginals-bad"), ("C21", "loss_mat-bad"), ("C21", "loss-bad"),
    ("C21", "noise-bad"), ("C22", "tensor-bad"), ("C24", "bad-*"), ("C25", "partition-*"), ("C25", "invalid"), ("C27", "invalid"), ("C28", "invalid"),
    ("C29", "classical-bad-mean"), ("C30", "bad"), ("C30", "thermal-bad"), ("C31", "mixed"), ("C33", "banded-*"),
]


def _borrow(h, prop, name):
    c = {x.name: x for x in harness.load_checks(prop)}[name]
    c(_H(h))


def _cases():
    for prop, pat in BORROWED:
        for c in list(harness.load_checks(prop)):
            if fnmatch.fnmatch(c.name, pat) and c.tier == "quick":
                case("C36", "%s-%s" % (prop, c.name), prop, c.name, bounds=c.bounds, opts={k: v for k, v in c.opts.items() if k != "replay"})(_borrow)


_cases()
