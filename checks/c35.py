"""Kernels stay inside their arrays and parallel loops do not race.

Symbolic inputs: all matrix entries, repetition numbers, cutoffs, clicked and occupied modes, the schedule of the parallel loops (which iteration
runs first, in which direction, split over two threads), the two iterations and the memory cell of a race.
Oracles: no index outside an array on any path (the source is executed with Python's checked indexing, whose negative indices wrap as numba's do; a
candidate is replayed on the compiled code with NUMBA_BOUNDSCHECK=1); for every loop of a function compiled with parallel=True no two iterations access
one cell when one of them writes it, except numba's own reductions, and the result is the same for every schedule (loop-carried variables).
Assumptions:
- numba's semantics: `x += ...` on a variable defined outside the loop is a reduction (whole arrays: private zero copies per thread), other variables are private
- accesses made inside numpy calls are recorded for whole array arguments; exact arithmetic
- a race is replayed on the interpreted source with the schedule forced; sizes bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .common import contract_powertrace

S = dict(replay="py")


def _go(h, steps, fn):
    """fn under every schedule against the sequential run"""
    ref = fn()
    first = h.choice("first", list(range(steps)))
    back = h.choice("back", [False, True])
    got, ok, sizes = h.schedule(first, back, fn)
    h.true("no two iterations touch one cell", ok)
    h.eq("the result is that of the sequential loop", got, ref)
    h.true("bound covers the loop", max(sizes, default=0) <= steps)


def _batch(h, n, fixed, cut, glynn, gamma, steps):
    contract_powertrace(h)
    A = h.line_symmetric("a", n, seed=7, ld="complex")
    if gamma:
        m = h.mod("thewalrus.loop_hafnian_batch_gamma")
        D = h.array([[A[0, 0] * (i + 1) + (2 * q - i) for i in range(n)] for q in range(2)], ld="complex", shape=(2, n))
        f = lambda: m.loop_hafnian_batch_gamma(A, D, list(fixed), cut, glynn=glynn)
    else:
        m = h.mod("thewalrus.loop_hafnian_batch")
        D = h.array([A[0, 0] * (i + 1) - i for i in range(n)], ld="complex", shape=(n,))
        f = lambda: m.loop_hafnian_batch(A, D, list(fixed), cut, glynn=glynn)
    _go(h, steps, f)


for gm in (False, True):
    for n, fx, cut, st in ((2, (1,), 2, 4), (2, (2,), 3, 4), (3, (1, 1), 2, 4), (3, (2, 1), 2, 8), (3, (2, 2), 3, 12), (3, (2, 2), 2, 6), (4, (1, 1, 1), 1, 4)):
        for g in (True, False):
            if not g and n == 4:
                continue
            case("C35", "race-%s-%d-%s-%d-%s" % ("gamma" if gm else "batch", n, "".join(map(str, fx)), cut, "glynn" if g else "ryser"), n, fx, cut, g, gm, st,
                 tier="quick" if (g or n == 2) and not (gm and st > 8) else "thorough", bounds="fixed pattern %s, cutoff %d, every matrix on a line, at most %d iterations in every rotation and both directions, 2 threads" % (fx, cut, st), opts=dict(S, weight=2))(_batch)


def _haf(h, n, rpt, loop, glynn, steps):
    contract_powertrace(h)
    tw = h.mod("thewalrus")
    A = h.line_symmetric("a", n, seed=5, ld="complex")
    mu = h.array([A[0, 0] * (i + 1) - i for i in range(n)], ld="complex", shape=(n,))
    f = (lambda: tw.loop_hafnian(A, mu, list(rpt), glynn=glynn)) if loop else (lambda: tw.hafnian_repeated(A, list(rpt), glynn=glynn))
    if not loop:
        m = h.need("thewalrus._hafnian", "_haf")
        f = lambda: m._haf(A, reps=list(rpt), glynn=glynn)
    _go(h, steps, f)


for lo in (False, True):
    for n, r, st in ((2, (1, 1), 2), (2, (3, 3), 4), (3, (2, 1, 1), 6), (4, (1, 1, 1, 1), 4), (3, (2, 2, 2), 12)) + (((3, (1, 1, 1), 8), (3, (3, 2, 2), 12)) if lo else ()):
        for g in (True, False):
            case("C35", "race-%s-%s-%s" % ("loop" if lo else "haf", "".join(map(str, r)), "glynn" if g else "ryser"), n, r, lo, g, st,
                 bounds="repetitions %s, every matrix on a line, at most %d iterations in every rotation and both directions" % (r, st), opts=dict(S))(_haf)


def _tor(h, n, which):
    if which in ("tor", "ltor"):
        m = h.need("thewalrus._torontonian", "numba_tor", "numba_ltor")
        # entries small enough that every determinant is positive
        x = h.real("x", -1, 1)
        N = 2 * n
        O = h.array([[(x / (8 + i + j) if i != j else h.num(1) / (4 + i)) for j in range(N)] for i in range(N)], ld="complex", shape=(N, N))
        h.c and setattr(h.c, "sqrt_may_be_imag", True)
        if which == "tor":
            f = lambda: m.numba_tor(O)
        else:
            y = h.real("y", -1, 1)
            g = h.array([y + i for i in range(N)], ld="complex", shape=(N,))
            f = lambda: m.numba_ltor(O, g)
    else:
        m = h.mod("thewalrus._permanent")
        A = h.matrix("a", n, 2, ld="complex")
        E = h.matrix("e", 2, 2, ld="complex")
        f = (lambda: m.brs(A, E)) if which == "brs" else (lambda: m.ubrs(A))
    _go(h, 2 ** n, f)


for w in ("ltor", "tor", "brs", "ubrs"):
    for n in (1, 2, 3) if w in ("brs", "ubrs") else (1, 2):
        case("C35", "race-%s-%d" % (w, n), n, w, bounds="%d modes, %d iterations in every rotation and both directions" % (n, 2 ** n), opts=dict(S))(_tor)


# ---------------------------------------------------------------- bounds
def _clean(h, got):
    """the value does not depend on uninitialised memory"""
    if not h.symbolic:
        return True
    from engine.poly import T, mono_items

    for x in h.lst(got):
        x = h.num(x)
        for m in x.n:
            if any(T.vars[i].name.startswith("uninit") for i, _ in mono_items(m) if isinstance(m, int)):
                return False
    return True


def _line(h, n, m=None, seed=3, ld="complex"):
    return h.line_symmetric("a", n, seed=seed, ld=ld) if m is None else h.line_matrix("b", n, m, seed=seed, ld=ld)


def _vec(h, n, t, ld="complex"):
    return h.array([t * (i + 1) - i for i in range(n)], ld=ld, shape=(n,))


def _shape(h, got, shape):
    h.true("shape", tuple(h.np.shape(got)) == tuple(shape))
    h.true("no uninitialised memory", _clean(h, got))


def _b_haf(h, n, method, loop):
    contract_powertrace(h)
    tw = h.mod("thewalrus")
    A = _line(h, n)
    h.np.shape(A)
    r = tw.hafnian(A, loop=loop, method=method)
    _shape(h, r, ())


for me in ("glynn", "recursive", "inclexcl"):
    for lo in (False, True):
        if lo and me == "inclexcl":
            continue
        for n in (0, 1, 2, 3, 4, 5, 6):
            if me == "recursive" and lo:
                continue
            case("C35", "bounds-hafnian-%s-%d%s" % (me, n, "-loop" if lo else ""), n, me, lo, bounds="%dx%d on a line" % (n, n), boundscheck=True)(_b_haf)


def _b_rep(h, n, hi, loop, glynn):
    contract_powertrace(h)
    tw = h.mod("thewalrus")
    A = _line(h, n)
    rpt = [h.choice("r%d" % i, list(range(hi + 1))) for i in range(n)]
    kw = dict(loop=True, mu=_vec(h, n, A[0, 0])) if loop else {}
    _shape(h, tw.hafnian_repeated(A, rpt, glynn=glynn, **kw), ())
    if loop:
        _shape(h, tw.loop_hafnian(A, kw["mu"], rpt, glynn=glynn), ())


for n, hi in ((1, 7), (2, 4), (3, 2), (4, 1)):
    for lo in (False, True):
        for g in (True, False):
            case("C35", "bounds-repeated-%d-%d%s-%s" % (n, hi, "-loop" if lo else "", "glynn" if g else "ryser"), n, hi, lo, g, bounds="%d modes, every repetition in 0..%d" % (n, hi), boundscheck=True,
                 opts=dict(weight=n))(_b_rep)


def _b_batch(h, n, hi, cut, glynn, gamma):
    contract_powertrace(h)
    A = _line(h, n)
    fixed = [h.choice("f%d" % i, list(range(hi + 1))) for i in range(n - 1)]
    N = h.choice("cutoff", list(range(cut + 1)))
    if gamma:
        D = h.array([[A[0, 0] * (i + 1) + (2 * q - i) for i in range(n)] for q in range(2)], ld="complex", shape=(2, n))
        _shape(h, h.mod("thewalrus.loop_hafnian_batch_gamma").loop_hafnian_batch_gamma(A, D, fixed, N, glynn=glynn), (2, N + 1))
    else:
        _shape(h, h.mod("thewalrus.loop_hafnian_batch").loop_hafnian_batch(A, _vec(h, n, A[0, 0]), fixed, N, glynn=glynn), (N + 1,))


for gm in (False, True):
    for n, hi, cut in ((1, 0, 6), (2, 3, 4), (3, 2, 2)):
        for g in (True, False):
            case("C35", "bounds-%s-%d-%s" % ("gamma" if gm else "batch", n, "glynn" if g else "ryser"), n, hi, cut, g, gm, bounds="%d modes, fixed photons 0..%d, cutoff 0..%d" % (n, hi, cut), boundscheck=True,
                 opts=dict(weight=4 * n))(_b_batch)


def _b_hermite(h, n, hi, renorm, what):
    tw = h.mod("thewalrus")
    A = _line(h, n, ld="complex")
    cs = tuple(h.choice("c%d" % i, list(range(1, hi + 1))) for i in range(n))
    y = _vec(h, n, A[0, 0])
    if what == "hermite":
        _shape(h, tw.hermite_multidimensional(A, cs, y=y, renorm=renorm, make_tensor=True), cs)
        _shape(h, tw.hermite_multidimensional(A, cs, y=y, renorm=renorm, make_tensor=True, modified=False), cs)
    elif what == "batched":
        _shape(h, tw.hafnian_batched(A, cs, mu=y, renorm=renorm), cs)
    else:
        G = tw.hermite_multidimensional(A, cs, y=y, renorm=renorm, make_tensor=True)
        for k, (g, sh) in enumerate(zip(tw.grad_hermite_multidimensional(G, A, y, C=1, renorm=renorm), (cs, cs + (n, n), cs + (n,)))):
            _shape(h, g, sh)


for w in ("hermite", "batched", "grad"):
    for n, hi in ((1, 6), (2, 4), (3, 2)):
        for rn in (False, True):
            case("C35", "bounds-%s-%d%s" % (w, n, "-renorm" if rn else ""), n, hi, rn, w, bounds="%d modes, every cutoff 1..%d per mode" % (n, hi), boundscheck=True, opts=dict(weight=n))(_b_hermite)


def _b_interf(h, m, hi, renorm):
    tw = h.mod("thewalrus")
    U = _line(h, m, m)
    Z = [[h.num(0)] * m for _ in range(m)]
    R = [list(Z[i]) + [-U[i, j] for j in range(m)] for i in range(m)] + [[-U[j, i] for j in range(m)] + list(Z[i]) for i in range(m)]
    c = h.choice("cutoff", list(range(1, hi + 1)))
    _shape(h, tw.interferometer(h.array(R, ld="complex", shape=(2 * m, 2 * m)), c, renorm=renorm), (c,) * (2 * m))


for m, hi in ((1, 5), (2, 3)):
    for rn in (False, True):
        case("C35", "bounds-interferometer-%d%s" % (m, "-renorm" if rn else ""), m, hi, rn, bounds="%d modes, cutoff 1..%d" % (m, hi), boundscheck=True)(_b_interf)


def _b_grad(h, name, hi):
    g = h.mod("thewalrus.fock_gradients")
    x = h.real("x", 0, 1)
    y = h.real("y", -3, 3)
    c = h.choice("cutoff", list(range(1, hi + 1)))
    T = getattr(g, name)(x, y, c)
    k = len(h.np.shape(T))
    h.true("one axis per leg", k in (2, 4))
    _shape(h, T, (c,) * k)
    for d in getattr(g, "grad_" + name)(T, x, y):
        _shape(h, d, (c,) * k)


for nm, hi in (("displacement", 6), ("squeezing", 6), ("two_mode_squeezing", 4), ("beamsplitter", 4), ("mzgate", 3)):
    case("C35", "bounds-" + nm, nm, hi, bounds="every parameter, cutoff 1..%d" % hi, boundscheck=True)(_b_grad)


def _b_perm(h):
    tw = h.mod("thewalrus")
    n = h.choice("n", [0, 1, 2, 3, 4])
    A = _line(h, n, n)
    for me in ("ryser", "bbfg"):
        _shape(h, tw.perm(A, method=me), ())


case("C35", "bounds-permanent", bounds="sizes 0..4", boundscheck=True)(_b_perm)


def _b_brs(h):
    tw = h.mod("thewalrus")
    m, n, r = h.choice("m", [0, 1, 2, 3]), h.choice("n", [1, 2]), h.choice("r", [1, 2])
    A = _line(h, m, n)
    E = h.line_matrix("e", n, n, seed=9, ld="complex")
    _shape(h, tw.brs(A, E), ())
    _shape(h, tw.ubrs(A), ())


case("C35", "bounds-bristolian", bounds="up to 3x2", boundscheck=True)(_b_brs)


def _b_mtl(h):
    m = h.mod("thewalrus")
    n = h.choice("n", [1, 2, 3])
    A = _line(h, 2 * n)
    _shape(h, m.mtl(A), ())
    z = _vec(h, n, A[0, 0])
    _shape(h, m.lmtl(A, h.array(h.lst(z) + [h.conj(x) for x in h.lst(z)], ld="complex", shape=(2 * n,))), ())


case("C35", "bounds-montrealer", bounds="1..3 modes", boundscheck=True)(_b_mtl)


def _b_tor(h, n, rec):
    m = h.mod("thewalrus")
    x = h.real("x", -1, 1)
    N = 2 * n
    O = h.array([[(x / (8 + i + j) if i != j else h.num(1) / (4 + i % max(n, 1))) for j in range(N)] for i in range(N)], ld="float", shape=(N, N))
    _shape(h, m.tor(O, recursive=rec), ())
    g = h.array([h.num(1) / (2 + i % max(n, 1)) for i in range(N)], ld="float", shape=(N,))
    _shape(h, m.ltor(O, g, recursive=rec), ())


for n in (1, 2, 3):
    for rec in (False, True):
        case("C35", "bounds-tor-%d%s" % (n, "-recursive" if rec else ""), n, rec, bounds="%d modes, one-parameter family" % n, boundscheck=True, opts=dict(weight=3 * n))(_b_tor)


def _b_charpoly(h, n, kind):
    m = h.mod("thewalrus.charpoly")
    t = h.real("t", -3, 3)
    one, z = h.num(1), h.num(0)
    if kind == "zero":
        A = [[z] * n for _ in range(n)]
    elif kind == "hessenberg":
        A = [[t * (i + 1) + j if j >= i else (one if j == i - 1 else z) for j in range(n)] for i in range(n)]
    else:
        A = [[t * (i + 1) + 2 * j if j >= i else z for j in range(n)] for i in range(n)]
    M = lambda: h.array(A, ld="float", shape=(n, n))
    if n:
        _shape(h, h.array(h.lst(m.charpoly(M())), shape=(n,)), (n,))
    for N in range(1, 2 * n + 3):
        r = m.powertrace(M(), N)
        h.true("length %d" % N, len(r) == N)
        h.true("clean %d" % N, all(_clean(h, x) for x in h.lst(r)))


for n in (1, 2, 3, 4, 5):
    for k in ("zero", "hessenberg", "triangular"):
        case("C35", "bounds-charpoly-%d-%s" % (n, k), n, k, bounds="%dx%d, %s, every number of powers up to %d" % (n, n, k, 2 * n + 2), boundscheck=True)(_b_charpoly)


def _b_loss(h):
    m = h.mod("thewalrus.quantum.fock_tensors")
    n, c = h.choice("modes", [1, 2, 3]), h.choice("cutoff", [1, 2, 3])
    eta = [h.real("e%d" % i, 0, 1) for i in range(n)]
    P = h.array([h.num(1 + k % 7) for k in range(c ** n)], ld="float", shape=(c,) * n)
    _shape(h, m.update_probabilities_with_loss(eta, P), (c,) * n)
    q = [h.array([h.num(1 + k) for k in range(c)], ld="float", shape=(c,)) for _ in range(n)]
    _shape(h, m.update_probabilities_with_noise(q, P), (c,) * n)


case("C35", "bounds-loss", bounds="up to 3 modes, cutoff up to 3", boundscheck=True)(_b_loss)


def _b_helpers(h):
    m = h.need("thewalrus._hafnian", "find_kept_edges", "precompute_binoms")
    n = h.choice("n", [1, 2, 3])
    reps = [h.choice("r%d" % i, [0, 1, 2, 3] if n < 3 else [0, 1, 2]) for i in range(n)]
    p = 1
    for r in reps:
        p *= r + 1
    j = h.int("j", 0, 26)
    h.assume(j < p)
    k = m.find_kept_edges(j, h.ints(reps))
    h.true("one entry per edge", len(k) == n)
    for i in range(n):
        h.true("kept edge %d within its repetitions" % i, h.And(k[i] >= 0, k[i] <= reps[i]))


case("C35", "bounds-kept-edges", bounds="up to 2 edges with repetitions 0..3, 3 with 0..2, every iteration number", boundscheck=True)(_b_helpers)
