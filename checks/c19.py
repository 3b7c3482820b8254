"""Fock representation of Gaussian states is correct and consistent.

Symbolic inputs: covariance entries (one mode: all; two modes: families; pure states: all of one mode, families of two), means, hbar; Fock
indices, post-selected modes and values are symbolic choices.
Oracle: the Husimi function of the state on coherent states, exp(|z|^2)<z|rho|z>, is the generating function of the density matrix; its Taylor
coefficients (sum over matchings with loops) are compared with the returned elements.  State vectors: psi psi^dagger is that density matrix.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality
- displacements are either exactly zero or not negligible (mu_0 >= 1/100 and hbar between 1/100 and 100)
- mode numbers, cutoffs and photon numbers bounded as listed per case
"""
from fractions import Fraction
from itertools import product

from engine.harness import case
from .gauss import add_diag, bargmann, cov_family, cov_full, fock_element, posdef_all, pure_family


def _mixed(h, n, nv, hbar):
    V = cov_full(h, n) if nv is None else cov_family(h, n, hbar, nv, 19)
    posdef_all(h, add_diag(V, hbar / 2))
    return V


def _mean(h, n, kind):
    N = 2 * n
    if kind == "zero":
        return [h.num(0)] * N
    if kind == "const":
        return [(i % 3 - h.num(1) / 2) / 2 for i in range(N)]
    m = [h.real("m%d" % i, kind="gen") for i in range(N)]
    h.assume(m[0] * 100 >= 1)
    return m


def _hbar(h, mean):
    return h.pos("hbar") if mean == "zero" else h.real("hbar", Fraction(1, 100), 100)


def _idx(n, top):
    return [list(x) for x in product(range(top + 1), repeat=n) if sum(x) <= top]


def _element(h, n, nv, mean, top):
    q = h.mod("thewalrus.quantum")
    hbar = _hbar(h, mean)
    V = _mixed(h, n, nv, hbar)
    mu = _mean(h, n, mean)
    bg = bargmann(h, V, None if mean == "zero" else mu, n, hbar)
    i = h.choice("i", _idx(n, top))
    j = h.choice("j", [x for x in _idx(n, top) if x <= i])
    m, C = h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n))
    got = q.density_matrix_element(m, C, i, j, hbar=hbar)
    # documented: <i|rho|j>; known finding "element-order": the tree returns <j|rho|i>
    e = fock_element(h, bg, n, j, i)
    if _documented_order(h, q):
        e = h.conj(e)
    h.eq("element", got, e)
    h.eq("element-reversed", q.density_matrix_element(m, C, j, i, hbar=hbar), h.conj(e))


def _documented_order(h, q):
    """<1|rho|0> = alpha exp(-|alpha|^2) of the coherent state with alpha = (1+i)/2"""
    one = q.density_matrix_element(h.array([h.num(1), h.num(1)], shape=(2,)), h.array([[h.num(1), h.num(0)], [h.num(0), h.num(1)]], shape=(2, 2)), [1], [0])
    return bool(h.im(one) > 0)


for n, nv, mean, top, t in ((1, None, "zero", 3, "quick"), (1, None, "all", 2, "quick"), (2, 1, "zero", 2, "quick"), (2, 0, "const", 2, "quick"), (1, 1, "const", 3, "quick"),
                            (1, None, "all", 4, "thorough"), (2, 1, "const", 2, "thorough"), (2, 2, "zero", 3, "thorough"), (3, 0, "const", 2, "thorough")):
    case("C19", "element-%d-%s-%s-%d" % (n, "all" if nv is None else nv, mean, top), n, nv, mean, top, tier=t,
         bounds="%d modes, %s covariances, %s mean, at most %d photons" % (n, "all" if nv is None else "%d-parameter family of" % nv, mean, top), opts=dict(weight=n * top))(_element)


def _order(h):
    q = h.mod("thewalrus.quantum")
    x = h.real("x", 1, 4)
    y = h.real("y", 1, 4)
    V = [[h.num(1), h.num(0)], [h.num(0), h.num(1)]]
    bg = bargmann(h, V, [x, y], 1, h.num(2))
    h.eq("element-order", q.density_matrix_element(h.array([x, y], shape=(2,)), h.array(V, shape=(2, 2)), [1], [0]), fock_element(h, bg, 1, [1], [0]))


case("C19", "element-order", bounds="1 mode, coherent states, element <1|rho|0>")(_order)


def _dm(h, n, nv, mean, cutoff, default):
    q = h.mod("thewalrus.quantum")
    hbar = h.num(2) if default else _hbar(h, mean)
    kw = {} if default else dict(hbar=hbar)
    V = _mixed(h, n, nv, hbar)
    mu = _mean(h, n, mean)
    bg = bargmann(h, V, None if mean == "zero" else mu, n, hbar)
    rho = q.density_matrix(h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n)), cutoff=cutoff, **kw)
    h.true("shape", rho.shape == (cutoff,) * (2 * n))
    for ix in product(range(cutoff), repeat=2 * n):
        h.eq("rho%s" % (ix,), rho[ix], fock_element(h, bg, n, ix[::2], ix[1::2]))


for n, nv, mean, c, d, t in ((1, None, "zero", 4, False, "quick"), (1, None, "all", 3, False, "quick"), (2, 1, "zero", 2, False, "quick"), (2, 0, "const", 2, False, "quick"),
                             (1, None, "const", 3, True, "quick"), (1, 0, "const", 5, False, "quick"),
                             (2, 0, "const", 3, False, "thorough"), (2, 2, "zero", 3, False, "thorough"), (3, 0, "const", 2, False, "thorough")):
    case("C19", "dm-%d-%s-%s-%d%s" % (n, "all" if nv is None else nv, mean, c, "-default" if d else ""), n, nv, mean, c, d, tier=t,
         bounds="%d modes, %s covariances, %s mean, cutoff %d" % (n, "all" if nv is None else "%d-parameter family of" % nv, mean, c), opts=dict(weight=n * c))(_dm)


def _posts(n, top):
    out = [{}]
    for mask in product([None] + list(range(top + 1)), repeat=n):
        if any(x is not None for x in mask):
            out.append({k: x for k, x in enumerate(mask) if x is not None})
            if sum(x is not None for x in mask) > 1:
                out.append({k: mask[k] for k in reversed(range(n)) if mask[k] is not None})
    return out


def _dm_post(h, n, nv, mean, cutoff, top, normalize):
    q = h.mod("thewalrus.quantum")
    hbar = _hbar(h, mean)
    V = _mixed(h, n, nv, hbar)
    mu = _mean(h, n, mean)
    bg = bargmann(h, V, None if mean == "zero" else mu, n, hbar)
    ps = h.choice("post", [p for p in _posts(n, top) if len(p) < n] if normalize else _posts(n, top))
    free = [k for k in range(n) if k not in ps]
    M = len(free)
    rho = q.density_matrix(h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n)), post_select=ps, cutoff=cutoff, hbar=hbar, normalize=normalize)
    h.true("shape", rho.shape == (cutoff,) * (2 * M))

    def full(vals):
        it = iter(vals)
        return [ps[k] if k in ps else next(it) for k in range(n)]

    el = {ix: fock_element(h, bg, n, full(ix[::2]), full(ix[1::2])) for ix in product(range(cutoff), repeat=2 * M)}
    if normalize:
        tr = sum(el[tuple(x for v in d for x in (v, v))] for d in product(range(cutoff), repeat=M))
        h.assume(h.re(tr) > 0)
        for ix in el:
            h.eq("rho%s" % (ix,), rho[ix] * tr, el[ix])
    else:
        for ix in el:
            h.eq("rho%s" % (ix,), rho[ix], el[ix])


for n, nv, mean, c, top, nm, t in ((2, 0, "zero", 2, 2, False, "quick"), (2, 0, "const", 2, 1, False, "quick"), (2, 0, "const", 2, 1, True, "quick"), (1, None, "zero", 3, 2, False, "quick"),
                                   (3, 0, "zero", 2, 1, True, "quick"), (2, 1, "zero", 3, 2, False, "thorough"), (3, 0, "zero", 2, 1, False, "thorough"), (3, 0, "const", 2, 1, True, "thorough")):
    case("C19", "dm-post-%d-%s-%s-%d-%d%s" % (n, "all" if nv is None else nv, mean, c, top, "-norm" if nm else ""), n, nv, mean, c, top, nm, tier=t,
         bounds="%d modes, %s covariances, %s mean, cutoff %d, post-selected values <= %d" % (n, "all" if nv is None else "%d-parameter family of" % nv, mean, c, top), opts=dict(weight=n * c))(_dm_post)


def _psi(h, n, nv, mean, cutoff, check, default):
    q = h.mod("thewalrus.quantum")
    hbar = h.num(2) if default else h.real("hbar", Fraction(1, 4), 4) if check else _hbar(h, mean)
    kw = {} if default else dict(hbar=hbar)
    V = pure_family(h, n, hbar, nv, 23)
    mu = _mean(h, n, mean)
    bg = bargmann(h, V, None if mean == "zero" else mu, n, hbar)
    m, C = h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n))
    psi = q.state_vector(m, C, cutoff=cutoff, check_purity=check, **kw)
    h.true("shape", psi.shape == (cutoff,) * n)
    for a in product(range(cutoff), repeat=n):
        h.eq("amplitude%s" % (a,), q.pure_state_amplitude(m, C, list(a), check_purity=check, **kw), psi[a])
        for b in product(range(cutoff), repeat=n):
            if b <= a:
                h.eq("psi%s psi*%s" % (a, b), psi[a] * h.conj(psi[b]), fock_element(h, bg, n, a, b))


for n, nv, mean, c, ck, d, t in ((1, None, "zero", 4, False, False, "quick"), (1, None, "const", 3, False, False, "quick"), (1, 0, "all", 3, False, False, "quick"), (2, 0, "zero", 2, False, False, "quick"),
                                 (2, 0, "const", 2, False, False, "quick"), (1, 0, "const", 4, True, False, "quick"), (1, None, "zero", 3, False, True, "quick"), (2, 1, "zero", 2, False, False, "thorough"),
                                 (2, 0, "const", 3, False, False, "thorough"), (1, None, "all", 3, False, False, "thorough")):
    case("C19", "psi-%d-%s-%s-%d%s%s" % (n, "all" if nv is None else nv, mean, c, "-check" if ck else "", "-default" if d else ""), n, nv, mean, c, ck, d, tier=t,
         bounds="%d modes, %s pure states, %s mean, cutoff %d" % (n, "all" if nv is None else "%d-parameter family of" % nv, mean, c), opts=dict(weight=n * c))(_psi)


def _psi_post(h, n, nv, mean, cutoff, top, normalize):
    q = h.mod("thewalrus.quantum")
    hbar = _hbar(h, mean)
    V = pure_family(h, n, hbar, nv, 23)
    mu = _mean(h, n, mean)
    m, C = h.array(mu, shape=(2 * n,)), h.array(V, shape=(2 * n, 2 * n))
    ps = h.choice("post", [p for p in _posts(n, top) if len(p) < n] if normalize else _posts(n, top))
    free = [k for k in range(n) if k not in ps]
    M = len(free)
    psi = q.state_vector(m, C, post_select=ps, cutoff=cutoff, check_purity=False, hbar=hbar, normalize=normalize)
    if M:
        h.true("shape", psi.shape == (cutoff,) * M)
    else:
        psi = {(): psi}
    ref = q.state_vector(m, C, cutoff=max([cutoff, top + 1]), check_purity=False, hbar=hbar)

    def full(vals):
        it = iter(vals)
        return tuple(ps[k] if k in ps else next(it) for k in range(n))

    el = {ix: ref[full(ix)] for ix in product(range(cutoff), repeat=M)}
    if normalize:
        nn = sum(h.re(x * h.conj(x)) for x in el.values())
        h.assume(nn > 0)
        nn = h.sqrt(nn)
        for ix in el:
            h.eq("psi%s" % (ix,), psi[ix] * nn, el[ix])
    else:
        for ix in el:
            h.eq("psi%s" % (ix,), psi[ix], el[ix])


for n, nv, mean, c, top, nm, t in ((2, 0, "zero", 2, 2, False, "quick"), (2, 0, "const", 2, 2, False, "quick"), (2, 0, "const", 2, 1, True, "quick"), (1, None, "zero", 3, 2, False, "quick"),
                                   (3, 0, "zero", 2, 1, True, "quick"), (2, 1, "zero", 3, 2, False, "thorough"), (3, 0, "const", 2, 1, False, "thorough"), (3, 0, "const", 2, 1, True, "thorough")):
    case("C19", "psi-post-%d-%s-%s-%d-%d%s" % (n, "all" if nv is None else nv, mean, c, top, "-norm" if nm else ""), n, nv, mean, c, top, nm, tier=t,
         bounds="%d modes, %s pure states, %s mean, cutoff %d, post-selected values <= %d" % (n, "all" if nv is None else "%d-parameter family of" % nv, mean, c, top), opts=dict(weight=n * c))(_psi_post)


def _impure(h, fn):
    """purity check: every single-mode covariance that is not pure is refused"""
    q = h.mod("thewalrus.quantum")
    hbar = h.pos("hbar")
    V = pure_family(h, 1, hbar, 0, 23)
    k = h.real("k", 0, 4)
    h.assume(h.Or(k > h.num(11) / 10, k < h.num(9) / 10))
    C = h.array([[k * x for x in r] for r in V], shape=(2, 2))
    m = h.array([h.num(0), h.num(0)], shape=(2,))
    if fn == "amp":
        h.raises("impure", lambda: q.pure_state_amplitude(m, C, [1], hbar=hbar), ValueError)
    else:
        h.raises("impure", lambda: q.state_vector(m, C, cutoff=2, hbar=hbar), ValueError)


case("C19", "impure-amplitude", "amp", bounds="1 mode, multiples of one pure covariance")(_impure)
case("C19", "impure-vector", "vec", bounds="1 mode, multiples of one pure covariance")(_impure)
