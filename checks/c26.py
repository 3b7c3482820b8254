"""Results do not depend on the choice of hbar.

Symbolic inputs: means and covariances (one mode: all; two modes: families), hbar.
Oracle: none but the function itself: f(sqrt(hbar/2) mu, hbar/2 V, hbar) is f(mu, V, 2), or f(mu, V) rescaled where f returns phase-space quantities;
every public function with an hbar argument, each called with the argument by keyword and, for hbar = 2, by its default.
Assumptions:
- exact arithmetic; np.allclose modelled as exact equality; eigenvalues of Hermitian matrices outside [-1e-3, 0) times hbar/2 (absolute
  tolerance of the predicates, decided by C14) and hbar in [1/50, 200]
- eigvalsh, eigvals replaced by their contract (real spectrum of the matrix, linear under scaling); inside the functions that only consult them
  is_pure_cov / is_valid_cov answer as the family of states is, and must be asked about the caller's state with the caller's hbar
- the samplers, which depend on draws, are decided for every hbar by C27, C28, C30
"""
from fractions import Fraction
from itertools import permutations

from engine.harness import case
from .c14 import Spectra
from .c25 import Spectrum
from .gauss import add_diag, block, cov_family, cov_full, posdef_all, pure_family
from .oracles import det, rows


def _arr(h, V):
    return h.array(V, shape=(len(V), len(V)))


class Pair:
    def __init__(self, h, n, kind, mean, hbar=None):
        self.h, self.n = h, n
        N = 2 * n
        q = h.real("q", Fraction(1, 10), 10)
        self.q, self.hbar = q, 2 * q * q
        two = h.num(2)
        self.pure = kind.startswith("pure")
        if kind == "all":
            V = cov_full(h, n)
            posdef_all(h, add_diag(V, h.num(1)))
        elif kind == "pure-all":
            V = pure_family(h, n, two, None, 61)
        elif kind.startswith("pure"):
            V = pure_family(h, n, two, int(kind[4:]), 61)
        else:
            V = cov_family(h, n, two, int(kind), 62, base=Fraction(3, 2) if h.symbolic else 1.5)
            posdef_all(h, add_diag(V, h.num(1)))
        self.V = V
        self.mu = [h.num(0)] * N if mean == "zero" else [h.num((5 * i + 2) % 7 - 3) / 4 for i in range(N)] if mean == "const" else [h.real("m%d" % i, kind="gen") for i in range(N)]
        self.asked = 0

    def cov(self, s):
        c = self.q * self.q if s else 1
        return _arr(self.h, [[c * x for x in r] for r in self.V])

    def mean(self, s):
        c = self.q if s else 1
        return self.h.array([c * x for x in self.mu], shape=(2 * self.n,))

    def predicates(self, mod="thewalrus.quantum.gaussian_checks", classical=None, valid=True, pure=True):
        """is_pure_cov / is_valid_cov must be asked about the (reduced) state"""
        h = self.h

        def ask(name, answer):
            def f(orig, cov, hbar=2, **k):
                self.asked += 1
                if not h.symbolic:
                    return orig(cov, hbar=hbar, **k)
                from engine.scalar import tos

                R = [[tos(x) * 2 / hbar for x in r] for r in rows(cov)]
                m = len(R) // 2
                ok = any(all((R[a][b] - W[a][b]).is_zero() for a in range(2 * m) for b in range(2 * m))
                         for S in permutations(range(self.n), m) for W in [block(self.V, self.n, S)])
                h.true("%s is asked about the state with its hbar (%d)" % (name, self.asked), ok)
                return answer(m)

            h.wrap(mod, name, f)

        ask("is_valid_cov", lambda m: valid)
        if pure:
            ask("is_pure_cov", lambda m: self.pure and m == self.n)
        if classical:
            ask("is_classical_cov", lambda m: classical[m - 1])


# name, module, call(f, P, s, kw) -> result or list of results, scale exponent of q of each result, modes/families
def _call(h, P, f, args, s, by):
    kw = {"hbar": P.hbar} if s else ({"hbar": 2} if by else {})
    a = [P.mean(s) if x == "mu" else P.cov(s) if x == "V" else x for x in args[0]]
    k = dict(args[1]) if len(args) > 1 else {}
    return f(*a, **k, **kw)


def _same(h, label, a, b):
    if isinstance(a, (tuple, list)):
        h.true(label + " length", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            _same(h, "%s %d" % (label, i), x, y)
    else:
        h.eq(label, a, b)


TABLE = {
    # quantum.conversions
    "Qmat": ("thewalrus.quantum", [(["V"],)], 0),
    "Amat": ("thewalrus.quantum", [(["V"],)], 0),
    "complex_to_real_displacements": ("thewalrus.quantum", [(["mu"],)], 0),
    # means and variances
    "photon_number_mean": ("thewalrus.quantum", [(["mu", "V", "j"],)], 0),
    "photon_number_mean_vector": ("thewalrus.quantum", [(["mu", "V"],)], 0),
    "photon_number_covar": ("thewalrus.quantum", [(["mu", "V", "j", "k"],)], 0),
    "photon_number_covmat": ("thewalrus.quantum", [(["mu", "V"],)], 0),
    "photon_number_expectation": ("thewalrus.quantum", [(["mu", "V", "modes"],)], 0),
    "photon_number_squared_expectation": ("thewalrus.quantum", [(["mu", "V", "modes"],)], 0),
    "normal_ordered_expectation": ("thewalrus.quantum", [(["mu", "V", "rpt"],)], 0),
    "s_ordered_expectation": ("thewalrus.quantum", [(["mu", "V", "rpt"],), (["mu", "V", "rpt"], dict(s=1))], 0),
    "mean_clicks": ("thewalrus.quantum", [(["V"],)], 0),
    "variance_clicks": ("thewalrus.quantum", [(["V"],)], 0),
    "photon_number_cumulant": ("thewalrus.quantum", [(["mu", "V", "modes"],)], 0),
    "click_cumulant": ("thewalrus.quantum", [(["mu", "V", "modes"],)], 0),
    "photon_number_moment": ("thewalrus.quantum.means_and_variances", [(["mu", "V", "powers"],)], 0),
    "_prefactor": ("thewalrus.quantum.fock_tensors", [(["mu", "V"],)], 0),
    "density_matrix_element": ("thewalrus.quantum", [(["mu", "V", "row", "row"],), (["mu", "V", "row", "col"],), (["mu", "V", "row", "row"], dict(include_prefactor=False))], 0),
    "density_matrix": ("thewalrus.quantum", [(["mu", "V"], dict(cutoff=2)), (["mu", "V"], dict(cutoff=2, post_select={0: 1})), (["mu", "V"], dict(cutoff=2, post_select={0: 1}, normalize=True))], 0),
    "probabilities": ("thewalrus.quantum", [(["mu", "V", 2],), (["mu", "V", 2], dict(parallel=True))], 0),
    "tvd_cutoff_bounds": ("thewalrus.quantum", [(["mu", "V", 2],), (["mu", "V", 2], dict(check_is_valid_cov=False))], 0),
    "n_body_marginals": ("thewalrus.quantum", [(["mu", "V", 2, 1],), (["mu", "V", 2, "n"],)], 0),
    "threshold_detection_prob": ("thewalrus", [(["mu", "V", "clicks"],)], 0),
    "mean_photon_number": ("thewalrus.symplectic", [(["mu", "V"],)], 0),
    "mu_to_alpha": ("thewalrus.samples", [(["mu"],)], 0),
}
PURE = {
    "pure_state_amplitude": ("thewalrus.quantum", [(["mu", "V", "row"],), (["mu", "V", "row"], dict(include_prefactor=False)), (["mu", "V", "row"], dict(check_purity=False))], 0),
    "state_vector": ("thewalrus.quantum", [(["mu", "V"], dict(cutoff=2)), (["mu", "V"], dict(cutoff=2, post_select={0: 1})), (["mu", "V"], dict(cutoff=2, check_purity=False)),
                                           (["mu", "V"], dict(cutoff=2, post_select={0: 1}, normalize=True))], 0),
    "probabilities": ("thewalrus.quantum", [(["mu", "V", 2],)], 0),
    "tvd_cutoff_bounds": ("thewalrus.quantum", [(["mu", "V", 2],)], 0),
    "n_body_marginals": ("thewalrus.quantum", [(["mu", "V", 2, "n"],)], 0),
}
FILL = {
    1: dict(j=[0], k=[0], modes=[[0], [0, 0]], rpt=[[1, 1], [2, 0]], powers=[{0: 1}, {0: 2}], row=[[0], [1], [2]], col=[[1]], clicks=[[0], [1]], n=[1]),
    2: dict(j=[0, 1], k=[1], modes=[[0, 1], [1]], rpt=[[1, 1, 1, 1], [0, 1, 1, 0]], powers=[{0: 1, 1: 1}, {1: 2}], row=[[0, 1], [1, 1], [2, 0]], col=[[0, 2]], clicks=[[1, 1], [0, 1]], n=[2]),
}


class Dask:
    """dask.delayed and dask.compute without worker processes (in replays)"""

    @staticmethod
    def delayed(f):
        return lambda *a, **k: lambda: f(*a, **k)

    @staticmethod
    def compute(*a, scheduler=None):
        return tuple(f() for f in a)


def _fn(h, name, table, n, kind, mean):
    mod, calls, _ = table[name]
    m = h.mod(mod)
    P = Pair(h, n, kind, mean)
    if name in ("probabilities", "tvd_cutoff_bounds", "n_body_marginals", "pure_state_amplitude", "state_vector", "density_matrix"):
        P.predicates()
    f = getattr(m, name)
    fill = FILL[n]
    sel = {k: h.choice(k, v) for k, v in fill.items() if any(k in a[0] for a in calls)}
    for i, a in enumerate(calls):
        if "parallel" in (a[1] if len(a) > 1 else {}) and not h.symbolic:
            h.patch("thewalrus.quantum.fock_tensors", "dask", Dask)
        if n == 1 and "post_select" in (a[1] if len(a) > 1 else {}):
            continue
        args = ([sel.get(x, x) if isinstance(x, str) else x for x in a[0]],) + tuple(a[1:])
        ref = _call(h, P, f, args, False, False)
        _same(h, "default is 2 (%d)" % i, _call(h, P, f, args, False, True), ref)
        _same(h, "any hbar (%d)" % i, _call(h, P, f, args, True, True), ref)


ZERO = ("mean_clicks", "variance_clicks", "Qmat", "Amat")
for nm in TABLE:
    heavy = nm in ("density_matrix", "density_matrix_element", "probabilities", "tvd_cutoff_bounds", "n_body_marginals", "threshold_detection_prob", "click_cumulant", "_prefactor")
    mom = TABLE[nm][1][0][0]
    case("C26", nm + "-1", nm, TABLE, 1, "1" if heavy else "all", "zero" if nm in ZERO else "all", bounds="%s: 1 mode, %s, every hbar" % (nm, "one-parameter family of covariances, all means" if heavy else "every state"),
         opts=dict(weight=3 if heavy else 1))(_fn)
    if nm != "mean_photon_number":
        case("C26", nm + "-2", nm, TABLE, 2, "0" if nm in ("probabilities", "n_body_marginals") else "1", "zero" if nm in ZERO else "const" if heavy else "all",
             bounds="%s: 2 modes, %s, %s means, every hbar" % (nm, "one state" if nm in ("probabilities", "n_body_marginals") else "one-parameter family of covariances", "some" if heavy else "all"), opts=dict(weight=6 if heavy else 2))(_fn)
for nm in PURE:
    case("C26", nm + "-pure-1", nm, PURE, 1, "pure-all", "const", bounds="%s: 1 mode, every pure covariance, some means, every hbar" % nm, opts=dict(weight=2))(_fn)
    case("C26", nm + "-pure-2", nm, PURE, 2, "pure1", "const", bounds="%s: 2 modes, one-parameter family of pure states, every hbar" % nm, opts=dict(weight=6))(_fn)


def _phase(h, n):
    """functions returning phase-space quantities: covariances scale with hbar, means with its square root"""
    q = h.mod("thewalrus.quantum")
    s = h.mod("thewalrus.symplectic")
    P = Pair(h, n, "all" if n == 1 else "2", "all")
    N = 2 * n
    k, k2 = P.q, P.q * P.q
    z = h.cplx("z")
    mode = h.choice("mode", list(range(n)))
    h.eq("Covmat", q.Covmat(q.Qmat(P.cov(0)), hbar=P.hbar), P.cov(1))
    h.eq("Covmat default", q.Covmat(q.Qmat(P.cov(0))), P.cov(0))
    al = [h.cplx("a%d" % i) for i in range(n)]
    be = h.array(al + [h.conj(x) for x in al], ld="complex", shape=(N,))
    ref = q.real_to_complex_displacements(be)
    h.eq("real_to_complex_displacements default", q.real_to_complex_displacements(be, hbar=2), ref)
    h.eq("real_to_complex_displacements", q.real_to_complex_displacements(be, hbar=P.hbar), k * ref)
    ref = s.expand_vector(z if h.symbolic else complex(z), mode, n)
    h.eq("expand_vector default", s.expand_vector(z if h.symbolic else complex(z), mode, n, 2), ref)
    h.eq("expand_vector", s.expand_vector(z if h.symbolic else complex(z), mode, n, hbar=P.hbar), k * ref)
    r0, r1, rd = s.vacuum_state(n, hbar=2), s.vacuum_state(n, hbar=P.hbar), s.vacuum_state(n)
    for i, c in ((0, k), (1, k2)):
        h.eq("vacuum_state %d" % i, r1[i], c * r0[i])
        h.eq("vacuum_state default %d" % i, rd[i], r0[i])
    T = h.array([[h.cplx("t%d%d" % (i, j)) for j in range(n)] for i in range(n + 1)], ld="complex", shape=(n + 1, n))
    eta = h.real("eta", 0, 1)
    nb = h.real("nb", 0, 2)
    for nm, f in (("passive_transformation", lambda u, kw: s.passive_transformation(P.mean(u), P.cov(u), T, **kw)),
                  ("loss", lambda u, kw: s.loss(P.mean(u), P.cov(u), eta, mode, nbar=nb, **kw)), ("loss default nbar", lambda u, kw: s.loss(P.mean(u), P.cov(u), eta, mode, **kw))):
        r0, r1, rd = f(0, dict(hbar=2)), f(1, dict(hbar=P.hbar)), f(0, {})
        for i, c in ((0, k), (1, k2)):
            h.eq("%s %d" % (nm, i), r1[i], c * r0[i])
            h.eq("%s default %d" % (nm, i), rd[i], r0[i])


for n in (1, 2):
    case("C26", "phase-space-%d" % n, n, bounds="conversions, vacuum, loss and passive channels of %d modes, every hbar" % n, opts=dict(weight=3))(_phase)


def _predicate(h, which, n, kind):
    q = h.mod("thewalrus.quantum")
    P = Pair(h, n, kind, "zero")
    if which == "is_classical_cov":
        P.predicates(valid=h.choice("valid", [True, False]), pure=False)
    subs = [list(range(n))]
    sp = Spectra(h)
    for S in subs:
        W = block(P.V, n, S)
        m = len(S)
        H = [[W[i][j] + (h.I if j == i + m else -h.I if i == j + m else 0) for j in range(2 * m)] for i in range(2 * m)]
        for t, M in (("v", H), ("c", add_diag(W, h.num(-1)))):
            if t != ("c" if which == "is_classical_cov" else "v"):
                continue
            ls = sp.of(M)
            if not h.symbolic:
                h.assume(all(x > 1e-3 or x < -1e-3 or abs(x) < 1e-12 for x in ls))
                continue
            if m == 1:
                h.assume(h.iseq(ls[0] + ls[1], h.re(M[0][0] + M[1][1])))
                h.assume(h.iseq(ls[0] * ls[1], h.re(det(M))))
            # numbers of negative and of vanishing eigenvalues
            neg = h.choice("neg%s%d" % (t, m), [0, 1] if 2 * m > 2 else [0, 1, 2])
            zer = h.choice("zer%s%d" % (t, m), list(range(0, 2 * m - neg + 1, 1 if m == 1 else 2)))
            for i, x in enumerate(ls):
                h.assume(x <= -h.num(1) / 500 if i < neg else h.iseq(x, 0) if i < neg + zer else x >= h.num(1) / 500)
    h.assume(P.q >= Fraction(1, 10) if h.symbolic else True)
    f = getattr(q, which)
    a, b, c = f(P.cov(0)), f(P.cov(0), hbar=2), f(P.cov(1), hbar=P.hbar)
    h.true("default is 2", a == b)
    h.true("any hbar", a == c)


def _find(h, n):
    """asks is_classical_cov about the first modes, with the caller's hbar"""
    q = h.mod("thewalrus.quantum")
    P = Pair(h, n, "1", "zero")
    k = h.choice("classical", list(range(n + 1)))
    P.predicates(classical=[i < k for i in range(n)])
    a, b, c = (q.find_classical_subsystem(P.cov(0)), q.find_classical_subsystem(P.cov(0), hbar=2), q.find_classical_subsystem(P.cov(1), hbar=P.hbar))
    h.true("default is 2", a == b)
    h.true("any hbar", a == c)


for n in (1, 2, 3):
    case("C26", "find_classical_subsystem-%d" % n, n, bounds="find_classical_subsystem: %d modes, every hbar" % n)(_find)
for w in ("is_valid_cov", "is_pure_cov", "is_classical_cov"):
    k1, b1 = ("1", "one-parameter family") if w == "is_classical_cov" else ("all", "every symmetric matrix")
    case("C26", w + "-1", w, 1, k1, bounds="%s: 1 mode, %s (spectrum away from the tolerance), every hbar" % (w, b1))(_predicate)
    case("C26", w + "-2", w, 2, "0" if w == "is_pure_cov" else "1", bounds="%s: 2 modes, %s, every hbar" % (w, "one matrix (its spectrum arbitrary)" if w == "is_pure_cov" else "one-parameter family"), opts=dict(weight=3))(_predicate)


def _fid(h, n, pure):
    q = h.mod("thewalrus.quantum")
    P = Pair(h, n, "pure-all" if pure and n == 1 else "pure1" if pure else "0", "all")
    W = cov_family(h, n, h.num(2), 1 if n == 1 else 0, 63, name="w", base=Fraction(3, 2) if h.symbolic else 1.5)
    posdef_all(h, W)
    nu = [h.num(3 - i) / 5 for i in range(2 * n)]
    b = lambda s: [h.array([(P.q if s else 1) * x for x in nu], shape=(2 * n,)), _arr(h, [[(P.q * P.q if s else 1) * x for x in r] for r in W])]
    ref = q.fidelity(P.mean(0), P.cov(0), *b(0))
    h.eq("default is 2", q.fidelity(P.mean(0), P.cov(0), *b(0), hbar=2), ref)
    h.eq("any hbar", q.fidelity(P.mean(1), P.cov(1), *b(1), hbar=P.hbar), ref)


for n, p in ((1, True), (1, False), (2, True)):
    case("C26", "fidelity-%d-%s" % (n, "pure" if p else "mixed"), n, p, bounds="fidelity of %d-mode states, %s, every hbar" % (n, "one pure" if p else "both mixed"), opts=dict(weight=4))(_fid)


def _ent(h, which, n, kind):
    q = h.mod("thewalrus.quantum.entanglement")
    P = Pair(h, n, kind, "zero")
    posdef_all(h, P.V)
    sp = Spectrum(h, h.num(2), P.V, pure=P.pure)
    if which == "vonneumann_entropy":
        f = lambda C, **k: q.vonneumann_entropy(C, **k)
        sp.of(P.V, physical=True)
    elif which == "entanglement_entropy":
        f = lambda C, **k: q.entanglement_entropy(C, modes_A=[1], **k)
    else:
        f = lambda C, **k: q.log_negativity(C, split=1, **k)
    a, b, c = f(P.cov(0)), f(P.cov(0), hbar=2), f(P.cov(1), hbar=P.hbar)
    h.eq("default is 2", b, a)
    h.eq("any hbar", c, a)


for w, n, k in (("vonneumann_entropy", 1, "1"), ("vonneumann_entropy", 2, "1"), ("entanglement_entropy", 2, "pure1"), ("log_negativity", 2, "1")):
    case("C26", "%s-%d" % (w, n), w, n, k, bounds="%s: %d modes, one-parameter family, every hbar" % (w, n), opts=dict(weight=4))(_ent)
