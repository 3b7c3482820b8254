"""Bristolian functions are threshold-detection probabilities.

Symbolic inputs: every (complex) entry of the scattering matrix A and of the loss block L with
E = L^H L, unitaries and lossy blocks parametrised by symbolic beam-splitter angles and phases;
input occupations and click patterns are symbolic choices over all patterns within the stated totals.
Oracle: sum over all output photon patterns of |permanent|^2 with factorial normalisation.
Assumptions:
- exact arithmetic (floating-point rounding is outside the claim)
- mode and photon numbers bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .oracles import perm, rows, expand_reps
from .oracles import fact as _fact1


def fact(ns):
    r = 1
    for x in ns:
        r *= _fact1(x)
    return r


def _compositions(total, parts, least):
    if parts == 0:
        return [[]] if total == 0 else []
    return [[k] + r for k in range(least, total + 1) for r in _compositions(total - k, parts - 1, least)]


def _click_sum(h, A, L, cols):
    """sum over output patterns with every row of A hit at least once and any number in L"""
    n = len(cols)
    R = rows(A) + rows(L)
    a, l = len(rows(A)), len(rows(L))
    tot = 0
    for k in range(n + 1):
        for pa in _compositions(k, a, 1):
            for pl in _compositions(n - k, l, 0):
                rr = expand_reps(list(pa) + list(pl))
                p = perm(R, rr, cols)
                tot = tot + h.re(p * h.conj(p)) / (fact(pa) * fact(pl))
    return tot


def _brs(h, m, r, n):
    tw = h.mod("thewalrus")
    A = h.matrix("a", m, n, ld="complex", kind="cplx")
    L = h.matrix("l", r, n, ld="complex", kind="cplx")
    E = h.mm(h.conj(L).T, L) if r else h.np.zeros((n, n), dtype=complex)
    h.eq("brs", tw.brs(A, E), _click_sum(h, A, L, list(range(n))))


def _brs_line(h, m, r, n, seed):
    tw = h.mod("thewalrus")
    A = h.line_matrix("a", m, n, seed, ld="complex")
    L = h.line_matrix("l", r, n, seed + 1, ld="complex")
    E = h.mm(h.conj(L).T, L)
    h.eq("brs", tw.brs(A, E), _click_sum(h, A, L, list(range(n))))


def _ubrs(h, m, n):
    tw = h.mod("thewalrus")
    A = h.matrix("a", m, n, ld="complex", kind="cplx")
    L = h.np.zeros((0, n), dtype=complex)
    h.eq("ubrs", tw.ubrs(A), _click_sum(h, A, L, list(range(n))))


def _ubrs_line(h, m, n, seed):
    tw = h.mod("thewalrus")
    A = h.line_matrix("a", m, n, seed, ld="complex")
    L = h.np.zeros((0, n), dtype=complex)
    h.eq("ubrs", tw.ubrs(A), _click_sum(h, A, L, list(range(n))))


for m, r, n in ((0, 1, 1), (1, 1, 1), (1, 1, 2), (2, 1, 2), (1, 2, 2), (0, 1, 2)):
    case("C07", "brs-%d-%d-%d" % (m, r, n), m, r, n, bounds="%d clicks, %d lost modes, %d photons, all complex entries" % (m, r, n))(_brs)
for m, r, n in ((2, 1, 3), (3, 1, 3), (1, 2, 3)):
    case("C07", "brs-line-%d-%d-%d" % (m, r, n), m, r, n, 3, bounds="%d clicks, %d lost modes, %d photons, generic lines" % (m, r, n))(_brs_line)
for m, n in ((1, 1), (1, 2), (2, 2), (2, 1)):
    case("C07", "ubrs-%d-%d" % (m, n), m, n, bounds="%d clicks, %d photons, all complex entries" % (m, n))(_ubrs)
for m, n in ((2, 3), (3, 3), (1, 4), (3, 4), (4, 4)):
    case("C07", "ubrs-line-%d-%d" % (m, n), m, n, 5, bounds="%d clicks, %d photons, generic line" % (m, n))(_ubrs_line)
case("C07", "brs-3-1-4", 3, 1, 4, 7, tier="thorough", bounds="3 clicks, 1 lost mode, 4 photons, generic lines")(_brs_line)


def unitary(h, M, name="th"):
    """a unitary with symbolic angle and phase per beam splitter"""
    np_ = h.np
    U = [[1 if i == j else 0 for j in range(M)] for i in range(M)]
    k = 0
    for (i, j) in [(0, 1), (1, 2), (0, 2)][: (1 if M == 2 else 2) if M > 1 else 0]:
        t = h.real("%s%d" % (name, k))
        c, s = h.cos(t), h.sin(t)
        ph = 1
        if k == 0:
            f = h.real("ph%d" % k)
            ph = h.cos(f) + h.I * h.sin(f)
        B = [[1 if a == b else 0 for b in range(M)] for a in range(M)]
        B[i][i], B[i][j], B[j][i], B[j][j] = c, -h.conj(ph) * s if k == 0 else -s, ph * s, c
        U = [[sum(B[a][x] * U[x][b] for x in range(M)) for b in range(M)] for a in range(M)]
        k += 1
    return U


def _fock(h, M, lo, hi):
    tw = h.mod("thewalrus")
    U = h.matrix("u", M, M, ld="complex", kind="cplx") if M <= 2 else h.line_matrix("u", M, M, 4, ld="complex")
    n = h.choice("n", [list(x) for x in product(range(hi + 1), repeat=M) if lo <= sum(x) <= hi])
    m = h.choice("m", [list(x) for x in product(range(hi + 1), repeat=M) if sum(x) == sum(n)])
    p = perm(rows(U), expand_reps(m), expand_reps(n))
    h.eq("fock_prob", h.mod("thewalrus._permanent").fock_prob(n, m, U), h.re(p * h.conj(p)) / (fact(n) * fact(m)))


for M, lo, hi in ((1, 0, 3), (2, 0, 3), (3, 0, 2), (3, 3, 3)):
    case("C07", "fock_prob-%d-%d" % (M, hi), M, lo, hi, bounds="%d modes, all input/output patterns with %d..%d photons" % (M, lo, hi), opts=dict(weight=20, max_paths=4000))(_fock)


def _fock_bad(h):
    tw = h.mod("thewalrus")
    U = h.matrix("u", 2, 2, ld="complex")
    n = h.choice("n", [[a, b] for a in range(3) for b in range(3)])
    m = h.choice("m", [[a, b] for a in range(3) for b in range(3)])
    if sum(n) != sum(m):
        h.raises("fock_prob-mismatch", lambda: h.mod("thewalrus._permanent").fock_prob(n, m, U), ValueError)
    else:
        h.true("match", True)


case("C07", "fock_prob-reject", bounds="2 modes, every pair of patterns up to 2 photons per mode with different totals")(_fock_bad)


def _thr(h, Mfull, Mout, loss, lo, hi):
    """T = first Mout rows of a (possibly loss-dilated) unitary"""
    tw = h.mod("thewalrus")
    U = unitary(h, Mfull)
    Trows = U[:Mout]
    Lrows = U[Mout:]
    if loss:
        new = []
        for k in range(len(Trows)):
            e = h.real("eta%d" % k, 0, 1)
            h.assume(e >= 0)
            h.assume(e <= 1)
            a, b = h.sqrt(e), h.sqrt(1 - e)
            Lrows = Lrows + [[b * x for x in Trows[k]]]
            new.append([a * x for x in Trows[k]])
            if loss == 1:
                new += Trows[k + 1:]
                break
        Trows = new
    T = h.array(Trows, ld="complex", shape=(Mout, Mfull))
    n = h.choice("n", [list(x) for x in product(range(hi + 1), repeat=Mfull) if lo <= sum(x) <= hi])
    d = h.choice("d", [list(x) for x in product((0, 1), repeat=Mout)])
    cols = expand_reps(n)
    R = Trows + Lrows
    tot = 0
    N = sum(n)
    for pat in product(*([range(0, 1) if not x else range(1, N + 1) for x in d] + [range(N + 1)] * len(Lrows))):
        if sum(pat) != N:
            continue
        p = perm(R, expand_reps(pat), cols)
        tot = tot + h.re(p * h.conj(p)) / fact(pat)
    h.eq("fock_threshold_prob", h.mod("thewalrus._permanent").fock_threshold_prob(n, d, T), tot / fact(n))


for nm, a in dict(u1=(1, 1, 0, 0, 3), u2=(2, 2, 0, 0, 2), u2out1=(2, 1, 0, 0, 2), u3=(3, 3, 0, 0, 1), u3out2=(3, 2, 0, 1, 1), lossy1=(1, 1, 1, 0, 2), lossy2=(2, 2, 1, 0, 2)).items():
    case("C07", "threshold-" + nm, *a, bounds="unitary on %d modes, %d detectors, %d lossy, %d..%d photons, all click patterns" % a, opts=dict(weight=50))(_thr)
for nm, a in dict(u3=(3, 3, 0, 2, 2), u2=(2, 2, 0, 3, 3), lossy22=(2, 2, 2, 0, 2), u3out2=(3, 2, 0, 2, 2)).items():
    case("C07", "threshold-deep-" + nm, *a, tier="thorough", bounds="unitary on %d modes, %d detectors, %d lossy, %d..%d photons, all click patterns" % a, opts=dict(weight=50))(_thr)


def _thr_bad(h):
    tw = h.mod("thewalrus")
    a = h.real("a")
    mo, mi = h.choice("shape", [(1, 1), (1, 2), (2, 2), (2, 1), (3, 2), (2, 3)])
    ln = h.choice("ln", [1, 2, 3])
    ld = h.choice("ld", [1, 2, 3])
    T = h.array([[a * (i + 1) / (j + 1) / 50 for j in range(mi)] for i in range(mo)], ld="complex", shape=(mo, mi))
    if ln != mi or ld != mo or mo > mi:
        h.raises("threshold-shape", lambda: h.mod("thewalrus._permanent").fock_threshold_prob([1] * ln, [1] * ld, T), ValueError)
    else:
        h.true("fits", True)


case("C07", "threshold-reject", bounds="every mismatch of up to 3 modes")(_thr_bad)
