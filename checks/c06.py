"""Permanents equal the sum over permutations.

Symbolic inputs: every matrix entry (generic complex, integer-typed and real cases), every repetition
vector within the stated total.  The Gray-code loops of both algorithms, the small-size special
cases, the input checks and the hafnian reduction of the repeated permanent are executed.
Oracle: the sum over permutations, expanded by an independent enumeration, of the (repeated) matrix.
Assumptions:
- exact arithmetic (floating-point rounding and machine-integer overflow are outside the claim)
- thewalrus.charpoly.powertrace replaced by its contract tr(A^k) (decided by C09)
- sizes bounded as listed per case; sizes marked "line" decide the identity on generic lines A0 + t*A1
"""
from itertools import product

from engine.harness import case
from .common import contract_powertrace
from .oracles import perm, rows, expand_reps


def _perm(h, n, method, ld, line):
    tw = h.mod("thewalrus")
    if line:
        A = h.line_matrix("a", n, n, seed=line, ld=ld)
    else:
        A = h.matrix("a", n, n, ld=ld, kind="gen" if ld != "int" else "int") if ld != "int" else h.array(
            [[h.int("a_%d_%d" % (i, j), -3, 3) for j in range(n)] for i in range(n)], ld="int", shape=(n, n))
    R = rows(A)
    want = perm(R, list(range(n)), list(range(n)))
    if method in ("ryser", "bbfg"):
        h.eq("perm-" + method, tw.perm(A, method=method), want)
    elif method == "default":
        h.eq("perm-default", tw.perm(A), want)
    else:
        m = h.need("thewalrus._permanent", method)
        h.eq(method, getattr(m, method)(A), want)


for n in range(0, 6):
    for me in ("default", "ryser", "bbfg"):
        if me == "default" and n > 4:
            continue
        case("C06", "%s-%d" % (me, n), n, me, None, 0, bounds="%dx%d, every entry symbolic" % (n, n), opts=dict(weight=n ** 3))(_perm)
for n in (1, 2, 3):
    for me in ("perm_ryser", "perm_bbfg"):
        case("C06", "kernel-%s-%d" % (me, n), n, me, None, 0, bounds="%dx%d, every entry symbolic, kernel called directly" % (n, n))(_perm)
for n in (2, 3, 4):
    for me in ("ryser", "bbfg"):
        case("C06", "complex-%s-%d" % (me, n), n, me, "complex", 0, bounds="%dx%d complex-typed" % (n, n))(_perm)
for me in ("ryser", "bbfg"):
    case("C06", "line-%s-6" % me, 6, me, None, 3, bounds="6x6, generic line")(_perm)
    case("C06", "line-%s-7" % me, 7, me, None, 4, bounds="7x7, generic line")(_perm)
    case("C06", "line-%s-8" % me, 8, me, None, 5, tier="thorough", bounds="8x8, generic line")(_perm)
    case("C06", "%s-6" % me, 6, me, None, 0, tier="thorough", bounds="6x6, every entry symbolic", opts=dict(weight=300))(_perm)


def _intperm(h, n, me, vals):
    """integer-typed matrices: the result must not be truncated"""
    tw = h.mod("thewalrus")
    k = h.choice("k", vals)
    A = h.ints([[(3 * i + 2 * j + k * (i - j) + 1) % 7 - 2 for j in range(n)] for i in range(n)])
    R = rows(A)
    h.eq("int-" + me, tw.perm(A, method=me), perm(R, list(range(n)), list(range(n))))


for n in (2, 3, 4, 5):
    for me in ("ryser", "bbfg"):
        case("C06", "int-%s-%d" % (me, n), n, me, list(range(5)), bounds="integer-typed %dx%d family" % (n, n))(_intperm)


def _rep(h, n, lo, hi, tup):
    contract_powertrace(h)
    tw = h.mod("thewalrus")
    A = h.matrix("a", n, n)
    rpt = h.choice("rpt", [list(r) for r in product(range(hi + 1), repeat=n) if lo <= sum(r) <= hi])
    R = rows(A)
    idx = expand_reps(rpt)
    h.eq("permanent_repeated", tw.permanent_repeated(A, tuple(rpt) if tup else rpt), perm(R, idx, idx))


for n, hi in ((1, 4), (2, 3), (3, 3)):
    case("C06", "repeated-%d" % n, n, 0, hi, False, bounds="%d modes, repetitions with total 0..%d" % (n, hi), opts=dict(weight=30))(_rep)
case("C06", "repeated-tuple-2", 2, 0, 2, True, bounds="2 modes, repetitions given as a tuple")(_rep)
case("C06", "repeated-2-4", 2, 4, 4, False, tier="thorough", bounds="2 modes, total 4")(_rep)
case("C06", "repeated-4-3", 4, 1, 3, False, tier="thorough", bounds="4 modes, total 1..3")(_rep)


def _bad(h, kind):
    tw = h.mod("thewalrus")
    a = h.real("a")
    if kind == "list":
        h.raises("perm-list", lambda: tw.perm([[a, a], [a, a]]), TypeError)
    elif kind == "rect":
        r, c = h.choice("s", [(1, 2), (2, 3), (3, 2), (2, 1), (4, 3)])
        h.raises("perm-rect", lambda: tw.perm(h.array([[a] * c for _ in range(r)])), ValueError)
    else:
        n = h.choice("n", [1, 2, 3, 4])
        i = h.choice("i", list(range(n)))
        j = h.choice("j", list(range(n)))
        M = [[a + x + 2 * y for x in range(n)] for y in range(n)]
        M[i][j] = float("nan")
        h.raises("perm-nan", lambda: tw.perm(h.array(M)), ValueError)


for k in ("list", "rect", "nan"):
    case("C06", "reject-" + k, k, bounds="rejection of %s input" % k)(_bad)
