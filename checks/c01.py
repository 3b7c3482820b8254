"""Hafnian and loop hafnian: every algorithm equals the sum over perfect matchings.

Symbolic inputs: all entries of the matrix are solver variables (generic real symbols;
the code is ring-only, so the polynomial identity extends to complex entries), or lie on
generic lines A0 + t*A1 through matrix space for the larger sizes.
Oracle: the defining sum over perfect matchings (loops: over matchings in which a vertex may be matched to itself), expanded by an independent enumeration (checks/oracles.py).
Assumptions:
- exact arithmetic (floating-point rounding is outside the claim)
- np.allclose tests are modelled as exact equality
- thewalrus.charpoly.powertrace replaced by its contract tr(A^k) (decided by C09)
- sizes bounded as listed per case
"""
from engine.harness import case
from .common import contract_powertrace
from .oracles import haf, rows


def _go(h, n, method, loop, line=None):
    contract_powertrace(h)
    tw = h.mod("thewalrus")
    if line is None:
        A = h.symmetric("a", n)
    else:
        A = h.line_symmetric("a", n, seed=line, nv=1)
    R = rows(A)
    got = tw.hafnian(A, method=method, loop=loop)
    h.eq("%s-%d%s" % (method, n, "-loop" if loop else ""), got, haf(R, range(n), loop))


for n in (1, 2, 3, 4, 5, 6):
    for method in ("glynn", "inclexcl", "recursive"):
        case("C01", "hafnian-%s-%d" % (method, n), n, method, False, bounds="symmetric %dx%d, all entries symbolic" % (n, n))(_go)
    if n <= 5:
        case("C01", "loop-hafnian-%d" % n, n, "glynn", True, bounds="symmetric %dx%d, all entries symbolic" % (n, n))(_go)
for n, m, loop in ((6, "glynn", True), (7, "glynn", True), (8, "glynn", False), (8, "inclexcl", False), (8, "recursive", False), (8, "glynn", True)):
    case("C01", "line-%s-%d%s" % (m, n, "-loop" if loop else ""), n, m, loop, 7 + n,
         bounds="%dx%d symmetric on a generic line A0+t*A1" % (n, n), opts=dict(weight=5))(_go)
