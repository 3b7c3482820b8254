"""Gradients of Fock gates are the exact derivatives.

Symbolic inputs: all gate parameters.
Oracle: d/dx G = X G with the generator X of each parameter (a quadratic or linear form in creation and annihilation operators obtained from
the definition of the gate), every element computed from the gate tensor of a larger cutoff (decided by C22).
Assumptions:
- exact arithmetic
- cutoffs bounded as listed per case
"""
from itertools import product

from engine.harness import case
from .c22 import GATES, params


def _apply(h, G, terms, ix, n):
    """<ix| sum_t coeff * (operator word) G>, words over ('+', k) / ('-', k), read left to right"""
    m, p = ix[:n], ix[n:]
    tot = h.num(0)
    for co, word in terms:
        # <m| word : act to the left with the adjoint of each letter in turn
        cur = list(m)
        w = 1
        for kind, k in word:
            if kind == "+":
                if cur[k] == 0:
                    w = 0
                    break
                w *= cur[k]
                cur[k] -= 1
            else:
                cur[k] += 1
                w *= cur[k]
        if w == 0:
            continue
        tot = tot + co * h.sqrt(h.num(w)) * G[tuple(cur) + tuple(p)]
    return tot


def _generators(h, name, r, phi):
    e = h.cos(phi) + h.I * h.sin(phi)
    ec = h.conj(e)
    half = h.num(1) / 2
    if name == "displacement":
        # exp(r (e a^dag - e* a))
        return [(e, [("+", 0)]), (-ec, [("-", 0)])], lambda m, p: h.I * (m[0] - p[0])
    if name == "squeezing":
        # exp(r/2 (e* a^2 - e a^dag^2))
        return [(half * ec, [("-", 0), ("-", 0)]), (-half * e, [("+", 0), ("+", 0)])], lambda m, p: h.I * half * (m[0] - p[0])
    if name == "two_mode_squeezing":
        # exp(r (e a^dag b^dag - e* a b))
        return [(e, [("+", 0), ("+", 1)]), (-ec, [("-", 0), ("-", 1)])], lambda m, p: h.I * half * (m[0] + m[1] - p[0] - p[1])
    if name == "beamsplitter":
        # exp(theta (e b^dag a - e* a^dag b))
        return [(e, [("+", 1), ("-", 0)]), (-ec, [("+", 0), ("-", 1)])], lambda m, p: h.I * (m[1] - p[1])
    # mzgate: U = [[u(v-1), i(1+v)], [iu(1+v), 1-v]]/2, dU/dtheta U^dag = i/2 [[1, -i], [i, 1]]; the external phase acts first on mode 0
    return ([(h.I * half, [("+", 0), ("-", 0)]), (half, [("+", 0), ("-", 1)]), (-half, [("+", 1), ("-", 0)]), (h.I * half, [("+", 1), ("-", 1)])],
            lambda m, p: h.I * p[0])


def _grad(h, name, cutoff):
    fg = h.mod("thewalrus.fock_gradients")
    n = GATES[name]
    r, phi = params(h, name)
    f = getattr(fg, name)
    G = f(r, phi, cutoff + (2 if n == 1 else 1))
    T = f(r, phi, cutoff)
    g1, g2 = getattr(fg, "grad_" + name)(T, r, phi)
    terms, ang = _generators(h, name, r, phi)
    for g in (g1, g2):
        h.true("shape", g.shape == (cutoff,) * (2 * n))
    for ix in product(range(cutoff), repeat=2 * n):
        h.eq("d1%s" % (ix,), g1[ix], _apply(h, G, terms, ix, n))
        h.eq("d2%s" % (ix,), g2[ix], ang(ix[:n], ix[n:]) * T[ix])
    h.eq("gate unchanged", T, f(r, phi, cutoff))


for name, cs, tc in (("displacement", (1, 6), 10), ("squeezing", (2, 7), 11), ("two_mode_squeezing", (1, 4), 5), ("beamsplitter", (1, 4), 5), ("mzgate", (1, 3), 5)):
    for c in cs:
        case("C23", "grad-%s-%d" % (name, c), name, c, bounds="every parameter, cutoff %d" % c, opts=dict(weight=c))(_grad)
    case("C23", "grad-%s-%d" % (name, tc), name, tc, tier="thorough", bounds="every parameter, cutoff %d" % tc, opts=dict(weight=tc))(_grad)
case("C23", "grad-squeezing-1", "squeezing", 1, bounds="every parameter, cutoff 1")(_grad)
