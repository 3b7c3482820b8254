"""Contracts shared by several checks."""
import os
import types


def native_module(name):
    """exec a module of the package with real numpy and identity-numba (no symbolic values)"""
    import numpy as np
    from engine import loader

    loader.World()
    code, p, pkg = loader.code_for(name)
    m = types.ModuleType(name)
    m.__package__ = name.rpartition(".")[0]

    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n == "numba" or n.startswith("numba."):
            sh = loader._SHIMS
            return sh[n] if fromlist else sh["numba"]
        return __import__(n, g, l, fromlist, level)

    import builtins

    b = dict(vars(builtins))
    b["__import__"] = imp
    m.__builtins__ = b
    exec(code, m.__dict__)
    return m


_MUT = {}


def powertrace_mutates():
    """does the real power-trace routine overwrite its argument?"""
    if "v" not in _MUT:
        import numpy as np

        try:
            m = native_module("thewalrus.charpoly")
            A = np.array([[1.0, 2, 3, 4], [2, 5, 7, 1], [3, 7, 2, 2], [1, 2, 0, 4]])
            B = A.copy()
            m.powertrace(B, 6)
            _MUT["v"] = not np.array_equal(A, B)
        except Exception:
            _MUT["v"] = False
    return _MUT["v"]


def contract_powertrace(h):
    """replace thewalrus.charpoly.powertrace by its contract (decided by C09):
    powertrace(A, n)[k] == tr(A^k); the argument is havocked when the real routine
    overwrites it: it becomes an arbitrary matrix with the same power traces (also decided
    by C09)"""
    if not h.symbolic:
        return
    mut = powertrace_mutates()
    import numpy as np
    from engine import sarr
    from engine.scalar import S, ZERO, tos

    class Havoc(S):
        pass

    orig = {}

    def powertrace(H, n):
        H = sarr.asS(H)
        m = H.shape[0]
        n = int(n)
        flat = H.tolist_raw()
        if flat and isinstance(flat[0], Havoc) and all(x is flat[0] for x in flat):
            H = orig[id(flat[0])][1]  # similar to the original: same power traces
        out = [tos(m)]
        P = sarr.NP.identity(m)
        # tr(A^k) needs only powers up to ceil(k/2)
        pows = [P]
        for k in range(1, n):
            half = k // 2
            while len(pows) <= k - half:
                pows.append(sarr.NP.matmul(pows[-1], H))
            X, Y = pows[half], pows[k - half]
            if m == 0:
                out.append(ZERO)
            else:
                out.append(sarr.sumlist([X[i, j] * Y[j, i] for i in range(m) for j in range(m)]))
        if mut and m >= 3 and not isinstance(flat[0], Havoc):
            keep = H.copy()
            u = Havoc(sarr.UNINIT().n)
            orig[id(u)] = (u, keep)
            np.asarray(H)[...] = u
        r = sarr.mkarr((max(n, 1),), out[:max(n, 1)], "complex")
        return r

    h.patch("thewalrus.charpoly", "powertrace", powertrace)
