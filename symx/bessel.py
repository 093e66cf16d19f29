"""Special functions of the line shapes on symbolic arguments: uninterpreted, with their elementary properties."""
import builtins

import numpy as np

from . import engine as E
from .engine import SymReal, z3, cmp_formula, RF


def _jv_ax(v, rfs, others):
    x = E.P.z3vars[v]
    E.P.add(z3.And(x <= 1, x >= -1))
    n, a = rfs
    # J_n(0) = delta_n0
    E.P.add(z3.Implies(z3.And(cmp_formula(a, '=='), cmp_formula(n, '==')), x == 1))
    E.P.add(z3.Implies(z3.And(cmp_formula(a, '=='), cmp_formula(n, '!=')), x == 0))


def _voigt_ax(v, rfs, others):
    E.P.add(E.P.z3vars[v] > 0)
    x0, s, g = rfs
    for _, u in others:
        y = E.P.uf_args[u]
        same = z3.And(cmp_formula(s - y[1], '=='), cmp_formula(g - y[2], '=='),
                      z3.Or(cmp_formula(x0 - y[0], '=='), cmp_formula(x0 + y[0], '==')))
        E.P.add(z3.Implies(same, E.P.z3vars[v] == E.P.z3vars[u]))


E.UF_AXIOMS['jv'] = _jv_ax
E.UF_AXIOMS['voigt'] = _voigt_ax


def wrap(name, real):
    def f(*a, **k):
        if any(isinstance(x, np.ndarray) and x.dtype == object for x in a):
            b = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a])
            out = np.empty(b[0].shape, dtype=object)
            for i in np.ndindex(b[0].shape):
                out[i] = f(*[y[i] for y in b])
            return out
        if any(builtins.type(x) is SymReal for x in a):
            if any(isinstance(x, np.ndarray) and x.ndim for x in a):
                return f(*[np.asarray(x, dtype=object) for x in a])
            return E.uf(name, *a)
        return real(*a, **k)
    return f
