"""Shared builders for harnesses (run both symbolically and, on replay, on the real code)."""
import warnings

import atomtoolkit.atom as A
from atomtoolkit import Q_, Hz, ureg
from atomtoolkit.term import Term, MultiTerm

MU_B = 1.39962449361e6       # Hz per gauss


def hz(x):
    return Q_(x, 'Hz')


def ff(x):
    """fraction notation written independently of the code under test"""
    n = int(round(2 * x))
    return str(n // 2) if n % 2 == 0 else f'{n}/2'


def level(conf, term, J, E=0.0, g=1.0, A_=0.0, B_=0.0, C_=0.0, alias=None, parent=None):
    return A.EnergyLevel(Term(conf, term, J), hz(E), lande=g, hfA=hz(A_), hfB=hz(B_), hfC=hz(C_), alias=alias,
                         parent=parent)


def second(same, odd, dJ):
    """configuration and term of a level next to c 2P: of another configuration or, for same, of the same one (the same term too if J differs)"""
    return ('c' if same else 'd'), ('2P' if not same or dJ else '2D') + ('*' if odd else '')


def quiet():
    w = warnings.catch_warnings()
    return w


def steps(lo, hi):
    """lo, lo+1, ..., hi"""
    out = []
    x = lo
    while x <= hi:
        out.append(x)
        x = x + 1
    return out


def tri(a, b, c):
    return abs(a - b) <= c <= a + b and (2 * (a + b + c)) % 2 == 0


def same_text(ctx, a, b):
    """the two texts (possibly with symbolic characters) are equal"""
    if ctx.symbolic:
        from symx import strs
        return strs.equal(a, b)
    return a == b
