"""Contracts of the angular-momentum library (sympy.physics.wigner, or py3nj) on symbolic arguments.

On concrete arguments the library itself is called.  On symbolic arguments with at least one concrete small angular
momentum the value is given in closed form (Racah's finite sums with the symbolic factorials cancelled), as
sign * polynomial * sqrt(rational function); selection rules are decided by forking.  The closed form is compared with
the library on the models of every explored path (see DESIGN.md)."""
import builtins
import math
from fractions import Fraction

from . import engine as E
from .engine import RF, Poly, SymReal, Unsupported, truth_cmp, floor_of, sqrt_rf, root, lift, sign_rf

REAL = {}
_memo = {}


def rfs(args):
    out = []
    for a in args:
        r = lift(a)
        if r is None:
            try:
                r = RF.const(Fraction(repr(builtins.float(a))))
            except (TypeError, ValueError):
                raise Unsupported(f'wigner argument {a!r}')
        out.append(r)
    return out


def renorm(rs):
    return [r.subst(E.P.sub) for r in rs] if E.P.sub else rs


def integral(r):
    """does r take an integer value (forks)"""
    if r.is_const():
        return r.const_value().denominator == 1
    f = floor_of(r)
    if E.P.sub:
        r, f = r.subst(E.P.sub), f.subst(E.P.sub)
    return truth_cmp(r - f, '==')


def concrete(name, args):
    key = (name,) + tuple(builtins.float(a) for a in args)
    hit = _memo.get(key)
    if hit is None:
        try:
            hit = (True, REAL[name](*args))
        except Exception as e:
            hit = (False, (type(e), str(e)))
        _memo[key] = hit
    if hit[0]:
        return hit[1]
    raise hit[1][0](hit[1][1])


def const_rf(c):
    return RF.const(c)


def fact_ratio(x, n, m):
    """(x+n)!/(x+m)! for a symbolic x"""
    d = n - m
    if d.denominator != 1:
        raise Unsupported('factorial ratio')
    out = RF.const(1)
    if d >= 0:
        for i in range(1, d.numerator + 1):
            out = out * (x + RF.const(m + i))
    else:
        for i in range(1, -d.numerator + 1):
            out = out * (x + RF.const(n + i)).inverse()
    return out


def f_(c):
    if c < 0 or Fraction(c).denominator != 1:
        raise Unsupported('factorial of ' + str(c))
    return math.factorial(builtins.int(c))


def pinned(name, rs):
    return concrete(name, [builtins.float(r.const_value()) for r in rs])


def as_const(r):
    """concrete value of a discrete symbolic number (forks over its values)"""
    if not r.is_const():
        SymReal(r).concretize()
        r = r.subst(E.P.sub)
    if not r.is_const():
        raise Unsupported('cannot concretise')
    return r.const_value()


def wigner_3j(*args):
    rs = rfs(args)
    if all(r.is_const() for r in rs):
        return concrete('3j', args)
    j1, j2, j3, m1, m2, m3 = rs
    for r in rs:
        if not integral(r + r):
            raise ValueError('expecting integer or half-integer')
    j1, j2, j3, m1, m2, m3 = renorm([j1, j2, j3, m1, m2, m3])
    if truth_cmp(m1 + m2 + m3, '!='):
        return 0
    for a, b, c in ((0, 1, 2), (0, 2, 1), (1, 2, 0)):
        js = renorm([j1, j2, j3])
        if truth_cmp(js[a] + js[b] - js[c], '<'):
            return 0
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        j, m = renorm([j, m])
        if truth_cmp(j - m, '<') or truth_cmp(renorm([j])[0] + renorm([m])[0], '<'):
            return 0
    for j, m in ((j1, m1), (j2, m2), (j3, m3)):
        j, m = renorm([j, m])
        if not integral(j - m):
            return 0
    cols = [renorm([j, m]) for j, m in ((j1, m1), (j2, m2), (j3, m3))]
    consts = [(c[0].const_value(), i) for i, c in enumerate(cols) if c[0].is_const()]
    if not consts:
        as_const(cols[1][0])
        cols = [renorm(c) for c in cols]
        consts = [(c[0].const_value(), i) for i, c in enumerate(cols) if c[0].is_const()]
    k, i = min(consts)
    q = as_const(cols[i][1])
    cols = [renorm(c) for c in cols]
    odd = False
    order = [0, 1, 2]
    if i != 1:
        order[i], order[1] = order[1], order[i]
        odd = True
    c1, _, c3 = (cols[o] for o in order)
    as_const(c3[0] - c1[0])
    c1, c3 = renorm(c1), renorm(c3)
    d = (c3[0] - c1[0]).const_value()
    if all(x.is_const() for x in c1 + c3):
        args = [None] * 6
        for pos, c in zip(order, (c1, [RF.const(k), RF.const(q)], c3)):
            args[pos], args[pos + 3] = builtins.float(c[0].const_value()), builtins.float(c[1].const_value())
        return concrete('3j', args)
    j, m = c1
    # t from t0 to t1
    t0 = max(Fraction(0), q - d)
    t1 = min(k + q, k - d)
    a = j + m          # a + (d-k) + t
    b = j - m
    T = t1
    poly = RF.const(0)
    t = t0
    while t <= t1:
        term = RF.const(Fraction((-1) ** builtins.int(t), f_(t) * f_(d + t - q) * f_(k - d - t) * f_(k + q - t)))
        term = term * fact_ratio(a, d - k + T, d - k + t) * fact_ratio(b, Fraction(0), -t)
        poly = poly + term
        t += 1
    # squared prefactor
    R = RF.const(f_(k - d) * f_(k + d) * f_(k + q) * f_(k - q))
    R = R * fact_ratio(j + j, d - k, d + k + 1)
    R = R * fact_ratio(a, Fraction(0), d - k + T) * fact_ratio(a, d + q, d - k + T)
    R = R * fact_ratio(b, d - q, Fraction(0))
    if not poly.n.t:
        return 0
    m3 = -m - RF.const(q)
    s = sign_rf(renorm([j - RF.const(k) - m3])[0])
    if odd:
        s = s * sign_rf(renorm([j + j + RF.const(d + k)])[0])
    return SymReal(renorm([s * poly])[0] * sqrt_rf(renorm([R])[0]))


TRIADS = ((0, 1, 2), (0, 4, 5), (3, 1, 5), (3, 4, 2))


def wigner_6j(*args):
    rs = rfs(args)
    if all(r.is_const() for r in rs):
        return concrete('6j', args)
    zero = False
    for t in TRIADS:
        rs = renorm(rs)
        a, b, c = (rs[i] for i in t)
        if not integral(a + b - c) or not integral(renorm([a + c - b])[0]) or not integral(renorm([b + c - a])[0]):
            raise ValueError('j values must be integer or half integer and fulfill the triangle relation')
    for t in TRIADS:
        for x in range(3):
            rs = renorm(rs)
            a, b, c = rs[t[x]], rs[t[(x + 1) % 3]], rs[t[(x + 2) % 3]]
            if truth_cmp(a + b - c, '<'):
                return 0
    rs = renorm(rs)
    consts = [(r.const_value(), i) for i, r in enumerate(rs) if r.is_const()]
    if not consts:
        as_const(rs[2])
        rs = renorm(rs)
        consts = [(r.const_value(), i) for i, r in enumerate(rs) if r.is_const()]
    k, i = min(consts)
    up, lo = rs[:3], rs[3:]
    col = i % 3
    # bring k to position 3 (upper row, third column)
    perm = [x for x in range(3) if x != col] + [col]
    up, lo = [up[x] for x in perm], [lo[x] for x in perm]
    if i >= 3:      # swap upper and lower in the third and the first column
        up[2], lo[2] = lo[2], up[2]
        up[0], lo[0] = lo[0], up[0]
    j1, j2, _ = up
    j4, j5, j6 = lo
    as_const(j1 - j2)
    j1, j2, j4, j5, j6 = renorm([j1, j2, j4, j5, j6])
    as_const(j4 - j5)
    j1, j2, j4, j5, j6 = renorm([j1, j2, j4, j5, j6])
    a, b = (j1 - j2).const_value(), (j4 - j5).const_value()
    if all(x.is_const() for x in (j1, j4, j6)):
        return concrete('6j', [builtins.float(x.const_value()) for x in (j1, j2, RF.const(k), j4, j5, j6)])
    X = j1 + j4 + j6
    Y = j4 + j6 - j1
    Z = j1 + j6 - j4
    W = j1 + j4 - j6
    U0, U1 = max(-a, -b), min(k - a - b, k)
    if U0 > U1:
        return 0
    poly = RF.const(0)
    u = U0
    n = 0
    while u <= U1:
        term = RF.const(Fraction((-1) ** n, f_(u + b) * f_(u + a) * f_(k - a - b - u) * f_(k - u)))
        term = term * fact_ratio(X, u + 1, U0 + 1)
        term = term * fact_ratio(Y, a - k + U1, a - k + u)
        term = term * fact_ratio(Z, b - k + U1, b - k + u)
        term = term * fact_ratio(W, -a - b - U0, -a - b - u)
        poly = poly + term
        u += 1
        n += 1
    if not poly.n.t:
        return 0
    R = RF.const(f_(k - a) * f_(k + a) * f_(k - b) * f_(k + b))
    R = R * fact_ratio(j1 + j1, -a - k, -a + k + 1) * fact_ratio(j4 + j4, -b - k, -b + k + 1)
    R = R * fact_ratio(X, U0 + 1, -b + 1) * fact_ratio(X, U0 + 1, -a + 1)
    R = R * fact_ratio(Y, -b, a - k + U1) * fact_ratio(Y, a, a - k + U1)
    R = R * fact_ratio(Z, b, b - k + U1) * fact_ratio(Z, -a, b - k + U1)
    R = R * fact_ratio(W, -b, -a - b - U0) * fact_ratio(W, -a, -a - b - U0)
    s = sign_rf(renorm([X + RF.const(U0)])[0])
    return SymReal(renorm([s * poly])[0] * sqrt_rf(renorm([R])[0]))


class Product:
    """c * prod f^e over linear polynomials f that are positive on the current path"""
    def __init__(self):
        self.c = Fraction(1)
        self.e = {}

    def factor(self, f, e):
        if f.is_const():
            self.c *= f.const_value() ** e
            return
        if f.d:
            raise Unsupported('factor')
        c, q = f.n.content_sign()
        self.c *= c ** e
        k = q.key()
        self.e[k] = (q, self.e.get(k, (q, 0))[1] + e)

    def ratio(self, x, n, m):
        d = n - m
        if d.denominator != 1:
            raise Unsupported('factorial ratio')
        for i in range(1, d.numerator + 1):
            self.factor(x + RF.const(m + i), 1)
        for i in range(1, -d.numerator + 1):
            self.factor(x + RF.const(n + i), -1)

    def sqrt(self):
        """the positive square root, as a product of roots of the single factors"""
        out = root(abs(self.c))
        for q, e in self.e.values():
            if e % 2:
                out = out * sqrt_rf(RF(q if q_positive(q) else q.__neg__()))
            f = RF(q)
            for _ in range(abs(e) // 2 if e >= 0 else (abs(e) + 1) // 2):
                out = out * f if e > 0 else out * f.inverse()
        return out


def q_positive(q):
    return truth_cmp(RF(q), '>=')


def sixj_roots(*rs):
    """6j symbol with one small concrete argument and concrete differences, all selection rules known to hold; square
    roots are kept as products of roots of linear factors, so that sums of such values simplify"""
    rs = renorm(rs)
    consts = [(r.const_value(), i) for i, r in enumerate(rs) if r.is_const()]
    k, i = min(consts)
    up, lo = list(rs[:3]), list(rs[3:])
    col = i % 3
    perm = [x for x in range(3) if x != col] + [col]
    up, lo = [up[x] for x in perm], [lo[x] for x in perm]
    if i >= 3:
        up[2], lo[2] = lo[2], up[2]
        up[0], lo[0] = lo[0], up[0]
    j1, j2, _ = up
    j4, j5, j6 = lo
    if not (j1 - j2).is_const() or not (j4 - j5).is_const():
        raise Unsupported('6j with varying differences')
    a, b = (j1 - j2).const_value(), (j4 - j5).const_value()
    X, Y, Z, W = j1 + j4 + j6, j4 + j6 - j1, j1 + j6 - j4, j1 + j4 - j6
    U0, U1 = max(-a, -b), min(k - a - b, k)
    if U0 > U1:
        return RF.const(0)
    poly = RF.const(0)
    u, n = U0, 0
    while u <= U1:
        term = RF.const(Fraction((-1) ** n, f_(u + b) * f_(u + a) * f_(k - a - b - u) * f_(k - u)))
        term = term * fact_ratio(X, u + 1, U0 + 1)
        term = term * fact_ratio(Y, a - k + U1, a - k + u)
        term = term * fact_ratio(Z, b - k + U1, b - k + u)
        term = term * fact_ratio(W, -a - b - U0, -a - b - u)
        poly = poly + term
        u += 1
        n += 1
    if not poly.n.t:
        return RF.const(0)
    R = Product()
    R.c = Fraction(f_(k - a) * f_(k + a) * f_(k - b) * f_(k + b))
    for x, p, q in ((j1 + j1, -a - k, -a + k + 1), (j4 + j4, -b - k, -b + k + 1), (X, U0 + 1, -b + 1), (X, U0 + 1, -a + 1),
                    (Y, -b, a - k + U1), (Y, a, a - k + U1), (Z, b, b - k + U1), (Z, -a, b - k + U1),
                    (W, -b, -a - b - U0), (W, -a, -a - b - U0)):
        R.ratio(x, p, q)
    return sign_rf(renorm([X + RF.const(U0)])[0]) * poly * R.sqrt()


NINE = ((0, 1, 2), (3, 4, 5), (6, 7, 8), (0, 3, 6), (1, 4, 7), (2, 5, 8))


def wigner_9j(*args):
    rs = rfs(args)
    if all(r.is_const() for r in rs):
        return concrete('9j', args)
    small = [r.is_const() for r in rs]
    if not (small[1] and small[3] and small[4] and small[5] and small[7]):
        for r in rs:
            SymReal(renorm([r])[0]).concretize()
        rs = renorm(rs)
        return concrete('9j', [builtins.float(r.const_value()) for r in rs])
    for t in NINE:
        rs = renorm(rs)
        a, b, c = (rs[i] for i in t)
        if not integral(a + b - c) or not integral(renorm([a + a])[0]) or not integral(renorm([b + b])[0]):
            raise ValueError('j values must be integer or half integer and fulfill the triangle relation')
    for t in NINE:
        for x in range(3):
            rs = renorm(rs)
            a, b, c = rs[t[x]], rs[t[(x + 1) % 3]], rs[t[(x + 2) % 3]]
            if truth_cmp(a + b - c, '<'):
                return 0
    rs = renorm(rs)
    if all(r.is_const() for r in rs):
        return concrete('9j', [builtins.float(r.const_value()) for r in rs])
    j1, j2, j3, j4, j5, j6, j7, j8, j9 = rs
    for d in (j7 - j1, j3 - j1, j9 - j3):
        as_const(d)
    j1, j2, j3, j4, j5, j6, j7, j8, j9 = rs = renorm(rs)
    if all(r.is_const() for r in rs):
        return concrete('9j', [builtins.float(r.const_value()) for r in rs])
    c2, c4, c6, c8 = (r.const_value() for r in (j2, j4, j6, j8))
    x = max(abs(c2 - c6), abs(c4 - c8))
    total = RF.const(0)
    while x <= min(c2 + c6, c4 + c8):
        X = RF.const(x)
        # triangles (j1, j9, x), (j2, j6, x), (j4, j8, x)
        j1, j2, j3, j4, j5, j6, j7, j8, j9 = rs = renorm(rs)
        ok = integral(j1 + j9 - X)
        for v in (j1 + j9 - X, j1 + X - j9, j9 + X - j1):
            ok = ok and not truth_cmp(renorm([v])[0], '<')
        if ok:
            j1, j2, j3, j4, j5, j6, j7, j8, j9 = rs = renorm(rs)
            if j1.is_const():
                return concrete('9j', [builtins.float(r.const_value()) for r in rs])
            mid = concrete('6j', [builtins.float(r.const_value()) for r in (j2, j5, j8, j4, X, j6)])
            mid = exact_sixj((j2, j5, j8, j4, X, j6), mid)
            sgn = -1 if (2 * x) % 2 else 1
            total = renorm([total])[0] + RF.const(sgn * (2 * x + 1)) * sixj_roots(j1, j4, j7, j8, j9, X) * mid * \
                sixj_roots(j3, j6, j9, X, j1, j2)
        x += 1
    return SymReal(renorm([total])[0])


def exact_sixj(rs, v):
    """an exact value c*sqrt(n) of the library"""
    import sympy
    v = sympy.nsimplify(v) if not isinstance(v, sympy.Basic) else v
    if v == 0:
        return RF.const(0)
    sq = sympy.Rational(sympy.expand(v * v))
    r = root(Fraction(builtins.int(sq.p), builtins.int(sq.q)))
    return r if v > 0 else RF.const(-1) * r
