"""Exact polynomial / rational-function arithmetic over solver variables.

A Poly maps monomials to Fractions; a monomial is a sorted tuple of (variable id, exponent).  Some variables are
algebraic (w with w*w = p, p a Poly, e.g. a square root, or a sign with square 1); powers of them are reduced on
multiplication, so that identities which only hold because of those relations become syntactic.
"""
import heapq
import math
from fractions import Fraction

ZERO = Fraction(0)
ONE = Fraction(1)


class VarTable:
    """variables of one run: name, sort ('Real'/'Int'), z3 constant and, for algebraic ones, the square"""
    def __init__(self):
        self.names = []
        self.sorts = []
        self.square = {}      # id -> Poly

    def new(self, name, sort):
        self.names.append(name)
        self.sorts.append(sort)
        return len(self.names) - 1


TABLE = VarTable()


def set_table(t):
    global TABLE
    TABLE = t


def to_frac(x):
    """decimal value of a concrete number: floats are read by their shortest decimal representation"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(float(x)))
    raise TypeError(type(x))


def point(v):
    return (v * 2654435761 + 40503) % 999983 + 17


_order = {}


def order(m):
    k = _order.get(m)
    if k is None:
        if len(_order) > 200000:
            _order.clear()
        k = _order[m] = (sum(e for _, e in m), tuple((-v, e) for v, e in m))
    return k


def back(m):
    """sorts monomials from the leading one down"""
    k = _back.get(m)
    if k is None:
        if len(_back) > 200000:
            _back.clear()
        k = _back[m] = (-sum(e for _, e in m), tuple((v, -e) for v, e in m))
    return k


_back = {}


def times(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ('t', '_h', '_e', '_l')

    def __init__(self, t):
        self.t = t
        self._h = self._e = self._l = None

    def probe(self):
        """value of the primitive integer multiple of this polynomial at a fixed point"""
        if self._e is None:
            den = math.lcm(*[c.denominator for c in self.t.values()])
            ns = [c.numerator * (den // c.denominator) for c in self.t.values()]
            g = math.gcd(*ns)
            tot = 0
            for m, n in zip(self.t, ns):
                n //= g
                for v, e in m:
                    n *= point(v) ** e
                tot += n
            self._e = tot
        return self._e

    @staticmethod
    def const(c):
        c = to_frac(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def var(i):
        return Poly({((i, 1),): ONE})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), ZERO)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.t == o.t

    def __add__(self, o):
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, ZERO) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: c * k for m, k in self.t.items()})

    def __mul__(self, o):
        if len(self.t) > len(o.t):
            self, o = o, self
        t = {}
        needs = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for v, e in m2:
                        n = d.get(v, 0) + e
                        d[v] = n
                        if n > 1 and v in TABLE.square:
                            needs = True
                    m = tuple(sorted(d.items()))
                s = t.get(m, ZERO) + c1 * c2
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        p = Poly(t)
        return p.reduce() if needs else p

    def reduce(self):
        """rewrite w**2 -> its defining polynomial for algebraic variables"""
        out = Poly({})
        done = {}
        for m, c in self.t.items():
            hit = None
            for v, e in m:
                if e > 1 and v in TABLE.square:
                    hit = (v, e)
                    break
            if hit is None:
                done[m] = done.get(m, ZERO) + c
                continue
            v, e = hit
            rest = tuple(x for x in m if x[0] != v)
            q = Poly({rest: c}) if e % 2 == 0 else Poly({tuple(sorted(rest + ((v, 1),))): c})
            sq = TABLE.square[v]
            for _ in range(e // 2):
                q = q * sq
            if any(x > 1 and y in TABLE.square for y, x in rest):
                q = q.reduce()
            out = out + q
        return out + Poly({m: c for m, c in done.items() if c})

    def pow(self, n):
        r = Poly({(): ONE})
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def vars(self):
        return {v for m in self.t for v, _ in m}

    def subst(self, sub):
        """replace variables by polynomials (sub: id -> Poly)"""
        if not any(v in sub for m in self.t for v, _ in m):
            return self
        out = Poly({})
        cache = {}
        for m, c in self.t.items():
            q = Poly({tuple(x for x in m if x[0] not in sub): c})
            for v, e in m:
                if v in sub:
                    k = (v, e)
                    if k not in cache:
                        cache[k] = sub[v].pow(e)
                    q = q * cache[k]
            out = out + q
        return out

    def lead(self):
        """leading monomial in graded lex order (a multiplicative order)"""
        if self._l is None:
            self._l = max(self.t, key=order)
        return self._l

    def content_sign(self):
        """(c, p) with self = c*p and p having leading coefficient 1"""
        c = self.t[self.lead()]
        return c, (self if c == 1 else self.scale(1 / c))

    def divide_exact(self, d):
        """self/d if the division is exact, else None (multivariate, graded-lex leading term)"""
        if d.is_const():
            return self.scale(1 / d.const_value())
        if not d.vars() <= self.vars():
            return None
        if not self.t:
            return self
        x = d.probe()
        if x and self.probe() % x:
            return None
        ld = d.lead()
        cd = d.t[ld]
        dd = dict(ld)
        r = dict(self.t)
        heap = [(back(m), m) for m in r]
        heapq.heapify(heap)
        rest = [(m, c) for m, c in d.t.items() if m != ld]
        q = {}
        while r:
            lr = heapq.heappop(heap)[1]
            c = r.pop(lr, None)
            if c is None:
                continue
            m = dict(lr)
            for v, e in dd.items():
                k = m.get(v, 0) - e
                if k < 0:
                    return None
                if k:
                    m[v] = k
                else:
                    del m[v]
            mm = tuple(sorted(m.items()))
            c = c / cd
            q[mm] = c
            if len(q) > 2000:
                return None
            for m, k in rest:
                m = times(m, mm)
                old = r.get(m)
                if old is None:
                    r[m] = -k * c
                    heapq.heappush(heap, (back(m), m))
                else:
                    new = old - k * c
                    if new:
                        r[m] = new
                    else:
                        del r[m]
        return Poly(q)

    def eval(self, vals):
        s = 0
        for m, c in self.t.items():
            p = c
            for v, e in m:
                p = p * vals[v] ** e
            s = s + p
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items()):
            s = '*'.join(TABLE.names[v] + (f'^{e}' if e > 1 else '') for v, e in m)
            out.append(f'{c}' + ('*' + s if s else '') if c != 1 or not s else s)
        return ' + '.join(out)


P0 = Poly({})
P1 = Poly({(): ONE})


class RF:
    """rational function: num / prod(factor**exp); factors are monic non-constant polynomials"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    @staticmethod
    def const(c):
        return RF(Poly.const(c))

    def is_const(self):
        return not self.d and self.n.is_const()

    def const_value(self):
        return self.n.const_value()

    def key(self):
        return (self.n.key(), tuple((f.key(), e) for f, e in self.d))

    def den(self):
        p = P1
        for f, e in self.d:
            p = p * f.pow(e)
        return p

    def cancel(self):
        if not self.d:
            return self
        if not self.n.t:
            return RF(P0)
        n = self.n
        out = []
        for f, e in self.d:
            while e:
                q = n.divide_exact(f)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                out.append((f, e))
        return RF(n, tuple(out))

    def __add__(self, o):
        if self.d == o.d:
            r = RF(self.n + o.n, self.d)
            return r.cancel() if r.d else r
        a, b = dict(self.d), dict(o.d)
        l = dict(a)
        for f, e in b.items():
            l[f] = max(l.get(f, 0), e)
        na, nb = self.n, o.n
        for f, e in l.items():
            if e > a.get(f, 0):
                na = na * f.pow(e - a.get(f, 0))
            if e > b.get(f, 0):
                nb = nb * f.pow(e - b.get(f, 0))
        return RF(na + nb, tuple(sorted(l.items(), key=lambda x: x[0].key()))).cancel()

    def __neg__(self):
        return RF(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.n.t or not o.n.t:
            return RF(P0)
        l = dict(self.d)
        for f, e in o.d:
            l[f] = l.get(f, 0) + e
        r = RF(self.n * o.n, tuple(sorted(l.items(), key=lambda x: x[0].key())))
        return r.cancel() if r.d else r

    def inverse(self):
        """1/self; the caller has established self != 0"""
        n = self.den()
        if self.n.is_const():
            return RF(n.scale(1 / self.n.const_value()))
        c, f = self.n.content_sign()
        # rationalise denominators that are a monomial times algebraic variables
        if len(f.t) == 1:
            (m, _), = f.t.items()
            r = RF(n.scale(1 / c))
            for v, e in m:
                if v in TABLE.square:
                    # 1/w = w / w^2
                    sq = RF(TABLE.square[v])
                    for _ in range(e):
                        r = r * RF(Poly.var(v)) * sq.inverse()
                else:
                    r = r * RF(P1, ((Poly.var(v), e),))
            return r
        return RF(n.scale(1 / c), ((f, 1),)).cancel()

    def subst(self, sub):
        n = self.n.subst(sub)
        if not any(f.vars() & sub.keys() for f, _ in self.d):
            return RF(n, self.d)
        r = RF(n)
        for f, e in self.d:
            g = f.subst(sub)
            if not g.t:
                raise ZeroDivisionError('denominator vanishes under substitution')
            inv = RF(g).inverse()
            for _ in range(e):
                r = r * inv
        return r

    def sign_poly(self):
        """a polynomial with the same sign as self (denominator known non-zero)"""
        p = self.n
        for f, e in self.d:
            if e % 2:
                p = p * f
        return p

    def vars(self):
        s = self.n.vars()
        for f, _ in self.d:
            s |= f.vars()
        return s

    def __repr__(self):
        return f'({self.n})' + (f'/({self.d})' if self.d else '')
