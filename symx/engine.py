"""Symbolic execution of the real Python code by operator overloading, with z3 deciding every branch.

A harness is an ordinary Python function h(ctx, **bounds).  It asks ctx for symbolic inputs, calls the code under
test with them and states properties with ctx.check / ctx.eq / ....  The explorer runs it once per feasible path:
whenever the code asks for the truth value of a symbolic condition, z3 decides whether both outcomes are possible under
the path condition; if so the path forks.  A property is decided at the point where it is stated by asking z3 for a
value of all symbolic inputs that satisfies the path condition and violates it.
"""
import builtins
import itertools
import math
import sys
import time
from fractions import Fraction

from . import poly
from .poly import Poly, RF, P0, P1

_sp = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.append(_sp)
import z3  # noqa: E402
sys.path.remove(_sp)

import numpy as np  # noqa: E402


class PathAbort(BaseException):
    """ends the current path (infeasible assumption, or its decision is made)"""


class Violation(PathAbort):
    pass


class Unsupported(Exception):
    """the engine cannot continue symbolically here"""


class Unknown(Unsupported):
    """the solver gave no verdict"""


# --------------------------------------------------------------------------------------------------------------------
# concrete numbers

_snap_cache = {}


def snap(f):
    """Read a float as an exact number: (rational, squared?) -- short decimals literally, otherwise the simple rational
    or square root of a simple rational within 1e-15, otherwise its shortest decimal representation."""
    r = _snap_cache.get(f)
    if r is not None:
        return r
    s = repr(f)
    digits = s.lstrip('-').split('e')[0].replace('.', '').strip('0')
    ex = Fraction(s)
    if len(digits) <= 13 or f == 0:
        r = (ex, False)
    else:
        bits = Fraction(f)
        c = bits.limit_denominator(100000)
        if c and abs(c - bits) <= abs(bits) * Fraction(1, 10 ** 15):
            r = (c, False)
        else:
            sq = bits * bits
            c = sq.limit_denominator(100000)
            if c and abs(c - sq) <= abs(sq) * Fraction(2, 10 ** 15) and c.numerator < 10 ** 7:
                r = (c, True)
            else:
                r = (ex, False)
    _snap_cache[f] = r
    return r


def is_square(fr):
    a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if a * a == fr.numerator and b * b == fr.denominator:
        return Fraction(a, b)
    return None


NUM = (int, float, Fraction, np.floating, np.integer, np.bool_)


def lift(x):
    """concrete or symbolic number -> RF, or None if it is not a real number"""
    t = builtins.type(x)
    if t is SymReal:
        return x.rf
    if t is bool or t is int:
        return RF.const(x)
    if t is Fraction:
        return RF.const(x)
    if t is SymBool:
        return RF.const(1 if builtins.bool(x) else 0)
    if issubclass(t, float) or issubclass(t, np.floating):
        f = builtins.float(x)
        if f != f or f in (math.inf, -math.inf):
            return None
        r, sq = snap(f)
        if sq:
            w = sqrt_rf(RF.const(r))
            return w if f > 0 else -w
        return RF.const(r)
    if issubclass(t, (np.integer, np.bool_)):
        return RF.const(builtins.int(x))
    if t is np.ndarray and x.shape == ():
        return lift(x.item())
    return None


# --------------------------------------------------------------------------------------------------------------------
# the current path

class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.table = poly.VarTable()
        poly.set_table(self.table)
        self.z3vars = []
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.timeout_ms)
        self.cond = []           # asserted formulas (for relaxed / fresh queries)
        self.model = None
        self.sub = {}            # var id -> Poly
        self.ver = 0
        self.known = {}          # structural condition -> bool
        self.inputs = {}         # name -> (kind, value or SymReal)
        self.sqrt_vars = {}
        self.floor_vars = {}
        self.sign_vars = {}
        self.uf_vars = {}
        self.fresh = 0
        self.domain = {}         # var id -> (lo, hi) for ints
        self.observed = []
        self.checks = 0
        self.concretized = []
        self.tokens = {}
        self.token_list = []
        self.reached = set()
        self.notes = []
        self.defs = {}           # defining constraints of auxiliary variables: name -> (formula, names it refers to)
        self.active = set()      # those asserted in the solver
        self._zv = {}

    # variables -----------------------------------------------------------------------------------------------
    def new_var(self, name, sort, square=None):
        i = self.table.new(name, sort)
        self.z3vars.append(z3.Int(name) if sort == 'Int' else z3.Real(name))
        if square is not None:
            self.table.square[i] = square
        return i

    def fresh_name(self, base):
        self.fresh += 1
        return f'{base}!{self.fresh}'

    def z3poly(self, p):
        terms = []
        for m, c in p.t.items():
            fs = []
            for v, e in m:
                x = self.z3vars[v]
                if self.table.sorts[v] == 'Int':
                    x = z3.ToReal(x)
                fs.extend([x] * e)
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(f'{c.numerator}/{c.denominator}'))
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def add(self, f):
        for g in self.needed(zvars(f, self._zv), True):
            self.solver.add(g)
            self.cond.append(g)
        self.solver.add(f)
        self.cond.append(f)

    def bound(self, f):
        """a constraint on a fresh variable"""
        self.add(f)
        if self.model is not None and not z3.is_true(self.model.eval(f, model_completion=True)):
            self.model = None

    def define(self, v, f):
        """f defines variable v in terms of older ones (always satisfiable): used only in queries that mention v"""
        n = self.table.names[v]
        self.defs[n] = (f, zvars(f, self._zv) - {n})

    def needed(self, names, permanent=False):
        out = []
        todo = [n for n in names if n in self.defs and n not in self.active]
        seen = set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            f, more = self.defs[n]
            out.append(f)
            todo.extend(x for x in more if x in self.defs and x not in self.active)
        if permanent:
            self.active |= seen
        self.just = seen
        return out

    def activate(self, ids):
        for g in self.needed({self.table.names[i] for i in ids}, True):
            self.solver.add(g)
            self.cond.append(g)
            self.model = None

    # solving -------------------------------------------------------------------------------------------------
    def check(self, *extra):
        """sat / unsat / unknown of path condition + extra; leaves a model in self.last_model"""
        ex = self.ex
        t0 = time.time()
        names = set()
        for f in extra:
            names |= zvars(f, self._zv)
        extra = tuple(extra) + tuple(self.needed(names))
        cover = self.active | self.just
        r = self.solver.check(*extra)
        ex.stats['queries'] += 1
        if r == z3.sat:
            self.last_model = self.solver.model()
        elif r == z3.unknown:
            r = self.hard(extra)
        if r == z3.sat:
            self.last_model.cover = cover
        ex.stats['solver_s'] += time.time() - t0
        ex.stats['sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'] += 1
        if r == z3.unsat and ex.second is not None and extra:
            ex.second(self, extra)
        return r

    def hard(self, extra):
        """second attempts for queries the default solver gives up on"""
        fs = list(self.cond) + list(extra)
        # relax integers to reals: unsat carries over
        names = {}
        for i, s in enumerate(self.table.sorts):
            if s == 'Int':
                names[i] = (z3.ToReal(self.z3vars[i]), z3.Real(self.table.names[i] + '!r'))
        rel = []
        okk = True
        for f in fs:
            g = z3.substitute(f, *[(a, b) for a, b in names.values()]) if names else f
            g = z3.substitute(g, *[(self.z3vars[i], z3.ToInt(b)) for i, (a, b) in names.items()]) \
                if names and any_int(g) else g
            if any_int(g):
                continue      # dropping a constraint is sound for unsat
            rel.append(g)
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', self.ex.timeout_ms)
        s.add(*rel)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            return r
        if not names:
            if r == z3.sat:
                self.last_model = s.model()
                return r
        # fix the integers to concrete values: sat carries over
        ints = [i for i in names if i in self.domain]
        base = z3.Solver()
        base.set('timeout', self.ex.timeout_ms // 2)
        linear = [f for f in self.cond if not nonlinear(f)]
        base.add(*linear)
        for attempt in range(12):
            if base.check() != z3.sat:
                break
            m = base.model()
            fix = [self.z3vars[i] == m.eval(self.z3vars[i], True) for i in names]
            t = z3.Solver()
            t.set('timeout', self.ex.timeout_ms // 2)
            t.add(*fs)
            t.add(*fix)
            if t.check() == z3.sat:
                self.last_model = t.model()
                return z3.sat
            base.add(z3.Not(z3.And(*fix)) if fix else z3.BoolVal(False))
        return z3.unknown

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                return None
            self.model = self.last_model
        return self.model

    def holds_in(self, model, f):
        if any(n in self.defs and n not in model.cover for n in zvars(f, self._zv)):
            return None
        v = model.eval(f, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def decide(self, key, mk, eq=None):
        """truth value of a symbolic condition on this path; forks if both are possible"""
        k = self.known.get(key)
        if k is not None:
            return k
        f = mk()
        if z3.is_true(f) or z3.is_false(f):
            return z3.is_true(f)
        ex = self.ex
        if self.pos < len(self.prefix):
            val, forced = self.prefix[self.pos]
        else:
            ex.tick()
            m = self.get_model()
            side = self.holds_in(m, f) if m is not None else None
            if side is None:
                rt = self.check(f)
                mt = self.last_model if rt == z3.sat else None
                rf_ = self.check(z3.Not(f))
                mf = self.last_model if rf_ == z3.sat else None
                can_t, can_f = rt != z3.unsat, rf_ != z3.unsat
                if rt == z3.unknown or rf_ == z3.unknown:
                    ex.stats['branch_unknown'] += 1
            else:
                r = self.check(z3.Not(f) if side else f)
                if r == z3.unknown:
                    ex.stats['branch_unknown'] += 1
                other = r != z3.unsat
                om = self.last_model if r == z3.sat else None
                can_t, can_f = (True, other) if side else (other, True)
                mt, mf = (m, om) if side else (om, m)
            if not can_t and not can_f:
                raise PathAbort()
            forced = not (can_t and can_f)
            val = can_t
            ex.stats['branches'] += 1
            if not forced:
                ex.push(self.decisions + [(False, False)])
            self.model = mt if val else mf
        self.pos += 1
        self.decisions.append((val, forced))
        self.known[key] = val
        if not forced:
            self.add(f if val else z3.Not(f))
            if self.pos <= len(self.prefix):
                self.model = None
        if eq is not None and val == eq[1]:
            self.learn_zero(eq[0])
        return val

    def choose(self, r, limit):
        """one of the finitely many possible values of r; the path forks over all of them"""
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos][0][1]
        else:
            self.ex.tick()
            vals = self.values(r, limit)
            if not vals:
                raise PathAbort()
            for v in vals[:0:-1]:
                self.ex.push(self.decisions + [(('v', v), False)])
            val = vals[0]
            self.ex.stats['branches'] += 1
        self.pos += 1
        self.decisions.append((('v', val), False))
        self.add(cmp_formula(r - RF.const(val), '=='))
        self.learn_zero((r - RF.const(val)).n)
        self.model = None
        return val

    def values(self, r, limit):
        vs = list(r.vars())
        if len(vs) == 1 and vs[0] in self.domain and self.domain[vs[0]][1] - self.domain[vs[0]][0] < 3:
            lo, hi = self.domain[vs[0]]
            cand = [Fraction(r.n.eval({vs[0]: Fraction(x)})) for x in range(lo, hi + 1)]
            out = [c for c in dict.fromkeys(cand) if self.check(cmp_formula(r - RF.const(c), '==')) != z3.unsat]
            return sorted(out)
        self.activate(vs)
        out = []
        blocks = []
        while True:
            k = self.check(*blocks)
            if k == z3.unsat:
                return sorted(out)
            if k == z3.unknown:
                if len(vs) == 1 and vs[0] in self.domain:
                    lo, hi = self.domain[vs[0]]
                    return sorted({Fraction(r.n.eval({vs[0]: Fraction(x)})) for x in range(lo, hi + 1)})
                raise Unknown('values of a discrete quantity')
            v = model_value(self, self.last_model, r)
            out.append(v)
            blocks.append(cmp_formula(r - RF.const(v), '!='))
            if len(out) > limit:
                raise Unsupported('too many values')

    def learn_zero(self, p):
        """p == 0 holds on this path: use it as a rewriting rule if it is linear in some variable"""
        p = p.subst(self.sub)
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if v in self.table.square or any(v in dict(m2) for m2 in p.t if m2 != m):
                    continue
                if any(v in q.vars() for q in self.table.square.values()):
                    continue
                rest = Poly({m2: c2 for m2, c2 in p.t.items() if m2 != m}).scale(-1 / c)
                if any(x in self.table.square for x in rest.vars()):
                    continue
                isint = self.table.sorts[v] == 'Int'
                if isint:
                    good = all(c2.denominator == 1 for c2 in rest.t.values()) and \
                        all(self.table.sorts[x] == 'Int' for x in rest.vars())
                    if not good:
                        if rest.is_const():
                            return      # integrality contradiction is left to the solver
                        continue
                rank = (not isint, v)
                if best is None or rank > best[0]:
                    best = (rank, v, rest)
        if best is None:
            return
        _, v, rest = best
        self.sub = {k: q.subst({v: rest}) for k, q in self.sub.items()}
        self.sub[v] = rest
        self.ver += 1


def zvars(f, cache):
    """names of the variables of a formula"""
    hit = cache.get(f.get_id())
    if hit is not None:
        return hit[1]
    seen = set()
    out = set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    cache[f.get_id()] = (f, out)
    return out


def any_int(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_to_real(x) or (z3.is_int(x) and not z3.is_int_value(x)):
            return True
        st.extend(x.children())
    return False


def nonlinear(f):
    st = [f]
    while st:
        x = st.pop()
        if z3.is_mul(x) and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
            return True
        st.extend(x.children())
    return False


P = None      # current Path


def set_path(p):
    global P
    P = p


def sqrt_rf(r):
    """square root of a rational function known to be >= 0"""
    if r.is_const():
        c = r.const_value()
        s = is_square(c)
        if s is not None:
            return RF.const(s)
        # n/d = n*d/d^2 ; extract square factors
        n = c.numerator * c.denominator
        out = Fraction(1, c.denominator)
        f = 2
        while f * f <= n and f < 2000:
            while n % (f * f) == 0:
                n //= f * f
                out *= f
            f += 1
        key = ('c', n)
        v = P.sqrt_vars.get(key)
        if v is None:
            v = P.new_var(P.fresh_name(f'sqrt{n}'), 'Real', Poly.const(n))
            P.sqrt_vars[key] = v
            x = P.z3vars[v]
            P.define(v, z3.And(x * x == n, x > 0))
        return RF(Poly.var(v)).__mul__(RF.const(out))
    if getattr(P, 'split_roots', False):
        out = split_sqrt(r)
        if out is not None:
            return out
    # sqrt(n/d) = sqrt(n*d)/d with d made positive by squaring
    p = r.n
    d = RF(P1)
    for f, e in r.d:
        if e % 2:
            p = p * f
            d = d * RF(f.pow((e + 1) // 2))
        else:
            d = d * RF(f.pow(e // 2))
    # sqrt(r) = sqrt(p)/|d|
    c, q = p.content_sign()
    w = None
    sgn = 1
    # monomial common factor squares are not extracted: keep general
    key = p.key()
    v = P.sqrt_vars.get(key)
    if v is None:
        v = P.new_var(P.fresh_name('sqrt'), 'Real', p)
        P.sqrt_vars[key] = v
        x = P.z3vars[v]
        P.define(v, z3.And(x * x == P.z3poly(p), x >= 0))
    num = RF(Poly.var(v))
    if d.is_const():
        return num * RF.const(1 / abs(d.const_value()))
    neg = truth_cmp(d, '<')
    if neg:
        d = -d
    return num * d.inverse()


def root(c):
    """square root of a positive rational as a product of roots of primes"""
    n, out = c.numerator * c.denominator, RF.const(Fraction(1, c.denominator))
    f = 2
    while n > 1 and f < 10000:
        e = 0
        while n % f == 0:
            n //= f
            e += 1
        if e:
            out = out * RF.const(f ** (e // 2))
            if e % 2:
                out = out * sqrt_rf(RF.const(f))
        f += 1
    return out * sqrt_rf(RF.const(n)) if n > 1 else out


def split_sqrt(r):
    """square root as a product of roots of linear factors (each made positive)"""
    c, q = r.n.content_sign()
    fs = [] if q.is_const() else [(f, e) for f, e in factors(q)]
    fs += [(f, -e) for f, e in r.d]
    if any(len(f.t) > 1 and not linear(f) for f, _ in fs):
        return None
    sign, out = (1 if c > 0 else -1), RF.const(1)
    for f, e in fs:
        g = RF(f)
        if truth_cmp(g, '<'):
            g = -g
            if e % 2:
                sign = -sign
        g = g.subst(P.sub) if P.sub else g
        if g.is_const():
            return None
        if e % 2:
            P.split_roots = False
            try:
                out = out * sqrt_rf(g)
            finally:
                P.split_roots = True
        k = abs(e) // 2 if e >= 0 else (abs(e) + 1) // 2
        for _ in range(k):
            out = out * (g if e > 0 else g.inverse())
    if sign < 0:
        return None
    return out * root(abs(c))


def truth_cmp(rf, op):
    """decide  rf op 0"""
    if rf.is_const():
        c = rf.const_value()
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0, '>': c > 0, '>=': c >= 0}[op]
    if op in ('==', '!='):
        p = rf.n.subst(P.sub)
        if p.is_const():
            z = not p.t
            return z if op == '==' else not z
        _, q = p.content_sign()
        r = None
        if ('=', q.key()) not in P.known:
            fs = factors(q)
            if len(fs) > 1 or fs[0][1] > 1 or root_of(q) is not None:
                r = any(is_zero(f) for f, _ in fs)
                P.known[('=', q.key())] = r
        if r is None:
            r = P.decide(('=', q.key()), lambda: P.z3poly(q) == 0, (q, True))
        return r if op == '==' else not r
    p = rf.sign_poly()
    if P.sub:
        p = p.subst(P.sub)
    if p.is_const():
        return truth_cmp(RF(p), op)
    c, q = p.content_sign()
    fs = factors(q)
    if len(fs) > 1 or fs[0][1] > 1 or root_of(q) is not None:
        sg = 1 if c > 0 else -1
        for f, e in fs:
            sg = sg * sign_of(f, e)
            if not sg:
                break
        return {'<': sg < 0, '<=': sg <= 0, '>': sg > 0, '>=': sg >= 0}[op]
    flip = c < 0
    # normalise to q < 0 or q <= 0 or their negations
    if op in ('>', '>='):
        op = {'>': '<', '>=': '<='}[op]
        flip = not flip
    if flip:      # -q < 0  <=> q > 0 <=> not (q <= 0);  -q <= 0 <=> q >= 0 <=> not (q < 0)
        if op == '<':
            return not P.decide(('<=', q.key()), lambda: P.z3poly(q) <= 0)
        return not P.decide(('<', q.key()), lambda: P.z3poly(q) < 0)
    if op == '<':
        return P.decide(('<', q.key()), lambda: P.z3poly(q) < 0)
    return P.decide(('<=', q.key()), lambda: P.z3poly(q) <= 0)


_factor_cache = {}


def root_of(q):
    """the square of q if q is a square root variable"""
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            sq = P.table.square.get(m[0][0])
            if sq is not None and not (sq.is_const() and sq.const_value() == 1):
                return sq
    return None


def is_zero(f):
    sq = root_of(f)
    if sq is not None:
        return truth_cmp(RF(sq), '==')
    return truth_cmp(RF(f), '==')


def sign_of(f, e):
    """sign of f**e (forks)"""
    if root_of(f) is not None or e % 2 == 0:
        return 0 if is_zero(f) else 1
    if truth_cmp(RF(f), '<'):
        return -1
    return 0 if truth_cmp(RF(f), '==') else 1


def possible_signs(q):
    """over-approximation of the signs a polynomial can have on this path, without forking; None if unknown"""
    if q.is_const():
        c = q.const_value()
        return {(c > 0) - (c < 0)}
    c, q = q.content_sign()
    out = {1 if c > 0 else -1}
    for f, e in factors(q):
        sq = root_of(f)
        if sq is not None:
            one = {abs(x) for x in possible_signs(sq) or {0, 1}}
        else:
            one = set()
            for sg, op in ((-1, '<'), (0, '=='), (1, '>')):
                if P.check(cmp_formula(RF(f), op)) != z3.unsat:
                    one.add(sg)
            if e % 2 == 0:
                one = {abs(x) for x in one}
        out = {a * b for a in out for b in one}
    return out


def factors(q):
    """irreducible factors, with multiplicity, of a nonlinear polynomial with leading coefficient 1"""
    k = q.key()
    hit = _factor_cache.get(k)
    if hit is not None:
        return hit
    deg = max(sum(e for _, e in m) for m in q.t)
    out = [(q, 1)]
    if 1 < deg <= 40 and len(q.t) <= 2000:
        # monomial factor first
        common = None
        for m in q.t:
            d = dict(m)
            common = d if common is None else {v: min(e, d.get(v, 0)) for v, e in common.items() if d.get(v, 0)}
        out = [(Poly.var(v), e) for v, e in sorted(common.items())]
        r = q
        if common:
            r = Poly({tuple((v, e - common.get(v, 0)) for v, e in m if e > common.get(v, 0)): c
                      for m, c in q.t.items()})
        if not r.is_const():
            if max(sum(e for _, e in m) for m in r.t) == 1:
                out.append((r.content_sign()[1], 1))
            else:
                import sympy
                vs = sorted(r.vars())
                xs = [sympy.Symbol(f'x{v}') for v in vs]
                p = sympy.Poly.from_dict({tuple(dict(m).get(v, 0) for v in vs):
                                          sympy.Rational(c.numerator, c.denominator) for m, c in r.t.items()},
                                         *xs, domain='QQ')
                for f, e in p.factor_list()[1]:
                    out.append((Poly({tuple((v, x) for v, x in zip(vs, mon) if x): Fraction(int(c.p), int(c.q))
                                      for mon, c in f.as_dict().items()}).content_sign()[1], int(e)))
        out.sort(key=lambda f: (len(f[0].t), f[0].key()))
    _factor_cache[k] = out
    return out


def linear(q):
    return all(sum(e for _, e in m) <= 1 for m in q.t)


def approx(path, m, rf):
    """float value of rf under a model, square roots computed from their squares; None if undefined"""
    memo = {}

    class Env(dict):
        def __missing__(self, i):
            sq = path.table.square.get(i)
            if sq is not None and sq.is_const() and sq.const_value() == 1:      # a sign
                src = [v for v, s in path.sign_vars.items() if s == i][0]
                r = -1.0 if builtins.int(z3num(m.eval(path.z3vars[src], model_completion=True))) % 2 else 1.0
            elif sq is not None:
                x = sq.eval(self)
                if x < 0:
                    raise ValueError
                r = math.sqrt(x)
            else:
                r = z3num(m.eval(path.z3vars[i], model_completion=True))
                if r is None:
                    raise ValueError
                r = builtins.float(r)
            self[i] = r
            return r
    env = Env()
    try:
        n = rf.n.eval(env)
        for f, e in rf.d:
            n = n / f.eval(env) ** e
        return builtins.float(n)
    except (ValueError, ZeroDivisionError, OverflowError):
        return None


def cmp_formula(rf, op):
    if rf.is_const():
        return z3.BoolVal(truth_cmp(rf, op))
    p = rf.sign_poly() if op not in ('==', '!=') else rf.n
    p = p.subst(P.sub)
    x = P.z3poly(p)
    return {'<': x < 0, '<=': x <= 0, '==': x == 0, '!=': x != 0, '>': x > 0, '>=': x >= 0}[op]


class SymBool:
    """a condition; either an atomic comparison rf op 0, or a z3 formula"""
    __slots__ = ('_rf', 'op', 'ver', 'f')

    def __init__(self, rf=None, op=None, f=None):
        self._rf = rf
        self.op = op
        self.f = f
        self.ver = P.ver

    @property
    def rf(self):
        if self.ver != P.ver:
            self._rf = self._rf.subst(P.sub)
            self.ver = P.ver
        return self._rf

    def __bool__(self):
        if self.f is not None:
            f = z3.simplify(self.f)
            return P.decide(('f', f.sexpr()), lambda: f)
        return truth_cmp(self.rf, self.op)

    def formula(self):
        if self.f is not None:
            return self.f
        return cmp_formula(self.rf, self.op)

    @property
    def __class__(self):
        return bool

    def __invert__(self):
        if self.f is None:
            return SymBool(self.rf, {'<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<=', '>=': '<'}[self.op])
        return SymBool(f=z3.Not(self.f))

    def __and__(self, o):
        if o is True or o is False:
            return self if o else False
        return SymBool(f=z3.And(self.formula(), formula(o)))
    __rand__ = __and__

    def __or__(self, o):
        if o is True or o is False:
            return True if o else self
        return SymBool(f=z3.Or(self.formula(), formula(o)))
    __ror__ = __or__

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        return builtins.bool(self) == builtins.bool(o)

    def __ne__(self, o):
        return builtins.bool(self) != builtins.bool(o)

    def __hash__(self):
        return hash(builtins.bool(self))

    def __int__(self):
        return builtins.int(builtins.bool(self))
    __index__ = __int__

    def __float__(self):
        return builtins.float(builtins.bool(self))

    def __add__(self, o):
        return builtins.int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return builtins.int(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return builtins.int(self) - o

    def __rsub__(self, o):
        return o - builtins.int(self)

    def __repr__(self):
        return f'<SymBool {self._rf if self.f is None else self.f} {self.op}>'


def formula(b):
    if builtins.type(b) is SymBool:
        return b.formula()
    return z3.BoolVal(builtins.bool(b))


def _cmp(op):
    def f(self, o):
        t = builtins.type(o)
        if t is np.ndarray and o.shape != ():
            return NotImplemented
        b = lift(o)
        if b is None:
            if isinstance(o, float):
                o = builtins.float(o)
                if o != o:
                    return op == '!='
                return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
            if op == '==':
                return NotImplemented
            if op == '!=':
                return NotImplemented
            return NotImplemented
        d = self.rf - b
        if d.is_const():
            return truth_cmp(d, op)
        return SymBool(d, op)
    return f


def sequence_like(o):
    return builtins.type(o) in (list, tuple)


def _bin(name):
    def f(self, o):
        t = builtins.type(o)
        if t is SymReal:
            return OPS[name](self, o.rf, o)
        if t is np.ndarray:
            if o.shape != ():
                return NotImplemented
            o = o.item()
            t = builtins.type(o)
        if t is complex or issubclass(t, np.complexfloating):
            return getattr(SymComplex(self, 0), '__%s__' % name)(complex(o))
        if t is SymComplex:
            return getattr(SymComplex(self, 0), '__%s__' % name)(o)
        b = lift(o)
        if b is None:
            if issubclass(t, (float, np.floating)):
                return special(name, self, builtins.float(o))
            return NotImplemented
        return OPS[name](self, b, o)
    return f


def special(name, s, o):
    """arithmetic with a non-finite float"""
    if o != o:
        return o
    if name in ('add', 'radd', 'rsub'):
        return o
    if name == 'sub':
        return -o
    if name in ('mul', 'rmul'):
        if s == 0:
            return math.nan
        return o if s > 0 else -o
    if name == 'truediv':
        return 0.0
    if name == 'rtruediv':
        if s == 0:
            raise ZeroDivisionError('division by zero')
        return o if s > 0 else -o
    return math.nan


def _div(a, b):
    if truth_cmp(b, '=='):
        raise ZeroDivisionError('division by zero')
    if P.sub:
        a, b = a.subst(P.sub), b.subst(P.sub)
    return SymReal(a * b.inverse())


def floor_of(rf):
    """fresh integer n with n <= rf < n+1; exact when rf is an integer polynomial"""
    if rf.is_const():
        return RF.const(math.floor(rf.const_value()))
    if is_integral(rf):
        return rf
    key = rf.key()
    v = P.floor_vars.get(key)
    if v is None:
        # a rational constant offset of an integral polynomial has a concrete floor
        if not rf.d:
            c0 = rf.n.t.get((), Fraction(0))
            body = Poly({m: c for m, c in rf.n.t.items() if m})
            if is_integral(RF(body)):
                return RF(body + Poly.const(math.floor(c0)))
        # halves: n/2 -> parity split
        if not rf.d and all(c.denominator in (1, 2) for c in rf.n.t.values()) and \
                all(P.table.sorts[x] == 'Int' for x in rf.n.vars()):
            k = P.new_var(P.fresh_name('k'), 'Int')
            b = P.z3poly(rf.n)
            x = z3.ToReal(P.z3vars[k])
            P.add(z3.Or(b == x, b == x + z3.RealVal('1/2')))
            P.model = None
            isint = P.decide(('int', key), lambda: b == x)
            # rf = k or k + 1/2
            P.learn_zero(rf.n - Poly.var(k) - (P0 if isint else Poly.const(Fraction(1, 2))))
            P.known[('=', (rf.n - Poly.var(k)).key())] = isint
            P.floor_vars[key] = k
            return RF(Poly.var(k)).subst(P.sub)
        v = P.new_var(P.fresh_name('fl'), 'Int')
        P.floor_vars[key] = v
        x = z3.ToReal(P.z3vars[v])
        y = RF(Poly.var(v))
        P.add(cmp_formula(y - rf, '<='))
        P.add(cmp_formula(rf - y - RF.const(1), '<'))
        P.model = None
    return RF(Poly.var(v)).subst(P.sub)


def is_integral(rf):
    return not rf.d and all(c.denominator == 1 for c in rf.n.t.values()) and \
        all(P.table.sorts[x] == 'Int' for x in rf.n.vars())


def _pow(s, b, o):
    if b.is_const():
        e = b.const_value()
        if e.denominator == 1:
            n = e.numerator
            if n >= 0:
                r = RF(P1)
                for _ in range(n):
                    r = r * s.rf
                return SymReal(r)
            return 1 / _pow(s, RF.const(-n), -n)
        if e.denominator == 2:
            r = s.sqrt()
            if isinstance(r, SymComplex):
                raise Unsupported('power of a negative number')
            return _pow(r, RF.const(e.numerator), e.numerator) if e != Fraction(1, 2) else r
        raise Unsupported(f'power {e}')
    if b.n is not None and s.rf.is_const():
        return _rpow(SymReal(b), s.rf, None)
    # symbolic exponent: concretise it
    return s ** SymReal(b).concretize()


def _rpow(s, b, o):
    """b ** s with concrete b"""
    if b.is_const():
        c = b.const_value()
        if c == 1:
            return SymReal(b)
        if c == -1:
            e = s.rf
            if e.is_const():
                return (-1) ** s.concretize()
            f = floor_of(e)
            e = s.rf
            if truth_cmp(e - f, '!='):
                raise Unsupported('(-1)**non-integer')
            return SymReal(sign_rf(e.subst(P.sub)))
    return SymReal(b) ** s.concretize()


def sign_rf(e):
    """(-1)**e for an integer valued e, as a product of sign variables of its integer variables"""
    out = RF(P1)
    neg = False
    for m, c in e.n.t.items():
        if not m:
            # constants are collected with halves below
            continue
    if e.d:
        raise Unsupported('(-1)**rational')
    c0 = e.n.t.get((), Fraction(0))
    if is_integral(RF(e.n)) and all(len(m) <= 1 and all(x[1] == 1 for x in m) for m in e.n.t):
        if c0.numerator % 2:
            out = -out
        for m, c in e.n.t.items():
            if m and c.numerator % 2:
                out = out * RF(Poly.var(sign_var(m[0][0])))
        return out
    # general: a fresh integer k equal to e
    f = floor_of(e)
    if f.n.is_const():
        return RF.const((-1) ** builtins.int(f.const_value()))
    if is_integral(f) and all(len(m) <= 1 for m in f.n.t):
        return sign_rf(f)
    raise Unsupported('(-1)**nonlinear')


def sign_var(v):
    s = P.sign_vars.get(v)
    if s is None:
        s = P.new_var(P.fresh_name(f'sgn_{P.table.names[v]}'), 'Real', P1)
        P.sign_vars[v] = s
        x = P.z3vars[s]
        P.define(s, z3.And(z3.Or(x == 1, x == -1), (x == 1) == (P.z3vars[v] % 2 == 0)))
    return s


def _mod(a, b):
    q = floor_of(_div(a, b).rf)
    if P.sub:
        a, b = a.subst(P.sub), b.subst(P.sub)
    return SymReal(a - q * b)


OPS = {
    'add': lambda s, b, o: SymReal(s.rf + b),
    'radd': lambda s, b, o: SymReal(b + s.rf),
    'sub': lambda s, b, o: SymReal(s.rf - b),
    'rsub': lambda s, b, o: SymReal(b - s.rf),
    'mul': lambda s, b, o: SymReal(s.rf * b),
    'rmul': lambda s, b, o: SymReal(s.rf * b),
    'truediv': lambda s, b, o: _div(s.rf, b),
    'rtruediv': lambda s, b, o: _div(b, s.rf),
    'floordiv': lambda s, b, o: SymReal(floor_of(_div(s.rf, b).rf)),
    'rfloordiv': lambda s, b, o: SymReal(floor_of(_div(b, s.rf).rf)),
    'mod': lambda s, b, o: _mod(s.rf, b),
    'rmod': lambda s, b, o: _mod(b, s.rf),
    'divmod': lambda s, b, o: (SymReal(floor_of(_div(s.rf, b).rf)), _mod(s.rf, b)),
    'pow': _pow,
    'rpow': _rpow,
}


class SymReal:
    """a symbolic real number (a rational function of the solver variables)"""
    __slots__ = ('_rf', 'ver', 'kind')

    def __init__(self, rf, kind='float'):
        self._rf = rf
        self.ver = P.ver
        self.kind = kind

    @property
    def rf(self):
        if self.ver != P.ver:
            self._rf = self._rf.subst(P.sub)
            self.ver = P.ver
        return self._rf

    @property
    def __class__(self):
        return builtins.int if self.kind == 'int' else builtins.float

    for _n in OPS:
        locals()[f'__{_n}__'] = _bin(_n)
    del _n
    __lt__, __le__, __gt__, __ge__ = _cmp('<'), _cmp('<='), _cmp('>'), _cmp('>=')
    __eq__, __ne__ = _cmp('=='), _cmp('!=')

    def __neg__(self):
        return SymReal(-self.rf, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if truth_cmp(self.rf, '<') else self

    def __bool__(self):
        return truth_cmp(self.rf, '!=')

    def __hash__(self):
        r = self.rf
        if r.is_const():
            c = r.const_value()
            return hash(builtins.float(c)) if c.denominator == 1 else hash(c)
        if all(P.table.sorts[v] == 'Int' for v in r.vars()) and not r.d:
            return hash(self.concretize())
        return 0x5eed      # symbolic keys are told apart by == (which forks)

    # conversions
    def concretize(self, limit=400, short=False):
        """the value as a concrete number: forks over the possible values if they are finitely many"""
        r = self.rf
        if r.is_const():
            return _num(r.const_value())
        path = P
        discrete = not r.d and all(path.table.sorts[v] == 'Int' for v in r.vars())
        if discrete:
            val = path.choose(r, limit)
            return _num(val)
        path.activate(r.vars())
        m = path.get_model()
        if m is None:
            raise Unknown('no model to concretise with')
        val = model_value(path, m, r)
        if val is None:
            raise Unsupported('irrational value needed')
        if path.pos >= len(path.prefix):      # a value whose rounding would show
            some = (val + Fraction(5, 4), val - Fraction(5, 4)) if short and (4 * val).denominator == 1 else ()
            for cand in some + (val + Fraction(1234567891, 10 ** 10), val - Fraction(1234567891, 10 ** 10),
                                val * Fraction(10001234567891, 10 ** 13)):
                if cand != val and path.check(cmp_formula(self.rf - RF.const(cand), '==')) == z3.sat:
                    val = cand
                    break
        val = path.ex.pick(path, val)
        path.add(cmp_formula(self.rf - RF.const(val), '=='))
        path.learn_zero((self.rf - RF.const(val)).n)
        path.concretized.append(repr(r))
        path.model = None
        return _num(val)

    def __float__(self):
        return builtins.float(self.concretize())

    def __int__(self):
        v = self.concretize()
        return builtins.int(v)

    def __index__(self):
        v = self.concretize()
        if v != builtins.int(v):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return builtins.int(v)

    def __complex__(self):
        return complex(builtins.float(self))

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return SymReal(floor_of(self.rf), 'int')

    def __ceil__(self):
        return SymReal(-floor_of(-self.rf), 'int')

    def trunc(self):
        r = self.rf
        if is_integral(r):
            return SymReal(r, 'int')
        f = floor_of(r)
        r = self.rf
        if truth_cmp(r, '<') and truth_cmp(r - f.subst(P.sub), '!='):
            f = f.subst(P.sub) + RF.const(1)
        return SymReal(f.subst(P.sub), 'int')

    def __round__(self, n=None):
        if n is None or n == 0:
            if is_integral(self.rf):
                return SymReal(self.rf, 'int' if n is None else 'float')
            f = floor_of(self.rf + RF.const(Fraction(1, 2)))
            d = self.rf - f.subst(P.sub) + RF.const(Fraction(1, 2))
            if truth_cmp(d, '==') and builtins.bool(SymReal(f) % 2 != 0):     # half to even
                f = f.subst(P.sub) - RF.const(1)
            return SymReal(f.subst(P.sub), 'int' if n is None else 'float')
        s = 10 ** n
        return (self * s).__round__() / s

    # numpy object-array methods
    def sqrt(self):
        r = self.rf
        if truth_cmp(r, '<'):
            return math.nan
        return SymReal(sqrt_rf(self.rf))

    def rint(self):
        return self.__round__(0)

    def floor(self):
        return SymReal(floor_of(self.rf))

    def ceil(self):
        return SymReal(-floor_of(-self.rf))

    def exp(self):
        return uf('exp', self)

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_integer(self):
        if is_integral(self.rf):
            return True
        f = floor_of(self.rf)
        return not truth_cmp(self.rf - f.subst(P.sub), '!=')

    def square(self):
        return self * self

    def item(self):
        return self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def fabs(self):
        return abs(self)

    def as_integer_ratio(self):
        return Fraction(self.concretize()).as_integer_ratio()

    # text
    def __str__(self):
        r = self.rf
        if r.is_const():
            c = r.const_value()
            if self.kind == 'int':
                return str(builtins.int(c))
            return str(builtins.float(c))
        return token(self)

    def __format__(self, spec):
        r = self.rf
        if r.is_const():
            c = r.const_value()
            return format(builtins.int(c) if self.kind == 'int' else builtins.float(c), spec)
        if spec in ('', 'r', 's') or spec in ('d', 'n') and self.kind == 'int':
            return token(self)
        if spec in ('e', 'f', 'g'):
            spec = '.6' + spec
        if spec[:1] == '.' and spec[1:-1].isdigit() and spec[-1:] in 'efg':
            n = builtins.int(spec[1:-1])
            if spec[-1] == 'f':                         # rounded to that many decimals
                return token(rounded(self, n))
            n = n + 1 if spec[-1] == 'e' else max(n, 1)     # rounded to that many digits
            a = abs(self)
            if a == 0:
                return token(self)
            e = 0
            while a >= 10 ** (e + 1):
                e += 1
                if e > 40:
                    raise Unsupported('format of a huge number')
            while a < SymReal(RF.const(Fraction(10) ** e)):
                e -= 1
                if e < -40:
                    raise Unsupported('format of a tiny number')
            return token(rounded(self, n - 1 - e))
        raise Unsupported(f'format {spec!r} of a symbolic number')

    def __repr__(self):
        return str(self) if P is not None else '<sym>'

    def __reduce__(self):
        REG.append(self)
        return (_from_reg, (len(REG) - 1,))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


REG = []


def _from_reg(i):
    return REG[i]


def _num(c):
    return builtins.float(c) if c.denominator != 1 else builtins.float(c.numerator)


def rounded(x, n):
    s = Fraction(10) ** n
    return (x * SymReal(RF.const(s)) + SymReal(RF.const(Fraction(1, 2)))).floor() * SymReal(RF.const(1 / s))


class SymComplex:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def __class__(self):
        return complex

    @staticmethod
    def of(x):
        if builtins.type(x) is SymComplex:
            return x
        if isinstance(x, (complex, np.complexfloating)) and builtins.type(x) is not SymComplex:
            return SymComplex(x.real, x.imag)
        if builtins.type(x) is SymReal or isinstance(x, NUM):
            return SymComplex(x, 0)
        return None

    def __add__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __sub__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        return SymComplex((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, n):
        r = SymComplex(1, 0)
        for _ in range(builtins.int(n)):
            r = r * self
        return r

    def abs2(self):
        return self.re * self.re + self.im * self.im

    def __abs__(self):
        a = self.abs2()
        return a.sqrt() if builtins.type(a) is SymReal else math.sqrt(a)

    def conjugate(self):
        return SymComplex(self.re, -self.im)
    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        o = SymComplex.of(o)
        return o is not None and builtins.bool(self.re == o.re) and builtins.bool(self.im == o.im)

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return builtins.bool(self.re != 0) or builtins.bool(self.im != 0)

    def __hash__(self):
        return hash((self.re, self.im))


# --------------------------------------------------------------------------------------------------------------------
# uninterpreted functions with axioms

UF_AXIOMS = {}


def uf(name, *args):
    rfs = []
    for a in args:
        r = lift(a)
        if r is None:
            raise Unsupported(f'{name} of {a!r}')
        rfs.append(r.subst(P.sub) if P.sub else r)
    key = (name,) + tuple(r.key() for r in rfs)
    v = P.uf_vars.get(key)
    if v is None:
        v = P.new_var(P.fresh_name(name), 'Real')
        P.uf_vars[key] = v
        UF_AXIOMS[name](v, rfs, [(k, u) for k, u in P.uf_vars.items() if k[0] == name and u != v])
        P.uf_args = getattr(P, 'uf_args', {})
        P.uf_args[v] = rfs
        P.model = None
    return SymReal(RF(Poly.var(v)))


def _exp_ax(v, rfs, others):
    x = P.z3vars[v]
    a = rfs[0]
    P.add(x > 0)
    P.add(z3.Implies(cmp_formula(a, '=='), x == 1))
    P.add(z3.Implies(cmp_formula(a, '<'), x < 1))
    P.add(z3.Implies(cmp_formula(a, '>'), x > 1))
    for _, u in others:
        b = P.uf_args[u][0]
        y = P.z3vars[u]
        d = a - b.subst(P.sub)
        P.add(z3.Implies(cmp_formula(d, '=='), x == y))
        P.add(z3.Implies(cmp_formula(d, '<'), x < y))
        P.add(z3.Implies(cmp_formula(d, '>'), x > y))


UF_AXIOMS['exp'] = _exp_ax


# --------------------------------------------------------------------------------------------------------------------
# tokens: text that stands for a symbolic number

TOK0 = '\ue000'
TOK1 = '\ue001'


def token(s):
    """text for a symbolic number; equal numbers get equal text (forks if two numbers may or may not be equal)"""
    r = s.rf
    p = P
    for i, (t, kind) in enumerate(p.token_list):
        if kind != s.kind:
            continue
        d = s.rf - t.rf
        if d.n.t and any(p.z3vars[v].is_real() for v in d.vars()):
            continue      # texts of continuous numbers are compared when needed (strs.equal)
        if truth_cmp(d, '=='):
            return f'{TOK0}{chr(0xe100 + i)}{TOK1}'
    p.token_list.append((SymReal(r, s.kind), s.kind))
    return f'{TOK0}{chr(0xe100 + len(p.token_list) - 1)}{TOK1}'


def untoken(text):
    """the symbolic number a token string stands for, or None"""
    t = text.strip()
    neg = t.startswith('-')
    if neg or t.startswith('+'):
        t = t[1:]
    if len(t) == 3 and t[0] == TOK0 and t[2] == TOK1:
        s = P.token_list[ord(t[1]) - 0xe100][0]
        return -s if neg else s
    return None


# --------------------------------------------------------------------------------------------------------------------
# models

def z3num(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def model_env(path, m):
    return {i: z3num(m.eval(path.z3vars[i], model_completion=True)) for i in range(len(path.z3vars))}


class _Env(dict):
    def __init__(self, path, m):
        super().__init__()
        self.path, self.m = path, m

    def __missing__(self, i):
        v = z3num(self.m.eval(self.path.z3vars[i], model_completion=True))
        if v is None:
            v = Fraction(0)
        self[i] = v
        return v


def model_value(path, m, r):
    env = _Env(path, m)
    n = r.n.eval(env)
    for f, e in r.d:
        d = Fraction(f.eval(env))
        if d == 0:
            return None
        n = n / d ** e
    return Fraction(n)
