"""Exploration of all paths of a harness, and the interface harnesses are written against."""
import builtins
import math
import time
import traceback
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import z3, RF, Poly, SymReal, SymBool, SymComplex, PathAbort, Unsupported, Unknown, lift


class Budget(BaseException):
    pass


class Counterexample:
    def __init__(self, inputs, what, kind):
        self.inputs, self.what, self.kind = inputs, what, kind


class Explorer:
    """depth-first exploration by re-execution"""
    def __init__(self, fn, params, mode='A', timeout_ms=10000, wall=600, max_cex=4, reset=None, second=None,
                 max_models=6, seed=1, verify=None):
        self.fn, self.params, self.mode = fn, params, mode
        self.timeout_ms, self.wall = timeout_ms, wall
        self.max_cex, self.reset = max_cex, reset
        self.second = second
        self.seed = seed
        self.verify = verify       # callable(inputs) -> True if the real code violates the property on these inputs
        self.stack = [[]]
        self.stats = dict(paths=0, aborted=0, queries=0, sat=0, unsat=0, unknown=0, branches=0, branch_unknown=0,
                          solver_s=0.0, checks=0, checks_decided=0, checks_unknown=0, unsupported=0, concretized=0,
                          second=0, second_disagree=0)
        self.cex = []
        self.errors = []          # (kind, text)
        self.models = []          # inputs of completed paths
        self.max_models = max_models
        self.reached = {}
        self.complete = True
        self.functions = set()

    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    def push(self, prefix):
        self.stack.append(prefix)

    def pick(self, path, val):
        if path.pos < len(path.prefix):
            val = path.prefix[path.pos][0]
        path.pos += 1
        path.decisions.append((val, True))
        return val

    def run(self):
        self.deadline = time.time() + self.wall
        t0 = time.time()
        while self.stack:
            if time.time() > self.deadline or len(self.cex) >= self.max_cex:
                self.complete = False
                break
            prefix = self.stack.pop()
            if self.reset:
                self.reset()
            path = E.Path(self, prefix)
            E.set_path(path)
            ctx = SymCtx(self, path)
            try:
                try:
                    self.fn(ctx, **self.params)
                finally:
                    self.stats['checks'] += path.checks
                self.finish(path)
            except E.Violation:
                self.stats['paths'] += 1
            except PathAbort:
                self.stats['aborted'] += 1
            except Budget:
                self.complete = False
                break
            except (Unsupported, RecursionError) as e:
                self.stats['paths'] += 1
                self.stats['unsupported'] += 1
                self.errors.append(('unsupported', f'{e!r} {where(e)}'))
            except Exception as e:
                self.stats['paths'] += 1
                self.exception(path, ctx, e)
        E.set_path(None)
        self.stats['wall_s'] = time.time() - t0
        return self

    def finish(self, path):
        self.stats['paths'] += 1
        self.stats['concretized'] += len(path.concretized)
        for r in path.reached:
            self.reached[r] = self.reached.get(r, 0) + 1
        if len(self.models) < self.max_models:
            try:
                m = path.get_model()
            except PathAbort:
                return
            if m is not None:
                self.models.append(self.inputs(path, m))

    def inputs(self, path, m):
        out = {}
        for name, (kind, v) in path.inputs.items():
            if builtins.type(v) is SymReal:
                v = E.model_value(path, m, v.rf)
            out[name] = (kind, v)
        return out

    def exception(self, path, ctx, e):
        """the code under test raised: a violation if the real code does so too, otherwise a limit of the engine"""
        text = f'{type(e).__name__}: {e} {where(e)}'
        try:
            m = path.get_model()
        except PathAbort:
            self.stats['aborted'] += 1
            return
        if m is None:
            self.errors.append(('unsupported', 'no model for ' + text))
            self.stats['unsupported'] += 1
            return
        self.report(path, m, 'exception ' + text, 'exception')

    def report(self, path, m, what, kind, alternatives=()):
        """a candidate violation: confirmed against the uninstrumented code, else recorded as engine error"""
        for mm in [m] + list(alternatives):
            if mm is None:
                continue
            inp = self.inputs(path, mm)
            if self.verify is None or self.verify(inp):
                self.cex.append(Counterexample(inp, what, kind))
                return True
        self.errors.append(('unreproduced', f'{what} with {show(self.inputs(path, m))}'))
        self.stats['unsupported'] += 1
        return False


def show(inputs):
    return ', '.join(f'{k}={float(v[1]) if isinstance(v[1], Fraction) else v[1]}' for k, v in inputs.items())


def where(e):
    fr = traceback.extract_tb(e.__traceback__)
    fr = [f for f in fr if '/symx/' not in f.filename] or fr
    return '@ ' + ' < '.join(f'{f.filename.split("/")[-1]}:{f.lineno}:{f.name}' for f in fr[-4:][::-1])


def negligible(d, ra, rb, rtol):
    """over a common denominator, every coefficient of the difference is tiny next to those of the two sides: the float
    constants of the code are read as exact numbers, which leaves their rounding errors"""
    for f, e in d.d:
        for _ in range(e):
            ra, rb = ra * RF(f), rb * RF(f)
    if ra.d or rb.d:
        return False
    n = max((abs(c) for c in d.n.t.values()), default=Fraction(0))
    big = max([abs(c) for c in ra.n.t.values()] + [abs(c) for c in rb.n.t.values()] + [Fraction(0)])
    return n <= Fraction(rtol) * big


class SymCtx:
    symbolic = True

    def __init__(self, ex, path):
        self.ex, self.path = ex, path
        self.mode = ex.mode

    # inputs --------------------------------------------------------------------------------------------------
    def _reg(self, name, kind, v):
        self.path.inputs[name] = (kind, v)
        return v

    def real(self, name, lo=None, hi=None, positive=False, nonneg=False, nonzero=False):
        """an arbitrary real number in [lo, hi]"""
        i = self.path.new_var(name, 'Real')
        x = self.path.z3vars[i]
        for b, f in ((lo, lambda b: x >= b), (hi, lambda b: x <= b)):
            if b is not None:
                self.path.bound(f(z3.RealVal(str(Fraction(repr(b)) if isinstance(b, float) else b))))
        if positive:
            self.path.bound(x > 0)
        if nonneg:
            self.path.bound(x >= 0)
        if nonzero:
            self.path.bound(x != 0)
        v = SymReal(RF(Poly.var(i)))
        self._reg(name, 'real', v)
        if self.mode == 'C':
            v = self._sample(v, name, lo, hi, positive, nonneg, nonzero)
        return v

    def _sample(self, v, name, lo, hi, positive, nonneg, nonzero):
        """fallback mode: a concrete value"""
        import random
        rnd = random.Random(f'{self.ex.seed}:{name}:{getattr(self.ex, "round", 0)}')
        a = float(lo) if lo is not None else (0.0 if positive or nonneg else -1e3)
        b = float(hi) if hi is not None else a + 2e3
        val = Fraction(rnd.randint(1, 9999), 10000) * Fraction(repr(b - a)) + Fraction(repr(a))
        val = Fraction(f'{float(val):.11g}')
        self.path.add(E.cmp_formula(v.rf - RF.const(val), '=='))
        self.path.learn_zero((v.rf - RF.const(val)).n)
        self.path.concretized.append(name)
        return float(val)

    def int(self, name, lo, hi, kind='int'):
        """an arbitrary integer in [lo, hi]"""
        i = self.path.new_var(name, 'Int')
        x = self.path.z3vars[i]
        self.path.bound(z3.And(x >= lo, x <= hi))
        self.path.domain[i] = (lo, hi)
        v = SymReal(RF(Poly.var(i)), kind)
        self._reg(name, 'int', v)
        if self.mode in 'BC':
            c = v.concretize()
            return builtins.int(c) if kind == 'int' else c
        return v

    def half(self, name, lo, hi):
        """an arbitrary multiple of 1/2 in [lo, hi] (an angular momentum), as a float"""
        i = self.path.new_var(name + '*2', 'Int')
        x = self.path.z3vars[i]
        self.path.bound(z3.And(x >= builtins.int(2 * lo), x <= builtins.int(2 * hi)))
        self.path.domain[i] = (builtins.int(2 * lo), builtins.int(2 * hi))
        v = SymReal(RF(Poly.var(i).scale(Fraction(1, 2))))
        self._reg(name, 'half', v)
        if self.mode in 'BC':
            return v.concretize()
        return v

    def flag(self, name):
        """an arbitrary boolean; the path forks on it"""
        i = self.path.new_var(name, 'Int')
        x = self.path.z3vars[i]
        self.path.add(z3.And(x >= 0, x <= 1))
        self.path.domain[i] = (0, 1)
        self._reg(name, 'flag', SymReal(RF(Poly.var(i)), 'int'))
        return bool(SymBool(f=x == 1))

    def pick(self, name, options):
        """an arbitrary element of a finite list; the path forks on which"""
        options = list(options)
        i = self.path.new_var(name, 'Int')
        x = self.path.z3vars[i]
        self.path.add(z3.And(x >= 0, x < len(options)))
        self.path.domain[i] = (0, len(options) - 1)
        self._reg(name, 'pick', SymReal(RF(Poly.var(i)), 'int'))
        lo, hi = 0, len(options) - 1
        while lo < hi:      # binary: forks in the order of the list
            mid = (lo + hi) // 2
            if bool(SymBool(f=x <= mid)):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def char(self, name, options):
        """an arbitrary character out of a string of options; stays symbolic"""
        from . import strs
        return strs.new_char(self, name, options)

    def fork(self, v):
        """the concrete value of a discrete symbolic number; the path forks over the possible values"""
        if builtins.type(v) is SymReal:
            return v.concretize()
        return v

    # path ----------------------------------------------------------------------------------------------------
    def assume(self, cond):
        if builtins.type(cond) is SymBool:
            f = cond.formula()
            self.path.add(f)
            self.path.model = None
            if cond.f is None and cond.op == '==':
                self.path.learn_zero(cond.rf.n)
            if self.path.pos >= len(self.path.prefix):
                if self.path.check() == z3.unsat:
                    raise PathAbort()
                self.path.model = None
            return
        if not cond:
            raise PathAbort()

    def holds(self, cond):
        return bool(cond)

    def all(self, *conds):
        return SymBool(f=z3.And(*[E.formula(c) for c in conds]))

    def any(self, *conds):
        return SymBool(f=z3.Or(*[E.formula(c) for c in conds]))

    def not_(self, c):
        return SymBool(f=z3.Not(E.formula(c)))

    def reach(self, label):
        self.path.reached.add(label)

    # properties ----------------------------------------------------------------------------------------------
    def check(self, cond, what):
        """cond must hold for every value on this path"""
        p = self.path
        p.checks += 1
        p.reached.add(what)
        if self._decided(lambda: self.check(again(cond), what)):
            return
        if builtins.type(cond) is not SymBool:
            self.ex.stats['checks_decided'] += 1
            if not cond:
                m = self._model()
                self._fail(m, what)
            return
        if cond.f is None and cond.rf.n.t and cond.op not in ('==', '!='):
            sg = E.possible_signs(cond.rf.sign_poly().subst(p.sub))
            if sg <= {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {1, 0}}[cond.op]:
                self.ex.stats['checks_decided'] += 1
                return
        f = E.z3.Not(cond.formula())
        r = p.check(f)
        if r == z3.unsat:
            self.ex.stats['checks_decided'] += 1
        elif r == z3.sat:
            m = p.last_model
            self._fail(m, what, f)
        else:
            self._split(lambda: self.check(again(cond), what), what)

    def _model(self):
        m = self.path.get_model()
        return m

    def _fail(self, m, what, f=None):
        if m is None:
            raise Unknown('no model for a failed check: ' + what)
        alts = []
        if f is not None:
            alts = self._nice(f)
        self.ex.report(self.path, alts[0] if alts else m, what, 'check', alts[1:] + [m])
        raise E.Violation()

    def _nice(self, f, spread=True):
        """models of moderate size, which survive conversion to floats"""
        p = self.path
        out = []
        ins = [v for k, v in p.inputs.values() if builtins.type(v) is SymReal and k == 'real' and not v.rf.is_const()]
        for bound in (8, 1000, 10 ** 6):
            s = [z3.And(E.cmp_formula(v.rf - RF.const(bound), '<='), E.cmp_formula(v.rf + RF.const(bound), '>='))
                 for v in ins]
            try:
                if p.check(f, *s) == z3.sat:
                    out.append(p.last_model)
                    break
            except z3.Z3Exception:
                break
        return out

    def _decided(self, retry):
        """when re-executing a prefix: was this property decided on the path this one was forked from?"""
        p = self.path
        if p.pos >= len(p.prefix):
            return False
        mark = p.prefix[p.pos][0]
        if builtins.type(mark) is str and mark.startswith('split:'):
            p.pos += 1
            p.decisions.append((mark, True))
            p.inputs[mark[6:]][1].concretize()
            retry()
        return True

    def _split(self, retry, what):
        """the solver gave no verdict: split on an integer input"""
        p = self.path
        for name, (kind, v) in p.inputs.items():
            if kind in ('int', 'half') and builtins.type(v) is SymReal and not v.rf.is_const():
                p.pos += 1
                p.decisions.append(('split:' + name, True))
                v.concretize()
                return retry()
        self.ex.stats['checks_unknown'] += 1
        self.ex.errors.append(('unknown', what))

    def eq(self, a, b, what, scale=None, rtol=1e-9):
        """a and b are the same number (up to rounding in float constants)"""
        p = self.path
        p.reached.add(what)
        ca, cb = SymComplex.of(a), SymComplex.of(b)
        if builtins.type(a) is SymComplex or builtins.type(b) is SymComplex:
            self.eq(ca.re, cb.re, what + ' (real part)', scale, rtol)
            return self.eq(ca.im, cb.im, what + ' (imaginary part)', scale, rtol)
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            self.eq(a.real, b.real, what, scale, rtol)
            return self.eq(a.imag, b.imag, what, scale, rtol)
        ra, rb = lift(a), lift(b)
        if ra is None or rb is None:
            return self.check((a != a and b != b) or (ra is None and rb is None and a == b), what)
        d = ra - rb
        if P_sub():
            d = d.subst(P_sub())
        p.checks += 1
        if self._decided(lambda: self.eq(a, b, what, scale, rtol)):
            return
        if d.is_const():
            c = abs(d.const_value())
            if c == 0:
                self.ex.stats['checks_decided'] += 1
                return
            if ra.is_const():
                big = max(abs(ra.const_value()), abs(rb.const_value()))
                if c <= Fraction(rtol) * big or c < Fraction(1, 10 ** 14):
                    self.ex.stats['checks_decided'] += 1
                    return
        if negligible(d, ra, rb, rtol):
            self.ex.stats['checks_decided'] += 1
            return
        f = E.cmp_formula(d, '!=')
        m = None
        if not d.is_const():
            _, q = d.n.subst(p.sub).content_sign()
            for g, e in E.factors(q):
                if len(g.t) < len(q.t) and E.linear(g) and p.check(E.cmp_formula(RF(g), '!=')) == z3.unsat:
                    self.ex.stats['checks_decided'] += 1
                    return
            if not E.linear(q):
                m = p.get_model()
                v = E.approx(p, m, d) if m is not None else None
                if v is None or abs(v) < 1e-7:
                    m = None
        if m is not None:
            r = z3.sat
        else:
            r = p.check(f)
        if r == z3.unsat:
            self.ex.stats['checks_decided'] += 1
            return
        m = m if m is not None else p.last_model if r == z3.sat else None
        # float constants of the code are read as exact numbers: allow their rounding error
        if r == z3.sat:
            # prefer a clear counterexample
            alts = []
            for t in (10 ** 6, 1, Fraction(1, 1000)):
                fm = E.z3.Or(E.cmp_formula(d - RF.const(t), '>='), E.cmp_formula(d + RF.const(t), '<='))
                alts += self._nice(fm)
            self.ex.report(p, alts[0] if alts else m, what, 'check', alts[1:] + self._nice(f) + [m])
            raise E.Violation()
        self._split(lambda: self.eq(a, b, what, scale, rtol), what)

    def le(self, a, b, what, tol=0):
        d = (a - b)
        if builtins.type(d) is SymReal:
            return self.check(d <= tol if not d.rf.is_const() else d.concretize() <= tol + 1e-12, what)
        return self.check(d <= tol + 1e-9 * max(abs(a), abs(b)), what)

    def iff(self, a, b, what):
        """two truth values agree"""
        if builtins.type(a) is not SymBool and builtins.type(b) is not SymBool:
            return self.check(bool(a) == bool(b), what)
        return self.check(SymBool(f=E.formula(a) == E.formula(b)), what)

    def raises(self, exc, fn, what):
        try:
            fn()
        except exc:
            return self.check(True, what)
        except (Unsupported, PathAbort):
            raise
        except Exception as e:
            return self.check(False, f'{what} (raised {type(e).__name__} {where(e)})')
        return self.check(False, what + ' (nothing raised)')

    def observe(self, v):
        self.path.observed.append(v)

    def split_roots(self):
        """write square roots as products of roots of linear factors, so that sums of products of roots simplify"""
        self.path.split_roots = True


def P_sub():
    return E.P.sub


def again(cond):
    """the condition after more was learnt about the inputs"""
    if builtins.type(cond) is SymBool and cond.f is None:
        rf = cond.rf.subst(E.P.sub)
        return E.truth_cmp(rf, cond.op) if rf.is_const() else SymBool(rf, cond.op)
    return cond


# --------------------------------------------------------------------------------------------------------------------

class ConcreteFailure(BaseException):
    pass


class Assumption(BaseException):
    pass


class MissingInput(BaseException):
    """the real code took another way through the harness than the path the inputs belong to"""


class ConcreteCtx:
    """the same interface, on given concrete inputs and the real, uninstrumented code"""
    symbolic = False
    mode = 'R'

    def __init__(self, inputs):
        self.inputs = inputs
        self.checks = 0
        self.seen = 1e-3     # largest number met so far: sets the size of rounding errors

    def _get(self, name):
        if name not in self.inputs:
            raise MissingInput(name)
        return self.inputs[name][1]

    def real(self, name, lo=None, hi=None, positive=False, nonneg=False, nonzero=False):
        v = self._get(name)
        x = float(v)
        if (lo is not None and x < lo) or (hi is not None and x > hi) or (positive and x <= 0) or \
                (nonneg and x < 0) or (nonzero and x == 0):
            raise Assumption(name)
        self.seen = max(self.seen, abs(x))
        return x

    def int(self, name, lo, hi, kind='int'):
        v = self._get(name)
        return builtins.int(v) if kind == 'int' else float(v)

    def half(self, name, lo, hi):
        return float(self._get(name))

    def flag(self, name):
        return bool(self._get(name))

    def pick(self, name, options):
        return list(options)[builtins.int(self._get(name))]

    def char(self, name, options):
        return options[builtins.int(self._get(name))]

    def fork(self, v):
        return v

    def assume(self, cond):
        if not cond:
            raise Assumption()

    def holds(self, cond):
        return bool(cond)

    def all(self, *c):
        return builtins.all(c)

    def any(self, *c):
        return builtins.any(c)

    def not_(self, c):
        return not c

    def reach(self, label):
        pass

    def check(self, cond, what):
        self.checks += 1
        if not cond:
            raise ConcreteFailure(what)

    def slack(self):
        """rounding errors to be expected in sums of numbers of the size met so far"""
        return 1e-12 * min(self.seen, 1) + 1e-14 * self.seen

    def eq(self, a, b, what, scale=None, rtol=1e-9):
        self.checks += 1
        a, b = complex(a), complex(b)
        if a == b or (a != a and b != b):
            return
        s = max(abs(a), abs(b)) if scale is None else sum(abs(complex(v)) for v in (
            scale if isinstance(scale, (list, tuple)) else [scale]))
        big = max(abs(a), abs(b))
        if big < 1e300:
            self.seen = max(self.seen, big)
        if not (abs(a - b) <= rtol * s or abs(a - b) <= self.slack()):
            raise ConcreteFailure(f'{what}: {a} != {b}')

    def le(self, a, b, what, tol=0):
        self.checks += 1
        if not (a - b <= tol + 1e-9 * max(abs(a), abs(b)) + self.slack()):
            raise ConcreteFailure(f'{what}: {a} > {b}')

    def iff(self, a, b, what):
        self.check(bool(a) == bool(b), what)

    def raises(self, exc, fn, what):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise ConcreteFailure(f'{what} (raised {type(e).__name__})')
        raise ConcreteFailure(what + ' (nothing raised)')

    def observe(self, v):
        pass

    def split_roots(self):
        pass
