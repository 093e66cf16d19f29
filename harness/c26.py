"""C26  the wrappers of the angular-momentum coefficients, over either backend"""
import importlib.util
import sys
import types

from symx.registry import harness

SIZE = {'3': 6, '6': 6, '9': 9}
TRIADS = {'6': [(0, 1, 2), (0, 4, 5), (3, 1, 5), (3, 4, 2)],
          '9': [(0, 1, 2), (3, 4, 5), (6, 7, 8), (0, 3, 6), (1, 4, 7), (2, 5, 8)]}


def obeys(ctx, n, v):
    """the selection rules of the coefficient for arguments v/2"""
    def triad(a, b, c):
        return ctx.holds(a + b >= c) and ctx.holds(b + c >= a) and ctx.holds(c + a >= b) and ctx.holds((a + b + c) % 2 == 0)
    if n == '3':
        j, m = v[:3], v[3:]
        return ctx.holds(m[0] + m[1] + m[2] == 0) and \
            all(ctx.holds(abs(b) <= a) and ctx.holds((a - b) % 2 == 0) for a, b in zip(j, m)) and triad(*j)
    return all(triad(*(v[i] for i in t)) for t in TRIADS[n]) and all(ctx.holds(x >= 0) for x in v)


class Backend:
    """a library whose answers are arbitrary"""
    def __init__(self, ctx, kind):
        self.ctx, self.kind, self.known, self.calls = ctx, kind, [], 0

    def expect(self, n, v, answer):
        """for arguments v/2, answer: a number or an exception"""
        self.known.append((n, v, answer))

    def function(self, n):
        def f(*args):
            self.calls += 1
            for k, v, answer in self.known:
                if k == n and len(args) == len(v) and all(self.same(x, y) for x, y in zip(args, v)):
                    if isinstance(answer, Exception):
                        raise answer
                    return answer
            return -987.0
        return f

    def same(self, x, twice):
        if self.kind == 'py3nj':
            return isinstance(x, int) and self.ctx.holds(x == twice)
        return self.ctx.holds(2 * x == twice)

    def wrappers(self):
        """the module as it is when this library is installed"""
        import sympy.physics.wigner as sw
        names = [f'wigner_{n}j' for n in '369']
        before = [getattr(sw, n) for n in names], sys.modules.get('py3nj', self)
        try:
            if self.kind == 'py3nj':
                lib = types.ModuleType('py3nj')
                for n in '369':
                    setattr(lib, f'wigner{n}j', self.function(n))
                sys.modules['py3nj'] = lib
            else:
                sys.modules['py3nj'] = None
                for n in '369':
                    setattr(sw, f'wigner_{n}j', self.function(n))
            spec = importlib.util.find_spec('atomtoolkit.wigner')
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
        finally:
            for n, f in zip(names, before[0]):
                setattr(sw, n, f)
            if before[1] is self:
                del sys.modules['py3nj']
            else:
                sys.modules['py3nj'] = before[1]
        return {n: getattr(mod, f'wigner{n}j') for n in '369'}


def refusal(ctx, kind, name):
    """what the library does with arguments that violate a selection rule"""
    how = ctx.pick(name, ['zero', 'ValueError', 'IndexError'] if kind == 'py3nj' else ['zero', 'ValueError'])
    return {'zero': 0.0, 'ValueError': ValueError('rule'), 'IndexError': IndexError('rule')}[how]


def twice(ctx, n, top, i):
    if n == '3':
        return ctx.int(f'2{"jm"[i // 3]}{i % 3}', -top if i > 2 else -2, top)
    return ctx.int(f'2j{i}', -2, top)


def given(ctx, v, ints):
    return [x // 2 if ints else x / 2 for x in v]


@harness('C26', cases=lambda tier: [dict(n=n, kind=k, ints=i) for n in '369' for k in ('sympy', 'py3nj') for i in (False, True)],
         quick=dict(top=8), thorough=dict(top=40),
         bounds='every integer and half-integer from -1 to 4 (20 in the thorough tier) for every argument (projections from -4), given as '
                'floats or, where integer, as ints; the answer of the library arbitrary for allowed arguments, zero or an error for others',
         outside='arguments that are no half-integers; the values the libraries compute')
def wrapped(ctx, n, kind, ints, top):
    v = [twice(ctx, n, top, i) for i in range(SIZE[n])]
    if ints:
        v = [2 * x for x in v]
    lib = Backend(ctx, kind)
    ok = obeys(ctx, n, v)
    want = ctx.real('value', -1, 1) if ok else 0.0
    lib.expect(n, v, want if ok else refusal(ctx, kind, 'refusal'))
    w = lib.wrappers()[n]
    a = [x / 2 for x in v] if not ints else [x // 2 for x in v]
    for rnd in ('', ' on a repeated call'):
        got = w(*a)
        ctx.check(isinstance(got, float), 'a number is returned' + rnd)
        ctx.eq(got, want, ('the value of the library' if ok else 'zero for forbidden arguments') + rnd)


SETS = {'3': [(2, 2, 2, 0, 0, 0), (2, 2, 4, 2, -2, 0), (2, 2, 4, -2, 2, 0), (2, 4, 2, 2, 0, -2), (4, 2, 2, 0, 2, -2), (1, 1, 2, 1, 1, -2),
              (1, 1, 2, 1, 1, 2), (2, 2, 6, 0, 0, 0)],
        '6': [(2, 2, 2, 2, 2, 2), (1, 3, 2, 3, 1, 2), (3, 1, 2, 1, 3, 2), (1, 2, 3, 3, 2, 1), (2, 2, 8, 2, 2, 2), (1, 1, 1, 1, 1, 1)],
        '9': [(2,) * 9, (1, 1, 2, 1, 1, 2, 2, 2, 2), (1, 1, 2, 1, 1, 2, 2, 2, 4), (1, 1, 2, 1, 1, 0, 2, 0, 2), (1,) * 9]}


@harness('C26', cases=lambda tier: [dict(n=n, kind=k, first=i) for n in '369' for k in ('sympy', 'py3nj') for i in range(len(SETS[n]))],
         bounds='sequences of calls with two argument sets out of a list of similar ones (permuted, mirrored, allowed and forbidden), '
                'the answers of the library arbitrary; of 3j, 6j and 9j')
def histories(ctx, n, kind, first):
    lib = Backend(ctx, kind)
    other = ctx.pick('second', [i for i in range(len(SETS[n])) if i != first])
    want = {}
    for i in (first, other):
        v = SETS[n][i]
        ok = obeys(ctx, n, v)
        want[i] = ctx.real(f'value{i}', -1, 1) if ok else 0.0
        lib.expect(n, v, want[i] if ok else refusal(ctx, kind, f'refusal{i}'))
    w = lib.wrappers()[n]
    for i in (first, other, first, other, other, first):
        ctx.eq(w(*[x / 2 for x in SETS[n][i]]), want[i], 'the value of the library whatever was asked before')
