"""Compares the closed forms of symx/wig.py with the angular-momentum library on models of every explored path."""
import sys
sys.path.insert(0, '/verif')
from symx import loader
loader.install()
from symx import explore, engine as E, wig
from symx.engine import z3
import math

bad = 0
n = 0


def f3(ctx, k, pos, **_):
    j = ctx.half('j', 0, 8); jj = ctx.half('jj', 0, 8); m = ctx.half('m', -8, 8); mm = ctx.half('mm', -8, 8)
    q = ctx.half('q', -3, 3)
    args = [None]*6
    order = {0: (1, 0, 2), 1: (0, 1, 2), 2: (0, 2, 1)}[pos]
    for o, (a, b) in zip(order, ((j, m), (k, q), (jj, mm))):
        args[o], args[o+3] = a, b
    test('3j', args)


def f6(ctx, k, pos, **_):
    args = [ctx.half(f'j{i}', 0, 6) for i in range(6)]
    args[pos] = k
    test('6j', args)


def test(name, args):
    global bad, n
    try:
        v = getattr(wig, 'wigner_' + name)(*args)
    except ValueError:
        v = 'ValueError'
    p = E.P
    extra = []
    for _ in range(6):
        if p.check(*extra) != z3.sat:
            break
        m = p.last_model
        c = [E.model_value(p, m, x.rf) if type(x) is E.SymReal else x for x in args]
        extra.append(z3.Or(*[E.cmp_formula(x.rf - E.RF.const(y), '!=') for x, y in zip(args, c) if type(x) is E.SymReal]))
        try:
            w = float(wig.REAL[name](*[float(x) for x in c]))
        except ValueError:
            w = 'ValueError'
        u = v if type(v) is not E.SymReal else float(E.model_value(p, m, v.rf))
        n += 1
        if isinstance(w, str) or isinstance(u, str):
            ok = (u in (0, 'ValueError')) and (w in (0, 'ValueError'))
        else:
            ok = abs(float(u) - w) < 1e-9
        if not ok:
            bad += 1
            if bad < 20:
                print(name, [float(x) for x in c], 'closed form', u, 'library', w)


if __name__ == '__main__':
    for name, f in (('3j', f3), ('6j', f6)):
        for k in (0, 0.5, 1, 1.5, 2):
            for pos in range(3 if name == '3j' else 6):
                if f is f6 and k > 1 and pos not in (2, 5): continue
                ex = explore.Explorer(f, dict(k=k, pos=pos), wall=60, reset=loader.reset)
                ex.run()
                print(name, k, pos, ex.stats['paths'], n, bad, ex.complete, ex.errors[:2], flush=True)
