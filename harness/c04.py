"""C04  energies under histories of edits"""
from symx.registry import harness
from .common import A, Q_, hz, level, steps, ff, MU_B
from .c02 import expected
from .c03 import lande
from .c01 import ff2

OPS = ['level', 'hf low', 'hf high', 'z low', 'z high', 'A', 'B', 'C', 'field', 'quad', 'other', 'other z']
IJ = {'a': (0.5, 0.5), 'b': (1.5, 1.5), 'c': (0, 0.5), 'd': (2.5, 2), 'e': (1, 1.5)}


class Shadow:
    """the documented energies of one level, by the formulas of C02 and C03"""
    def __init__(self, ctx, I, J, E, g, a, b, c):
        self.ctx, self.I, self.J, self.E, self.g, self.a, self.b, self.c = ctx, I, J, E, g, a, b, c
        self.quad = {}

    def hf(self, F):
        return self.E + expected(self.ctx, self.I, self.J, F, self.a, self.b, self.c)

    def z(self, F, m, B):
        gF = 0 if F == 0 else lande(self.I, self.J, F, self.g)
        return self.hf(F) + gF * m * MU_B * B + self.quad.get((F, m), 0) * B * B

    def states(self):
        for F in steps(abs(self.I - self.J), self.I + self.J):
            for m in steps(-F, F):
                yield F, m


def compare(ctx, lv, sh, B, what):
    ctx.eq(lv.level.to('Hz').magnitude, sh.E, what + 'energy of the level')
    ctx.eq(lv.level_Hz, sh.E, what + 'energy of the level in Hz')
    for F in steps(abs(sh.I - sh.J), sh.I + sh.J):
        h = lv['F=' + ff(F)]
        ctx.eq(h.level.to('Hz').magnitude, sh.hf(F), what + 'energy of a hyperfine sublevel')
        ctx.eq(h.level_Hz, sh.hf(F), what + 'energy of a hyperfine sublevel in Hz')
        ms = steps(-F, F)
        for m in ms if len(ms) <= 4 else [ms[0], ms[1], ms[-1]]:
            z = h['mF=' + ff2(m)]
            ctx.eq(z.level.to('Hz').magnitude, sh.z(F, m, B), what + 'energy of a Zeeman sublevel')
            ctx.eq(z.level_Hz, sh.z(F, m, B), what + 'energy of a Zeeman sublevel in Hz')


def target(sh, op):
    """sublevels addressed by an operation: extreme or inner states"""
    lo, hi = abs(sh.I - sh.J), sh.I + sh.J
    F = lo if op.endswith('low') else hi
    m = -F + 1 if F >= 1 and op.endswith('low') else F
    return F, m


def cases(tier):
    out = []
    for k in (['a', 'b', 'c'] if tier == 'quick' else list(IJ)):
        for op in OPS:
            out.append(dict(spins=k, first=op))
    return out


@harness('C04', cases=cases, quick=dict(n=3), thorough=dict(n=4),
         bounds='every sequence of up to n edits (3 quick, 4 thorough) out of 12 kinds (energy of the level, of a low or '
                'high hyperfine sublevel, of a low or high Zeeman sublevel; A, B, C; magnetic field; a quadratic '
                'coefficient; energy of another level or of one of its Zeeman sublevels) with all real values; read '
                'after every edit or only at the end, sublevels generated before the edits or on reading; '
                '(I, J) = (1/2,1/2), (3/2,3/2), (0,1/2), thorough also (5/2,2), (1,3/2)',
         outside='longer histories; other spins; changing the Lande factor after sublevels exist')
def history(ctx, spins, first, n):
    I, J = IJ[spins]
    B = ctx.real('field')
    atom = A.Atom('x', I=I, B=Q_(B, 'G'))
    v = [ctx.real(x) for x in ('E', 'gJ', 'A', 'B', 'C')]
    w = [ctx.real(x) for x in ('E2', 'A2')]
    lv = atom.add_level(level('c', '2P', J, v[0], v[1], v[2], v[3], v[4]))
    ot = atom.add_level(level('c', '2D*', J, w[0], 1.25, w[1]))
    sh = Shadow(ctx, I, J, *v)
    so = Shadow(ctx, I, J, w[0], 1.25, w[1], 0, 0)
    reading = ctx.flag('read after every edit')
    if reading:
        compare(ctx, lv, sh, B, 'before: ')
        compare(ctx, ot, so, B, 'other, before: ')
    for i in range(n):
        op = first if i == 0 else ctx.pick(f'edit {i + 1}', ['stop'] + OPS)
        if op == 'stop':
            break
        x = ctx.real(f'value {i + 1}')
        val = hz(x) if i % 2 == 0 else Q_(x / 10 ** 9, 'GHz')
        if op == 'level':
            lv.level = val
            sh.E = x
        elif op.startswith('hf'):
            F, _ = target(sh, op)
            d = x - sh.hf(F)
            lv['F=' + ff(F)].level = val
            sh.E = sh.E + d
        elif op.startswith('z'):
            F, m = target(sh, op)
            d = x - sh.z(F, m, B)
            lv['F=' + ff(F)]['mF=' + ff2(m)].level = val
            sh.E = sh.E + d
        elif op == 'A':
            lv.hfA = val
            sh.a = x
        elif op == 'B':
            lv.hfB = val
            sh.b = x
        elif op == 'C':
            lv.hfC = val
            sh.c = x
        elif op == 'field':
            atom.B = Q_(x, 'G') if i % 2 == 0 else Q_(x / 1000, 'kG')
            B = x
        elif op == 'quad':
            F, m = target(sh, 'high')
            atom.levels[f'{lv.name} F={ff(F)} mF={ff2(m)}'].quadratic_zeeman = x
            sh.quad[F, m] = x
        elif op == 'other':
            ot.level = val
            so.E = x
        elif op == 'other z':
            F, m = target(so, 'low')
            d = x - so.z(F, m, B)
            ot['F=' + ff(F)]['mF=' + ff2(m)].level = val
            so.E = so.E + d
        if reading:
            compare(ctx, lv, sh, B, '')
            compare(ctx, ot, so, B, 'other level: ')
    compare(ctx, lv, sh, B, '')
    compare(ctx, ot, so, B, 'other level: ')
