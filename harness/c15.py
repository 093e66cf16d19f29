"""C15  hyperfine coefficient files"""
import os
import tempfile

from symx.registry import harness
from .common import A, Q_, hz, level
import atomtoolkit.IO as IO

CONFS = [('6s', '2S'), ('4f13.(2F*<7/2>).5d.(2D<5/2>)', '(7/2,5/2)'), ('4f13.(2F*<5/2>).5d.6s.(3D)', '2[5/2]*')]
JS = [0.5, 3.5, 2.5]


def make(ctx, which, tag, units='Hz'):
    atom = A.Atom('x', I=2.5, B=Q_(ctx.real(tag + 'B'), 'G'))
    out = {}
    for i in which:
        e = ctx.real(f'{tag}E{i}')
        co = [ctx.real(f'{tag}{c}{i}') for c in 'ABC']
        s = {'Hz': 1, 'MHz': 10 ** 6, 'GHz': 10 ** 9}[units]
        from atomtoolkit.term import Term
        lv = A.EnergyLevel(Term(*CONFS[i], JS[i]), hz(e), lande=1.0 + i, hfA=Q_(co[0] / s, units), hfB=Q_(co[1] / s, units),
                           hfC=Q_(co[2] / s, units), alias=f'al{i}')
        atom.add_level(lv)
        out[i] = (lv, e, co)
    return atom, out


def coefficients(ctx, lv, co, what):
    for got, want, n in zip((lv.hfA, lv.hfB, lv.hfC), co, 'ABC'):
        ctx.eq(got.to('Hz').magnitude, want, what + n + ' coefficient')


def unchanged(ctx, atom, out, what, coef=True):
    ctx.check(len(atom.levels) == len(out), what + 'levels of the atom')
    for i, (lv, e, co) in out.items():
        ctx.eq(lv.level_Hz, e, what + 'energy of a level')
        ctx.check(atom.levels[lv.name] is lv and atom.levels[f'al{i}'] is lv, what + 'name and alias of a level')
        ctx.eq(lv.lande, 1.0 + i, what + 'Lande factor of a level')
        if coef:
            coefficients(ctx, lv, co, what)


def cases(tier):
    return [dict(src=s, dst=d, units=u) for s in ([0, 1], [2, 0], [1, 2] if tier == 'quick' else [0, 1, 2])
            for d in ([0, 1], [0, 2], [2, 1], [0, 1, 2]) for u in ('Hz', 'MHz', 'GHz')
            if tier == 'thorough' or u == 'Hz' or s == [0, 1]]


@harness('C15', cases=cases,
         bounds='atoms of up to 3 levels, all A, B, C (also zero) of both atoms, all energies and fields; levels of the file '
                'absent from the second atom and the reverse; given or default file name; the second atom with or without '
                'generated sublevels; coefficients given in Hz, MHz or GHz',
         outside='names that csv cannot hold')
def round_trip(ctx, src, dst, units):
    a, la = make(ctx, src, 'first ', units)
    b, lb = make(ctx, dst, 'second ')
    if ctx.flag('sublevels generated'):
        for lv, e, co in lb.values():
            lv.sublevels()
    with scratch():
        name = None if ctx.flag('default name') else 'coefficients.csv'
        IO.generate_hf_csv(a, name)
        name = name or 'x_Hyperfine.csv'
        ctx.check(os.path.exists(name), 'the file is written under its name')
        IO.apply_hf_csv(b, name)
        unchanged(ctx, a, la, 'first atom: ')
        unchanged(ctx, b, lb, 'second atom: ', False)
        for i, (lv, e, co) in lb.items():
            coefficients(ctx, lv, la[i][2] if i in la else co, 'listed: ' if i in la else 'not listed: ')
        # and back
        IO.generate_hf_csv(b, 'again.csv')
        c, lc = make(ctx, src, 'third ')
        IO.apply_hf_csv(c, 'again.csv')
        for i, (lv, e, co) in lc.items():
            coefficients(ctx, lv, la[i][2] if i in lb else co, 'after a second round: ')


class scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.TemporaryDirectory()
        os.chdir(self.dir.name)

    def __exit__(self, *a):
        os.chdir(self.old)
        self.dir.cleanup()


@harness('C15', cases=lambda tier: [dict(unit=u, blank=b) for u in ('Hz', 'MHz', 'GHz') for b in (False, True)],
         bounds='two or three levels, all coefficients, any default A in Hz, MHz or GHz, blank template or not')
def defaults(ctx, unit, blank):
    n = [0, 1, 2] if ctx.flag('three levels') else [0, 2]
    a, la = make(ctx, n, 'first ')
    b, lb = make(ctx, n, 'second ')
    d = ctx.real('default A')
    scale = {'Hz': 1, 'MHz': 10 ** 6, 'GHz': 10 ** 9}[unit]
    with scratch():
        kw = dict(def_A=Q_(d / scale, unit))
        if blank:
            kw = dict(kw if ctx.flag('with a default') else {}, blank=True)
        IO.generate_hf_csv(a, 'f.csv', **kw)
        IO.apply_hf_csv(b, 'f.csv')
    unchanged(ctx, a, la, 'first atom: ')
    unchanged(ctx, b, lb, 'second atom: ', False)
    for i, (lv, e, co) in lb.items():
        A_, B_, C_ = la[i][2]
        if blank:
            coefficients(ctx, lv, (0, 0, 0), 'blank template: ')
        else:
            coefficients(ctx, lv, (d if ctx.holds(A_ == 0) else A_, B_, C_), 'with a default A: ')
