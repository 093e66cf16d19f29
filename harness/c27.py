"""C27  spectra: which curves are drawn where, and how high"""
import matplotlib.pyplot as plt


class Axes:
    """stands for matplotlib's plotting functions, which cannot hold symbolic numbers"""
    def __init__(self):
        self.clear()

    def clear(self):
        self.curves, self.xlabel_ = [], None

    def plot(self, x, y, *a, **k):
        self.curves.append((list(x), list(y), a, k))

    def xlabel(self, t, *a, **k):
        self.xlabel_ = t

    set_xlabel = xlabel

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


AX = Axes()
plt.plot = AX.plot
plt.xlabel = AX.xlabel
plt.ylim = plt.legend = lambda *a, **k: None
plt.gca = lambda: AX

from symx.registry import harness      # noqa: E402
from .common import A, Q_, hz, level     # noqa: E402
from .c24 import Line      # noqa: E402
from atomtoolkit.render import spectra as S    # noqa: E402

UNITS = {'Hz': 1, 'MHz': 10 ** 6, 'GHz': 10 ** 9, 'THz': 10 ** 12}


def drawn(ctx, fn, *a, **k):
    """the individual curves by label, and the total"""
    AX.clear()
    fn(*a, **k)
    out, total = [], []
    for c in AX.curves:
        (total if c[3].get('label') == 'Total' else out).append(c)
    return out, total


def curve(ctx, c, f, shape, height, n, what=''):
    """a curve is the line shape, centred at f"""
    xs, ys = c[0], c[1]
    ctx.check(len(xs) == n and len(ys) == n, f'{what}as many points as asked for')
    ctx.eq(xs[n // 2], f, f'{what}the curve is centred at the frequency')
    ctx.eq(ys[n // 2], height, f'{what}the height is the relative strength times the amplitude')
    for i in range(n):
        ctx.eq(xs[i] + xs[n - 1 - i], 2 * f, f'{what}symmetric about the frequency')
        if shape is not None:
            ctx.eq(ys[i], shape.formula(xs[i] - f, height), f'{what}value at a sample point')


def _lines(tier):
    out = []
    for shape in ('Lorentzian shape', 'Gaussian shape'):
        for unit in (None, 'Hz', 'MHz', 'THz'):
            for k in (1, 2, 3):
                for amp in (False, True):
                    out.append(dict(shape=shape, unit=unit, k=k, amp=amp, single=False, moved=k == 2 and not amp))
        out.append(dict(shape=shape, unit=None, k=1, amp=True, single=True, moved=False))
    return out


@harness('C27', cases=_lines,
         bounds='1 to 3 lines with every frequency up to 1000 THz, relative strength, amplitude and width above 100 kHz, 3 points per curve; Lorentzian and Gaussian lines; with and without a frequency assigned before the level moved')
def lines(ctx, shape, unit, k, amp, single, moved):
    sh = Line(ctx, shape)
    ctx.assume(sh.w * UNITS[unit or 'GHz'] >= 10 ** 5)
    atom = A.Atom('x', I=0)
    l0 = level('a', '2S', 0.5, 0.0)
    ts, fs, rs, us = [], [], [], []
    for i in range(k):
        e = ctx.real(f'E{i}', 1, 10 ** 6) * 10 ** 9
        t = A.Transition(l0, level('bcd'[i], '2P*', 1.5, e)) if i % 2 else A.Transition(level('bcd'[i], '2P*', 1.5, e), l0)
        atom.add_transition(t)
        if moved:
            t.set_frequency(Q_(ctx.real(f'before{i}', 1, 10 ** 6), 'GHz'))
            for u, v in [(l0, 0.0)] + [(w, f * UNITS[unit or 'GHz']) for w, f in zip(us, fs)] + [(t.E_1 if t.E_2 is l0 else t.E_2, e)]:
                u.level = hz(v)
        us.append(t.E_1 if t.E_2 is l0 else t.E_2)
        t.rel_strength = ctx.real(f'strength{i}')
        ts.append(t)
        fs.append(e / UNITS[unit or 'GHz'])
        rs.append(t.rel_strength)
    kw = dict(num_points=3, total=False)
    if unit:
        kw['unit'] = unit
    if amp:
        ampl = {}
        for i, t in enumerate(ts):
            ampl[t.name] = ctx.real(f'amplitude{i}')
            rs[i] = rs[i] * ampl[t.name]
        kw['ampl_dict'] = ampl
    curves, total = drawn(ctx, S.plot_transitions, ts[0] if single else ts, sh.obj, label_func=lambda t: [i for i, u in enumerate(ts) if u is t][0], **kw)
    ctx.check(total == [], 'no total unless wanted')
    ctx.check(sorted(c[3]['label'] for c in curves) == list(range(k)), 'one curve for each transition')
    for c in curves:
        i = c[3]['label']
        curve(ctx, c, fs[i], sh, rs[i], 3)
    ctx.check((unit or 'GHz') in AX.xlabel_, 'the axis names the unit')


def interp(x, xs, ys):
    for i in range(len(xs) - 1):
        if xs[i] <= x and x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return None


@harness('C27', cases=lambda tier: [dict(k=k, points=n, widths=w) for k, n in [(1, 3), (2, 3), (2, 2), (3, 2)] + ([(2, 4), (2, 5), (3, 3)] if tier != 'quick' else [])
                                    for w in (0.5, 30.0)],
         bounds='total of 1 to 3 curves of 2 or 3 points (5 points in the thorough tier), every frequency, strength and amplitude; two widths',
         outside='values of the total outside the sampled window of some curve')
def total(ctx, k, points, widths):
    atom = A.Atom('x', I=0)
    l0 = level('a', '2S', 0.5, 0.0)
    ts = []
    from atomtoolkit.render import lineshapes as LS
    for i in range(k):
        f = ctx.real(f'f{i}', 1, 10 ** 6)
        t = A.Transition(l0, level('bcd'[i], '2P*', 1.5, f * 10 ** 9))
        atom.add_transition(t)
        t.rel_strength = ctx.real(f'strength{i}')
        ts.append(t)
    kw = {} if ctx.flag('by default') else dict(total=True)
    curves, tot = drawn(ctx, S.plot_transitions, ts, LS.LorentzianLineShape(widths), num_points=points, **kw)
    ctx.check(len(curves) == k and len(tot) == 1, 'the curves and one total')
    xs, ys = tot[0][0], tot[0][1]
    ctx.check(len(xs) == k * points and len(ys) == len(xs), 'a value of the total for every sample point')
    for i in range(1, len(xs)):
        ctx.check(xs[i - 1] <= xs[i], 'the total is drawn from left to right')
    for x in [x for c in curves for x in c[0]]:
        ctx.check(any(ctx.holds(x == y) for y in xs), 'every sample point occurs in the total')
    for x, y in zip(xs, ys):
        parts = [interp(x, c[0], c[1]) for c in curves]
        if all(p is not None for p in parts):
            want = 0
            for p in parts:
                want = want + p
            ctx.eq(y, want, 'the total is the sum of the curves')


class World:
    def __init__(self, ctx, I, J1, J2, kind, two=False):
        self.ctx = ctx
        self.field = ctx.real('field', -10, 10)
        self.atom = atom = A.Atom('x', I=I, B=Q_(self.field, 'G'))
        e = ctx.real('E', 0, 1000) * 10 ** 12
        gap = ctx.real('gap', 10, 1000) * 10 ** 12
        par = '2P*' if kind == 'E1' else '2D'
        ls = [level('a', '2S', J1, e, 2.0, ctx.real('A1', -10 ** 9, 10 ** 9)),
              level('b', par, J2, e + gap, 0.8, ctx.real('A2', -10 ** 9, 10 ** 9))]
        if two:
            ls.append(level('c', par, J2, e + gap + 2 * 10 ** 13, 0.8))
        for x in (ls[::-1] if ctx.flag('upper level added first') else ls):
            atom.add_level(x)
        self.ts = []
        for x in ls[1:]:
            t = A.Transition(ls[0], x, A=Q_(1.0, 'MHz'))
            atom.add_transition(t)
            self.ts.append(t)


def _comp(tier):
    out = []
    sets = [(0.5, 0.5, 1.5, 'E1'), (0.5, 0.5, 1.5, 'E2'), (0, 0.5, 0.5, 'E1'), (1, 1, 0, 'E1')] + ([(1.5, 1.5, 0.5, 'E1'), (0.5, 1.5, 2.5, 'E2'), (2.5, 2, 3, 'E1')] if tier != 'quick' else [])
    for I, J1, J2, kind in sets:
        for how in ('one', 'list', 'two'):
            for col in ('l', 'u', 'function', 'default'):
                out.append(dict(I=I, J1=J1, J2=J2, kind=kind, how=how, coloring=col, fn='hf'))
        for how in ('one', 'list'):
            for col in ('l', 'u', 'default'):
                out.append(dict(I=I, J1=J1, J2=J2, kind=kind, how=how, coloring=col, fn='spectrum'))
        for how in ('fine', 'one', 'list', 'components', 'hf list'):
            for col in ('l', 'u', 'transition_type', 'function', 'default', 'none'):
                if (col == 'default' or how in ('one', 'list')) and not (J2 > 2 and how == 'fine'):
                    out.append(dict(I=I, J1=J1, J2=J2, kind=kind, how=how, coloring=col, fn='zeeman'))
    # weak components
    out += [dict(I=2.5, J1=1.5, J2=1.5, kind='E1', how=how, coloring='none', fn=fn) for how, fn in (('fine', 'zeeman'), ('hf list', 'zeeman'))]
    out += [dict(I=2.5, J1=1.5, J2=1.5, kind='E1', how='one', coloring='default', fn='hf')]
    return out


@harness('C27', cases=_comp,
         bounds='all components of dipole and quadrupole transitions for four sets of I, J, J\' (seven in the thorough tier), every energy, gap above 10 THz, A coefficient up to '
                '1 GHz and field up to 10 G; every colouring; a single transition, a list of one, and two transitions',
         outside='which colours are chosen')
def components(ctx, I, J1, J2, kind, how, coloring, fn):
    from atomtoolkit.render import lineshapes as LS
    w = World(ctx, I, J1, J2, kind, two=how == 'two')
    hf = [x for t in w.ts for x in t.values()]
    kw = dict(num_points=3)
    if coloring != 'default':
        kw['coloring'] = {'function': lambda t: (0, 0, 1), 'none': None}.get(coloring, coloring)
    if fn in ('hf', 'spectrum'):
        want = hf
        f = S.plot_hyperfine_spectrum if fn == 'hf' else S.plot_spectrum
        if fn == 'spectrum':
            arg = w.ts[0] if how == 'one' else hf
        else:
            arg = w.ts[0] if how == 'one' else w.ts
        if hf and ctx.flag('amplitudes'):
            kw['ampl_dict'] = {t.name: 1 + i for i, t in enumerate(want)}
    else:
        f = S.plot_zeeman_spectrum
        if how == 'fine':
            arg, want = w.ts[0], [z for t in hf for z in t.values()]
        elif how == 'one':
            arg = ctx.pick('component', hf)
            want = list(arg.values())
        elif how == 'hf list' or how == 'list':
            arg = hf[:2] if how == 'list' else hf
            want = [z for t in arg for z in t.values()]
        else:                       # the components of a hyperfine transition through the other function
            f = S.plot_hyperfine_spectrum
            kw['coloring'] = 'l'
            arg = hf[:1]
            want = list(hf[0].values())
    seen = []

    def label(t):
        i = [i for i, u in enumerate(want) if u is t]
        return i[0] if i else None
    own = fn == 'zeeman' and how == 'one' and coloring == 'default'
    if not own:
        kw['label_func'] = label
    curves, tot = drawn(ctx, f, arg, lineshape=LS.LorentzianLineShape(0.25), total=False, **kw)
    ctx.check(len(curves) == len(want), 'as many curves as components')
    for i, c in enumerate(curves):
        if own:
            # by default a Zeeman component is labelled with the quantum numbers of both levels
            j = [j for j, t in enumerate(want) if c[3]['label'] == text(t)]
            ctx.check(len(j) == 1, 'the label tells the component')
            j = j[0]
        else:
            j = c[3]['label']
            ctx.check(j is not None, 'only components are drawn')
        seen.append(j)
        t = want[j]
        # energies of the two sublevels, in GHz
        d = (t.E_upper.level_Hz - t.E_lower.level_Hz) / 10 ** 9
        if (t.E_lower.manifold is w.ts[0].E_upper.manifold) or any(t.E_lower.manifold is u.E_upper.manifold for u in w.ts):
            d = -d
        curve(ctx, c, d, None, t.rel_strength * (kw['ampl_dict'][t.name] if 'ampl_dict' in kw else 1), 3)
    ctx.check(sorted(seen) == list(range(len(want))), 'every component is drawn once')


def fr(x):
    n = int(round(2 * x))
    return str(n // 2) if n % 2 == 0 else f'{n}/2'


def text(t):
    a, b = t.E_lower.term, t.E_upper.term
    return f'F={fr(a.F)}, mF={fr(a.mF)} → F={fr(b.F)}, mF={fr(b.mF)}'


@harness('C27', cases=lambda tier: [dict(unit=u, many=m) for u in ('Hz', 'MHz', 'GHz') for m in (False, True)],
         bounds='spectra without Doppler broadening: every laser linewidth from 1 MHz to 1 THz in three units, every frequency up to 1000 THz and amplitude; one or two transitions')
def cold(ctx, unit, many):
    atom = A.Atom('x', I=0)
    l0 = level('a', '2S', 0.5, 0.0)
    g = ctx.real('linewidth', 10 ** 6 // UNITS[unit] if unit != 'GHz' else 0.001, 10 ** 12 // UNITS[unit])
    ts, hs = [], []
    for i in range(2 if many else 1):
        f = ctx.real(f'f{i}', 1, 10 ** 6)
        t = A.Transition(l0, level('bc'[i], '2P*', 1.5, f * 10 ** 9))
        atom.add_transition(t)
        ts.append((t, f))
        hs.append(ctx.real(f'amplitude{i}'))
    amp = {t.name: h for (t, _), h in zip(ts, hs)}
    curves, tot = drawn(ctx, S.plot_spectrum, [t for t, _ in ts], temp=Q_(0, 'K'), laser_linewidth=Q_(g, unit), ampl_dict=amp, num_points=5, total=False,
                        label_func=lambda t: t.name)
    ctx.check(len(curves) == len(ts), 'as many curves as transitions')
    sh = Line.__new__(Line)
    sh.ctx, sh.name, sh.w = ctx, 'Lorentzian', g * UNITS[unit] / 10 ** 9
    for (t, f), h in zip(ts, hs):
        mine = [c for c in curves if c[3]['label'] == t.name]
        ctx.check(len(mine) == 1, 'one curve for each transition')
        curve(ctx, mine[0], f, sh, h, 5)


@harness('C27', bounds='Doppler-broadened spectra at every temperature from 1 mK to 10000 K, mass from 1 to 300 u, laser linewidth (also none), amplitude and frequency; three points')
def warm(ctx):
    atom = A.Atom('x', I=0)
    T, m = ctx.real('temperature', 0.001, 10000), ctx.real('mass', 1, 300)
    f, h = ctx.real('f', 10 ** 5, 10 ** 6), ctx.real('amplitude')
    t = A.Transition(level('b', '2P*', 1.5, f * 10 ** 9), level('a', '2S', 0.5, 0.0))
    atom.add_transition(t)
    kw = dict(laser_linewidth=Q_(ctx.real('linewidth', 0, 10 ** 6), 'MHz')) if ctx.flag('laser') else {}
    curves, tot = drawn(ctx, S.plot_spectrum, [t], temp=Q_(T, 'K'), mass=Q_(m, 'amu'), ampl_dict={t.name: h}, num_points=3, total=False, **kw)
    ctx.check(len(curves) == 1, 'one curve')
    curve(ctx, curves[0], f, None, h, 3)
    # most of the line is inside the window
    xs = curves[0][0]
    from atomtoolkit.render import lineshapes as LS
    s = LS.ThermalLineShape(Q_(T, 'K'), Q_(m, 'amu'), 0.0).sigma
    ctx.check(xs[2] - f >= 3 * s * f, 'the curve covers three standard deviations of the Doppler profile')
