"""C24  line shapes"""
import numpy as np

from symx.registry import harness
from atomtoolkit.render import lineshapes as LS

NAMES = ('lorentzian', 'gaussian', 'modulated', 'Lorentzian shape', 'Gaussian shape', 'modulated shape')


def bessel2(ctx, n, depth):
    """squared Bessel function of the first kind"""
    if ctx.symbolic:
        from symx import engine, bessel
        v = engine.uf('jv', n, depth)
        return v * v
    from scipy.special import jv
    return float(jv(n, depth)) ** 2


def exp(ctx, x):
    if ctx.symbolic:
        from symx import engine
        return engine.uf('exp', x)
    return float(np.exp(x))


class Line:
    """a line shape as a function of position, centre and amplitude, next to its formula"""
    def __init__(self, ctx, name, bands=0, fixed=None):
        self.ctx, self.name, self.bands = ctx, name, bands
        if fixed == 'width':
            self.w = w = ctx.pick('width', [2.0, 0.05])
        else:
            self.w = w = ctx.real('width')
            ctx.assume(w > 0)
        self.depth, self.spacing = 0.0, 1.0
        if 'modulated' in name:
            self.depth = ctx.real('depth', 0, 10)
            self.spacing = ctx.pick('spacing', [1.0, 7.5]) if fixed == 'spacing' else ctx.real('spacing', 0, 10 ** 4)
        if name == 'Lorentzian shape':
            self.obj = LS.LorentzianLineShape(w)
        elif name == 'Gaussian shape':
            self.obj = LS.GaussianLineShape(w)
        elif name == 'modulated shape':
            self.obj = LS.ModLorentzianLineShape(w, self.depth, self.spacing, num_sidebands=bands)
        else:
            self.obj = None

    def __call__(self, x, x0, a=None):
        k = {} if a is None else dict(ampl=a)
        if self.obj is not None:
            return self.obj.shape_func(x, x0, **k)
        if self.name == 'lorentzian':
            return LS.lorentzian(x, x0, self.w, **k)
        if self.name == 'gaussian':
            return LS.gaussian(x, x0, self.w, **k)
        return LS.mod_lorentzian(x, x0, self.w, depth=self.depth, num_sidebands=self.bands, mod_freq_GHz=self.spacing, **k)

    def lorentz(self, d, a):
        w = self.w
        return a * (w * w / 4) / (d * d + w * w / 4)

    def formula(self, d, a):
        """value at a distance d from the centre"""
        if 'modulated' in self.name:
            tot = self.lorentz(d, a * bessel2(self.ctx, 0, self.depth))
            for i in range(1, self.bands + 1):
                b = a * bessel2(self.ctx, i, self.depth)
                tot = tot + self.lorentz(d - i * self.spacing, b) + self.lorentz(d + i * self.spacing, b)
            return tot
        if 'auss' in self.name:
            return a * exp(self.ctx, -(d * d) / (2 * self.w * self.w))
        return self.lorentz(d, a)


def vec(ctx, xs):
    return np.array(xs, dtype=object if ctx.symbolic else float)


def _named(tier):
    return [dict(name=n, bands=b, fixed=f) for n in NAMES for b in (range(4 if tier == 'quick' else 6) if 'mod' in n else (0,))
            for f in ((None,) if b < 3 else ('width', 'spacing'))]


@harness('C24', cases=_named,
         bounds='every centre, position, positive width, amplitude, modulation depth up to 10 and spacing; 0 to 3 sidebands (5 in the '
                'thorough tier), from 3 sidebands on with either the width or the spacing '
                'fixed at two values; at single positions and '
                'at arrays of positions',
         )
def shapes(ctx, name, bands, fixed):
    f = Line(ctx, name, bands, fixed)
    x0, d, a = ctx.real('centre'), ctx.real('distance'), ctx.real('amplitude')
    if ctx.flag('array'):
        e = ctx.real('other distance')
        got = f(vec(ctx, [x0 + d, x0 - d, x0, x0 + e]), x0, a)
        ctx.check(len(got) == 4, 'as many values as positions')
        for g, x in zip(got, (d, -d, 0, e)):
            ctx.eq(g, f.formula(x, a), 'value at a position of an array')
        return
    y = f(x0 + d, x0, a)
    ctx.eq(y, f.formula(d, a), 'value at a position')
    ctx.eq(f(x0 - d, x0, a), y, 'symmetric about the centre')
    s = ctx.real('factor')
    ctx.eq(f(x0 + d, x0, s * a), s * y, 'proportional to the amplitude')
    one = f(x0 + d, x0)
    ctx.eq(one * a, y, 'unit amplitude by default')
    if bands < 2:       # otherwise a consequence of the formula
        ctx.check(one >= 0, 'not negative')
    if 'mod' not in name:
        ctx.eq(f(x0, x0, a), a, 'the amplitude is reached at the centre')
        ctx.check(one <= 1, 'the centre is the maximum')
    if 'orentzian' in name and 'mod' not in name:
        ctx.eq(f(x0 + f.w / 2, x0, a), a / 2, 'half the amplitude at half the width')
        ctx.eq(f(x0 - f.w / 2, x0, a), a / 2, 'half the amplitude at half the width')


@harness('C24', cases=lambda tier: [dict(name=n, bands=b, points=p) for n in NAMES[3:] for b in ((0, 2) if 'mod' in n else (0,))
                                    for p in ((2, 3, 4, 7) if tier == 'quick' else (2, 3, 4, 5, 6, 7, 8, 15, 16))],
         bounds='every centre, width, amplitude, padding; 2 to 7 sample points (16 in the thorough tier)',
         outside='other numbers of points')
def sampling(ctx, name, bands, points):
    f = Line(ctx, name, bands)
    x0, a = ctx.real('centre'), ctx.real('amplitude')
    kw = {}
    if ctx.flag('padding given'):
        kw['padding'] = ctx.real('padding')
        ctx.assume(kw['padding'] > 0)
    w = f.obj.width_func(**kw)
    xs, ys = f.obj.compute(x0, num_points=points, ampl=a, **kw)
    ctx.check(len(xs) == points and len(ys) == points, 'as many points as requested')
    ctx.check(w > 0, 'the window is not empty')
    ctx.eq(xs[0], x0 - w, 'the first point of the window')
    ctx.eq(xs[points - 1], x0 + w, 'the last point of the window')
    for i in range(points):
        ctx.eq(xs[i] + xs[points - 1 - i], 2 * x0, 'points are symmetric about the centre')
        ctx.eq(ys[i], f.formula(xs[i] - x0, a), 'value at a sample point')
        if i:
            ctx.check(xs[i] > xs[i - 1], 'points in increasing order')


@harness('C24', bounds='every natural linewidth that is added to a Lorentzian line, every width, centre, amplitude and padding; the windows of Gaussian lines')
def natural(ctx):
    g, n, x0, d, a = ctx.real('width'), ctx.real('natural'), ctx.real('centre'), ctx.real('offset'), ctx.real('amplitude')
    ctx.assume(g > 0)
    ctx.assume(n >= 0)
    p = ctx.real('padding')
    ctx.assume(p > 0)
    s = LS.LorentzianLineShape(g)
    w = g + n
    ctx.eq(s.shape_func(x0 + d, x0, ampl=a, A_coeff=n), a * w ** 2 / (4 * d ** 2 + w ** 2), 'a line with a natural linewidth')
    ctx.eq(s.width_func(padding=p, A_coeff=n), p * w, 'the window grows with the natural linewidth')
    ctx.eq(s.width_func(padding=p), p * g, 'the window extends over padding times the width')
    ctx.eq(s.width_func(), 2 * s.width_func(padding=10.0), 'the window without padding given')
    ctx.eq(LS.GaussianLineShape(g).width_func(padding=p), p * g, 'the window extends over padding times the standard deviation')
    xs, ys = s.compute(x0, num_points=3, padding=p, A_coeff=n, ampl=a)
    ctx.eq(xs[2] - xs[0], 2 * p * w, 'sampled window')
    ctx.eq(ys[1], a, 'sampled height')


@harness('C24', quick=dict(top=1), thorough=dict(top=4),
         bounds='number of sidebands chosen by the line shape, at every modulation depth up to 1 (4 in the thorough tier) and every '
                'amplitude, at a few positions')
def automatic(ctx, top):
    depth, a = ctx.real('depth', 0, top), ctx.real('amplitude')
    w, sp, x0, d = 0.5, 2.5, 100.0, ctx.pick('distance', [0.0, 0.75, 2.5, -7.25])
    s = LS.ModLorentzianLineShape(w, depth, sp)
    n = s.num_sidebands
    fact = 1
    for i in range(1, n + 1):
        fact = fact * i
    ctx.check(n >= depth / 2 and (depth / 2) ** n <= 0.01 * fact + 1e-12, 'the sidebands left out are weak')      # |J_n(d)| <= (d/2)^n / n!
    f = Line.__new__(Line)
    f.ctx, f.name, f.bands, f.w, f.depth, f.spacing = ctx, 'modulated', s.num_sidebands, w, depth, sp
    ctx.eq(s.shape_func(x0 + d, x0, ampl=a), f.formula(d, a), 'value with the chosen number of sidebands')
    ctx.check(s.width_func() >= s.num_sidebands * sp, 'the window contains the sidebands')


def profile(ctx, d, s, g):
    """the Voigt profile of unit area: standard deviation s, half width g"""
    if ctx.symbolic:
        from symx import engine
        return engine.uf('voigt', d, s, g)
    from scipy.special import voigt_profile
    return float(voigt_profile(d, s, g))


def voigt_formula(ctx, d, s, g, a):
    """amplitude a at the centre, full Lorentzian width g"""
    return a * profile(ctx, d, s, g / 2) / profile(ctx, 0, s, g / 2)


@harness('C24', bounds='Voigt lines at every position, centre, amplitude and every positive pair of widths, at single positions and arrays of positions')
def voigt(ctx):
    s, g = ctx.real('sigma', 0.01, 100), ctx.real('gamma', 0.01, 100)
    x0, a = ctx.real('centre', -1000, 1000), ctx.real('amplitude')
    d = ctx.real('distance', -100, 100)
    if ctx.flag('array'):
        e = ctx.real('other distance', -100, 100)
        got = LS.voigt(vec(ctx, [x0 + d, x0, x0 - e]), x0, s, g, a)
        for y, x in zip(got, (d, 0, -e)):
            ctx.eq(y, voigt_formula(ctx, x, s, g, a), 'value at a position of an array')
        return
    y = LS.voigt(x0 + d, x0, s, g, a)
    ctx.eq(y, voigt_formula(ctx, d, s, g, a), 'value at a position')
    ctx.eq(LS.voigt(x0 - d, x0, s, g, a), y, 'symmetric about the centre')
    ctx.eq(LS.voigt(x0, x0, s, g, a), a, 'the amplitude is reached at the centre')
    ctx.eq(LS.voigt(x0 + d, x0, s, g) * a, y, 'unit amplitude by default')
    ctx.check(LS.voigt(x0 + d, x0, s, g) >= 0, 'not negative')


BOLTZMANN, LIGHT = 1.380649e-23, 299792458.0


@harness('C24', cases=lambda tier: [dict(shape=s, points=n) for s in ('Gaussian', 'any') for n in ((0, 3) if tier == 'quick' else (0, 2, 3, 4, 5, 7))],
         bounds='Doppler-broadened lines at every temperature from 1 mK to 10000 K, mass from 1 to 300 u, centre, amplitude, laser linewidth (also none) and padding; 3 sample '
                'points (2 to 7 in the thorough tier)')
def thermal(ctx, shape, points):
    from .common import Q_
    T, m = ctx.real('temperature', 0.001, 10000), ctx.real('mass', 1, 300)
    x0, a = ctx.real('centre', 10 ** 5, 10 ** 6), ctx.real('amplitude')
    in_mk = ctx.flag('temperature in mK')
    temp = Q_(T * 1000, 'mK') if in_mk else Q_(T, 'K')
    g = 0
    if shape == 'Gaussian':
        obj = LS.ThermalGaussianLineShape(temp, Q_(m, 'amu'))
    else:
        g = ctx.real('linewidth', 0, 1000)
        obj = LS.ThermalLineShape(temp, Q_(m, 'amu'), g)
    s = obj.sigma
    ctx.check(s > 0, 'a positive standard deviation')
    ctx.eq(s * s * 10 ** 18, T / m * (BOLTZMANN / Q_(1.0, 'amu').to('kg').magnitude / LIGHT / LIGHT * 10 ** 18), 'the standard deviation of the Doppler profile relative to the frequency')
    ctx.eq(obj.fwhm, s * 2.355, 'full width at half maximum')
    w = s * x0

    def formula(d):
        if shape != 'Gaussian':
            if g > 25 * w:
                return a * g * g / (4 * d * d + g * g)
            if not w > 25 * g:
                return voigt_formula(ctx, d, w, g, a)
        return a * exp(ctx, -(d * d) / (2 * w * w))
    if not points:
        d = ctx.real('distance', -100, 100)
        y = obj.shape_func(x0 + d, x0, ampl=a)
        ctx.eq(y, formula(d), 'value at a position')
        ctx.eq(obj.shape_func(x0, x0, ampl=a), a, 'the amplitude is reached at the centre')
        ctx.eq(obj.shape_func(x0 - d, x0, ampl=a), y, 'symmetric about the centre')
        ctx.eq(obj.shape_func(x0 + d, x0) * a, y, 'unit amplitude by default')
        return
    kw = {}
    if ctx.flag('padding given'):
        kw['padding'] = ctx.real('padding', 0.1, 100)
    p = kw.get('padding', 20)
    xs, ys = obj.compute(x0, num_points=points, ampl=a, **kw)
    ctx.check(len(xs) == points and len(ys) == points, 'as many points as requested')
    half = p * (w if w >= g else g)
    ctx.eq(xs[0], x0 - half, 'the first point of the window')
    ctx.eq(xs[points - 1], x0 + half, 'the last point of the window')
    for i in range(points):
        ctx.eq(xs[i] + xs[points - 1 - i], 2 * x0, 'points are symmetric about the centre')
        ctx.eq(ys[i], formula(xs[i] - x0), 'value at a sample point')
