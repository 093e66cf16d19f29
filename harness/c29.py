"""C29  light fields"""
import numpy as np
from symx.registry import harness
from .common import Q_
from atomtoolkit import environment as ENV
from atomtoolkit import ureg

EPS0 = (1 * ureg.vacuum_permittivity).to('F/m').magnitude
C = 299792458
KINDS = {'real': (1, 1, 1, 0, 0, 0), 'in the plane': (1, 1, 0, 1, 1, 0), 'circular': None, 'complex': (1, 1, 1, 1, 1, 1),
         'along an axis': None, 'default': None}


def array(ctx, xs, kind=complex):
    return np.array(xs, dtype=object if ctx.symbolic else kind)


def polarisation(ctx, kind):
    """components (re, im) of a unit vector"""
    if kind == 'default':
        return [(0, 0), (0, 0), (1, 0)]
    if kind == 'along an axis':
        n = ctx.pick('axis', [0, 1, 2])
        s, part = ctx.pick('sign', [1, -1]), ctx.pick('phase', [0, 1])
        return [((s, 0) if part == 0 else (0, s)) if i == n else (0, 0) for i in range(3)]
    if kind == 'circular':
        a, b = ctx.real('re', -1, 1), ctx.real('im', -1, 1)
        s = ctx.pick('handedness', [1, -1])
        n2 = 2 * (a * a + b * b)
        ctx.assume(n2 > 0.01)
        n = n2 ** 0.5
        return [(a / n, b / n), (-s * b / n, s * a / n), (0, 0)]
    xs = [ctx.real(n, -1, 1) if on else 0 for n, on in zip(('ax', 'ay', 'az', 'bx', 'by', 'bz'), KINDS[kind])]
    n2 = sum(x * x for x in xs)
    ctx.assume(n2 > 0.01)
    n = n2 ** 0.5
    return [(xs[i] / n, xs[3 + i] / n) for i in range(3)]


def parts(z):
    """real and imaginary part"""
    return (z.real, z.imag)


def conj_dot(a, b):
    return sum(x[0] * y[0] + x[1] * y[1] for x, y in zip(a, b)), sum(x[0] * y[1] - x[1] * y[0] for x, y in zip(a, b))


@harness('C29', cases=lambda tier: [dict(kind=k, unit=u) for k in KINDS for u in ('W/m**2', 'mW/cm**2')],
         bounds='every intensity up to 10^6 of the unit, every complex unit polarisation (real, complex in a plane, circular, '
                'general, along an axis, the default), every real vector k (of any length), intensities in W/m^2 and mW/cm^2')
def fields(ctx, kind, unit):
    I = ctx.real('I', 0, 10 ** 6)
    ctx.assume(I > 0.001)
    si = I * (10 if unit == 'mW/cm**2' else 1)
    k = [ctx.real(n, -1, 1) for n in ('kx', 'ky', 'kz')]
    pol = polarisation(ctx, kind)
    args = [] if kind == 'default' else [array(ctx, [a + b * 1j for a, b in pol])]
    f = ENV.LightField(array(ctx, k, float), Q_(I, unit), *args)
    E = [parts(z) for z in f.E().to('V/m').magnitude]
    B = [parts(z) for z in f.B().to('tesla').magnitude]
    ctx.eq(C * EPS0 * sum(a * a + b * b for a, b in E), 2 * si, 'the field carries the intensity')
    for i in range(3):
        j, l = (i + 1) % 3, (i + 2) % 3
        for part, what in ((0, 'real'), (1, 'imaginary')):
            ctx.eq(C * B[i][part], k[j] * E[l][part] - k[l] * E[j][part], f'magnetic field, {what} part')
    re, im = conj_dot(pol, E)
    ctx.eq(im, 0, 'the field is in phase with the polarisation')
    ctx.check(re > 0, 'the field points along the polarisation')
    ctx.eq(C * EPS0 * re * re, 2 * si, 'the field lies along the polarisation')


@harness('C29', cases=lambda tier: [dict(kind=k) for k in ('real', 'in the plane', 'complex')],
         bounds='every complex polarisation vector with components up to 100 whose norm is not within 1.0001e-6 of one '
                '(rejected) or within 0.9999e-6 of it (accepted)')
def norms(ctx, kind):
    xs = [ctx.real(n, -100, 100) if on else 0 for n, on in zip(('ax', 'ay', 'az', 'bx', 'by', 'bz'), KINDS[kind])]
    n2 = sum(x * x for x in xs)
    pol = array(ctx, [xs[i] + xs[3 + i] * 1j for i in range(3)])
    k = array(ctx, [1.0, 0.0, 0.0], float)
    case = ctx.pick('norm', ['short', 'long', 'one'])
    make = lambda: ENV.LightField(k, Q_(1.0, 'W/m**2'), pol)
    if case == 'one':
        ctx.assume(n2 >= (1 - 0.9e-6) ** 2)
        ctx.assume(n2 <= (1 + 0.9e-6) ** 2)
        ctx.check(make() is not None, 'a unit polarisation is accepted')
    else:
        ctx.assume(n2 <= (1 - 1.1e-6) ** 2 if case == 'short' else n2 >= (1 + 1.1e-6) ** 2)
        ctx.raises(AssertionError, make, f'a polarisation that is too {case}')
