"""C23  matrix elements and strengths of tensor components"""
import numpy as np

from symx.registry import harness
from .common import steps
from atomtoolkit import transition_strengths as TS

KINDS = ('E1', 'M1', 'E2')


def vec(ctx, xs):
    return np.array(xs, dtype=object if ctx.symbolic else float)


def real_vector(ctx, name):
    v = [ctx.real(f'{name}{c}', -1000, 1000) for c in 'xyz']
    ctx.assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] > 0)
    return v


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def direction(ctx, kind):
    """the polarisation and, for E2, a wave vector orthogonal to it: every such pair is (k x r, k)"""
    if kind != 'E2':
        return (vec(ctx, real_vector(ctx, 'eps')),)
    k = real_vector(ctx, 'k')
    e = cross(k, [ctx.real(f'r{c}', -1000, 1000) for c in 'xyz'])
    ctx.assume(e[0] * e[0] + e[1] * e[1] + e[2] * e[2] > 0)
    return vec(ctx, e), vec(ctx, k)


def modulus2(z):
    return z.real * z.real + z.imag * z.imag


def _kjn(tier):
    top = 3 if tier == 'quick' else 9
    return [dict(k=k, dJ=d, I2=i, n=n) for i in range(top, -1, -1) for n in range(i + 1) for k in (1, 2) for d in range(-k, k + 1)]


def state(ctx, k, dJ, I2, n, top):
    I = I2 / 2
    J = ctx.half('J0', 0, top)
    if top < 5:
        J = ctx.fork(J)
    F = J - I + n
    ctx.assume(F <= I + J)
    ctx.assume(F >= I - J)
    ctx.assume(J + dJ >= 0)
    ctx.assume(2 * J + dJ >= k)
    if top >= 5 and ctx.holds(J >= I + k):
        s = ctx.int('F0-M0', 0, 2 * top + I2)
        ctx.assume(s <= 2 * F)
        if not ctx.holds(s >= 2 * k):           # next to the ends of the range
            s = ctx.fork(s)
        elif not ctx.holds(2 * F - s >= 2 * k):
            s = 2 * F - ctx.fork(2 * F - s)
    else:
        J = ctx.fork(J)
        F = J - I + n
        s = ctx.pick('F0-M0', list(range(int(2 * F) + 1)))
    return I, J, F, F - s


@harness('C23', cases=_kjn, quick=dict(top=40), thorough=dict(top=60),
         bounds='ranks 1 and 2, I <= 3/2 (quick; 9/2 thorough), every J0 up to 40 (60 thorough), J1, F0 and M0, the latter two symbolic '
                "along with J0; the sum over F1, M1 and q written out; every component's matrix element and strength",
         outside='angular momenta above the bounds')
def sum_rule(ctx, k, dJ, I2, n, top):
    I, J, F, M = state(ctx, k, dJ, I2, n, top)
    J2 = J + dJ
    tot = 0
    for dF in range(-k, k + 1):
        G = F + dF
        if G < 0 or G > I + J2 or G < I - J2 or G < J2 - I:
            continue
        for q in range(-k, k + 1):
            N = M + q
            if N > G or N < -G:
                continue
            x = TS.tkq_transition_strength(I, k, q, J, F, M, J2, G, N)
            ctx.check(x >= 0, 'a strength is not negative')
            tot = tot + x
    ctx.eq(tot * (2 * J + 1), 1, 'strengths out of one state')


def _pairs(tier):
    top = 1 if tier == 'quick' else 5
    return [dict(k=k, dJ=d, I2=i, dF=f, q=q) for i in range(top, -1, -1) for k in (1, 2) for d in range(-k, k + 1)
            for f in range(-k, k + 1) for q in range(-k, k + 1) if abs(f - d) <= i]


@harness('C23', cases=_pairs, quick=dict(top=(20, 2)), thorough=dict(top=(60, 15)),
         bounds='ranks 1 and 2, I <= 1/2 (quick; 5/2 thorough), every J0 up to 20 (60 thorough) for rank 1 and up to 2 (15 thorough) for rank 2, J1, F0, F1, M0 and component; every real '
                'polarisation and wave vector (orthogonal to it), not normalised',
         outside='angular momenta above the bounds; complex polarisations; wave vectors not orthogonal to the polarisation')
def moduli(ctx, k, dJ, I2, dF, q, top):
    n = ctx.pick('F0-J0+I', list(range(I2 + 1)))
    I, J, F, M = state(ctx, k, dJ, I2, n, top[k - 1])
    J2, G, N = J + dJ, F + dF, M + q
    ctx.assume(G >= 0)
    ctx.assume(G <= I + J2)
    ctx.assume(G >= I - J2)
    ctx.assume(G >= J2 - I)
    ctx.assume(N <= G)
    ctx.assume(N >= -G)
    x = TS.tkq_transition_strength(I, k, q, J, F, M, J2, G, N)
    m = TS.tkq_mel(I, k, q, J, F, M, J2, G, N)
    ctx.eq(modulus2(m), x, 'the strength of a tensor component is its squared matrix element')
    kind = ctx.pick('kind', ['E2'] if k == 2 else ['E1', 'M1'])
    d = direction(ctx, kind)
    m = getattr(TS, f'{kind}_mel_geom')(*d, I, J, F, M, J2, G, N)
    x = getattr(TS, f'{kind}_transition_strength_geom')(*d, I, J, F, M, J2, G, N)
    ctx.eq(modulus2(m), x, f'{kind}: the strength for a given direction is the squared matrix element')


def _orient(tier):
    top = 3 if tier == 'quick' else 7
    out = []
    for kind in KINDS:
        k = 2 if kind == 'E2' else 1
        for i in range(3 if tier == 'quick' else 4):
            for a in range(top + 1):
                for b in range(a, top + 1):
                    if (a - b) % 2 == 0 and b - a <= 2 * k <= a + b:
                        for fa in range(abs(a - i), a + i + 1, 2):
                            for fb in range(abs(b - i), b + i + 1, 2):
                                if abs(fa - fb) <= 2 * k <= fa + fb:
                                    out.append(dict(kind=kind, I2=i, J2=(a, b), F2=(fa, fb)))
    return out


@harness('C23', cases=_orient,
         bounds="I <= 1 (quick; 3/2 thorough), J <= 3/2 (7/2 thorough) and every F of both levels, either level first; every real "
                'polarisation and wave vector (orthogonal to it), not normalised',
         outside='angular momenta above the bounds; complex polarisations; wave vectors not orthogonal to the polarisation')
def orientation(ctx, kind, I2, J2, F2):
    o = ctx.pick('order', [0, 1])
    (J, K), (F, G) = (J2[o] / 2, J2[1 - o] / 2), (F2[o] / 2, F2[1 - o] / 2)
    f = getattr(TS, f'{kind}_transition_strength_geom')
    d = direction(ctx, kind)
    z = (vec(ctx, [0.0, 0.0, 1.0]), vec(ctx, [1.0, 0.0, 0.0]))[:len(d)]
    tot = ref = 0
    for M in steps(-F, F):
        for N in steps(-G, G):
            tot = tot + f(*d, I2 / 2, J, F, M, K, G, N)
            ref = ref + f(*z, I2 / 2, J, F, M, K, G, N)
    ctx.eq(tot, ref, f'{kind}: strength summed over all Zeeman states in any direction')


def _dipole(tier):
    return [dict(c, kind=kind) for c in _pairs(tier) if c['k'] == 1 for kind in ('E1', 'M1')]


@harness('C23', cases=_dipole, quick=dict(top=20), thorough=dict(top=60),
         bounds='averages: dipole components, I <= 1/2 (quick; 5/2 thorough), every J0 up to 20 (60 thorough), J1, F0, F1, M0 and component; every real orthogonal frame of three polarisations',
         outside='averages of quadrupole strengths')
def average(ctx, k, dJ, I2, dF, q, top, kind):
    n = ctx.pick('F0-J0+I', list(range(I2 + 1)))
    I, J, F, M = state(ctx, k, dJ, I2, n, top)
    J2, G, N = J + dJ, F + dF, M + q
    for c in (G >= 0, G <= I + J2, G >= I - J2, G >= J2 - I, N <= G, N >= -G):
        ctx.assume(c)
    a = real_vector(ctx, 'eps')
    b = cross(a, [ctx.real(f'r{c}', -1000, 1000) for c in 'xyz'])
    ctx.assume(b[0] * b[0] + b[1] * b[1] + b[2] * b[2] > 0)
    f = getattr(TS, f'{kind}_transition_strength_geom')
    x = getattr(TS, f'{kind}_transition_strength_avg')(I, J, F, M, J2, G, N)
    tot = sum(f(vec(ctx, e), I, J, F, M, J2, G, N) for e in (a, b, cross(a, b)))
    ctx.eq(3 * x, tot, f'{kind}: the average is the mean over three perpendicular polarisations')


def _circular(tier):
    return [dict(c, kind=kind) for c in _pairs(tier) if abs(c['q']) < 2 for kind in ('E1', 'M1', 'E2') if (kind == 'E2') == (c['k'] == 2)]


@harness('C23', cases=_circular, quick=dict(top=(20, 2)), thorough=dict(top=(60, 15)),
         bounds='light along the quantisation axis, circular of either handedness, and linear along it: every component as in `moduli` with the change of M at most 1')
def circular(ctx, k, dJ, I2, dF, q, top, kind):
    n = ctx.pick('F0-J0+I', list(range(I2 + 1)))
    I, J, F, M = state(ctx, k, dJ, I2, n, top[k - 1])
    J2, G, N = J + dJ, F + dF, M + q
    for c in (G >= 0, G <= I + J2, G >= I - J2, G >= J2 - I, N <= G, N >= -G):
        ctx.assume(c)
    m2 = modulus2(TS.tkq_mel(I, k, q, J, F, M, J2, G, N))
    f = getattr(TS, f'{kind}_mel_geom')
    z = () if kind != 'E2' else (np.array([0.0, 0.0, 1.0]),)

    def of(e):
        return modulus2(f(np.array(e), *z, I, J, F, M, J2, G, N))
    a, b = of([1.0, 1j, 0.0]), of([1.0, -1j, 0.0])
    x, y = (a, b) if kind != 'E2' else (b, a)       # the sign convention of E2 is the other one
    ctx.eq(x, (m2 if kind != 'E2' else 2 * m2) if q == 1 else 0, f'{kind}: light of one handedness drives one change of M only')
    ctx.eq(y, (m2 if kind != 'E2' else 2 * m2) if q == -1 else 0, f'{kind}: light of the other handedness drives the opposite change of M only')
    if kind != 'E2':
        ctx.eq(of([0.0, 0.0, 1.0]), m2 if q == 0 else 0, f'{kind}: light polarised along the axis drives no change of M')
