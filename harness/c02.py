"""C02  hyperfine shifts"""
from symx.registry import harness
from .common import A, Q_, Term, hz, level, steps


def expected(ctx, I, J, F, a, b, c):
    """the multipole formula, cleared of case distinctions: (dipole, quadrupole, octupole) written with K = 2 I.J"""
    K = F * (F + 1) - I * (I + 1) - J * (J + 1)
    e = a * K / 2
    if I >= 1 and J >= 1:
        e = e + b * (1.5 * K * (K + 1) - 2 * I * (I + 1) * J * (J + 1)) / (4 * I * (2 * I - 1) * J * (2 * J - 1))
    if I >= 1.5 and J >= 1.5:
        num = 5 * K * K * (K / 4 + 1) + K * (I * (I + 1) + J * (J + 1) + 3 - 3 * I * (I + 1) * J * (J + 1)) \
            - 5 * I * (I + 1) * J * (J + 1)
        e = e + c * num / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
    return e


@harness('C02', quick=dict(top=20), thorough=dict(top=100),
         bounds='every half-integer I, J <= top (20 quick, 100 thorough), every F of the coupling as one symbolic '
                'value, all real A, B, C and level energies',
         outside='I or J above the bound')
def formula(ctx, top):
    I = ctx.half('I', 0, top)
    J = ctx.half('J', 0, top)
    n = ctx.int('n', 0, 2 * 2 * top)          # F = |I-J| + n
    lo = I - J if I >= J else J - I
    F = lo + n
    ctx.assume(F <= I + J)
    a, b, c, e = ctx.real('A'), ctx.real('B'), ctx.real('C'), ctx.real('E')
    atom = A.Atom('x', I=I)
    lv = atom.add_level(level('c', '2P', J, e, 1.0, a, b, c))
    h = A.HFLevel(lv.term.make_term_copy(F=F), parent=lv)
    want = expected(ctx, I, J, F, a, b, c)
    ctx.eq(h.shift_Hz, want, 'shift of a hyperfine sublevel')
    ctx.eq(h.shift.to('Hz').magnitude, want, 'shift quantity')
    ctx.eq(h.level_Hz, e + want, 'energy of a hyperfine sublevel')
    ctx.eq(h.level.to('Hz').magnitude, e + want, 'energy quantity')


@harness('C02', quick=dict(top=20), thorough=dict(top=100),
         bounds='stretched sublevel F = I + J for every half-integer I, J <= top')
def stretched(ctx, top):
    I = ctx.half('I', 0, top)
    J = ctx.half('J', 0, top)
    a, b, c = ctx.real('A'), ctx.real('B'), ctx.real('C')
    atom = A.Atom('x', I=I)
    lv = atom.add_level(level('c', '2P', J, 0.0, 1.0, a, b, c))
    h = A.HFLevel(lv.term.make_term_copy(F=I + J), parent=lv)
    want = a * I * J
    if I >= 1 and J >= 1:
        want = want + b / 4
    if I >= 1.5 and J >= 1.5:
        want = want + c
    ctx.eq(h.shift_Hz, want, 'stretched sublevel moves by A I J + B/4 + C')


@harness('C02', cases=lambda tier: [dict(I2=i) for i in range(0, 10 if tier == 'quick' else 16)],
         quick=dict(top=4.5), thorough=dict(top=7.5),
         bounds='generated sublevels of every I, J <= top (4.5 quick, 7.5 thorough), all real A, B, C; coefficients '
                'assigned at construction or later, in any unit')
def generated(ctx, I2, top):
    I = I2 / 2
    J = ctx.fork(ctx.half('J', 0, top))
    a, b, c = ctx.real('A'), ctx.real('B'), ctx.real('C')
    atom = A.Atom('x', I=I)
    later = ctx.flag('assigned later')
    lv = level('c', '2P', J, 0.0, 1.0, *((0.0, 0.0, 0.0) if later else (a, b, c)))
    atom.add_level(lv)
    if later:
        before = ctx.flag('generated before')
        if before:
            lv.sublevels()
        lv.hfA, lv.hfB, lv.hfC = hz(a), Q_(b / 1000000, 'MHz'), Q_(c / 1000, 'kHz')
    tot = 0
    for h in lv.sublevels():
        F = h.term.F
        want = expected(ctx, I, J, F, a, b, c)
        ctx.eq(h.shift_Hz, want, 'shift of a generated sublevel')
        tot = tot + (2 * F + 1) * h.shift_Hz
    ctx.eq(tot, 0, 'weighted sum of the shifts of a level', scale=[a, b, c, 1])
    ctx.eq(lv.hfA.to('Hz').magnitude, a, 'A coefficient')
    ctx.eq(lv.hfB.to('Hz').magnitude, b, 'B coefficient')
    ctx.eq(lv.hfC.to('Hz').magnitude, c, 'C coefficient')
