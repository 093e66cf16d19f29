"""C03  Zeeman shifts"""
from symx.registry import harness
from .common import A, Q_, hz, level, steps, MU_B


GAUSS = {'G': 1, 'kG': 1000, 'mG': 0.001}


def lande(I, J, F, g):
    """F != 0"""
    return g * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))


@harness('C03', quick=dict(top=20), thorough=dict(top=100),
         bounds='every half-integer I, J, F with F <= I+J and every mF as symbolic values up to the bound (20 quick, '
                '100 thorough), all real gJ, B (also changed later), A and quadratic coefficients',
         outside='angular momenta above the bound')
def formula(ctx, top):
    I = ctx.half('I', 0, top)
    J = ctx.half('J', 0, top)
    n = ctx.int('n', 0, 4 * top)
    lo = I - J if I >= J else J - I
    F = lo + n
    ctx.assume(F <= I + J)
    m = ctx.int('F+mF', 0, 4 * top) - F
    ctx.assume(m <= F)
    g, B, q, a = ctx.real('gJ'), ctx.real('B'), ctx.real('quad'), ctx.real('A')
    atom = A.Atom('x', I=I, B=Q_(B, 'G'))
    lv = atom.add_level(level('c', '2P', J, ctx.real('E'), g, a))
    h = A.HFLevel(lv.term.make_term_copy(F=F), parent=lv)
    z = A.ZLevel(h.term.make_term_copy(mF=m), parent=h)
    gF = 0 if F == 0 else lande(I, J, F, g)
    ctx.eq(h.gF, gF, 'gF')
    want = gF * m * MU_B * B
    ctx.eq(z.shift_Hz, want, 'shift of a Zeeman sublevel')
    ctx.eq(z.level_Hz, h.level_Hz + want, 'energy of a Zeeman sublevel')
    z.quadratic_zeeman = q
    want = want + q * B * B
    ctx.eq(z.shift.to('Hz').magnitude, want, 'shift of a Zeeman sublevel with a quadratic coefficient')
    ctx.eq(z.level.to('Hz').magnitude, h.level.to('Hz').magnitude + want,
           'energy of a Zeeman sublevel with a quadratic coefficient')
    B2 = ctx.real('B2')
    unit = ctx.pick('unit', ['G', 'kG', 'mG'])
    atom.B = Q_(B2 / GAUSS[unit], unit)
    ctx.eq(atom.B.to('G').magnitude, B2, 'magnetic field reads back')
    ctx.eq(z.shift_Hz, gF * m * MU_B * B2 + q * B2 * B2, 'shift after the field was changed')


@harness('C03', quick=dict(top=20), thorough=dict(top=100),
         bounds='the stretched state F = mF = I + J of every half-integer I, J up to the bound, all gJ, B, A, E')
def stretched(ctx, top):
    I = ctx.half('I', 0, top)
    J = ctx.half('J', 0, top)
    g, B = ctx.real('gJ'), ctx.real('B')
    atom = A.Atom('x', I=I, B=Q_(B, 'G'))
    lv = atom.add_level(level('c', '2P', J, ctx.real('E'), g, ctx.real('A')))
    h = A.HFLevel(lv.term.make_term_copy(F=I + J), parent=lv)
    z = A.ZLevel(h.term.make_term_copy(mF=I + J), parent=h)
    ctx.eq(z.shift_Hz, g * J * MU_B * B, 'stretched state moves by gJ J muB B')


@harness('C03', cases=lambda tier: [dict(J2=j) for j in range(0, 6 if tier == 'quick' else 10)],
         quick=dict(top=2.5), thorough=dict(top=4.5),
         bounds='generated Zeeman sublevels of every I, J <= bound (5/2 quick, 9/2 thorough); field given at creation or '
                'later in G, kG or mG, before or after the sublevels are generated; all gJ, B, A, quadratic coefficients',
         outside='changing the Lande factor of a level whose sublevels exist')
def generated(ctx, J2, top):
    J = J2 / 2
    I = ctx.fork(ctx.half('I', 0, top))
    g, B, a, e = ctx.real('gJ'), ctx.real('B'), ctx.real('A'), ctx.real('E')
    when = ctx.pick('field given', ['at creation', 'before', 'after'])
    unit = ctx.pick('unit', ['G', 'kG', 'mG'])
    field = Q_(B / GAUSS[unit], unit)
    atom = A.Atom('x', I=I, B=field) if when == 'at creation' else A.Atom('x', I=I)
    lv = atom.add_level(level('c', '2P', J, e, g, a))
    if when == 'before':
        atom.B = field
    if when == 'after':
        for h in lv.sublevels():
            for z in h.sublevels():
                ctx.eq(z.level_Hz, h.level_Hz, 'without a field Zeeman sublevels are at their hyperfine level')
        atom.B = field
    q = ctx.real('quad')
    for h in lv.sublevels():
        F = h.term.F
        gF = 0 if F == 0 else lande(I, J, F, g)
        by = {}
        for z in h.sublevels():
            m = z.term.mF
            by[m] = z.shift_Hz
            ctx.eq(z.shift_Hz, gF * m * MU_B * B, 'shift of a generated Zeeman sublevel')
            z.quadratic_zeeman = q * (m + 1)
            ctx.eq(z.shift_Hz, gF * m * MU_B * B + q * (m + 1) * B * B,
                   'shift of a generated Zeeman sublevel with a quadratic coefficient')
        for m in by:
            ctx.eq(by[m], -by[-m], 'opposite mF move oppositely')
        for z in h.sublevels():
            m = z.term.mF
            ctx.eq(z.shift_Hz, gF * m * MU_B * B + q * (m + 1) * B * B,
                   'quadratic coefficients belong to one sublevel')
