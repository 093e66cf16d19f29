"""C10  Zeeman component strengths"""
from symx.registry import harness
from . import angular as G
from .common import A, Q_, hz, level, second, steps
from .c08 import ranks


def parent(ctx, k, F, dF, a, I):
    """a hyperfine component of rank k between F and F + dF.  The levels have J = F + I on both sides; where the dipole
    must be excluded (k = 2) J' - J = +-2 needs I = (2 - |dF|)/2 and offsets of opposite sign"""
    odd = k == 1 and ctx.flag('parity changes')
    J, J2 = F + I, F + dF + I
    if k == 2 and abs(dF) < 2:
        I = (2 - abs(dF)) / 2
        s = 1 if dF > 0 else -1
        J, J2 = F - s * I, F + dF + s * I
        ctx.assume(J >= 0)
        ctx.assume(J2 >= 0)
        ctx.assume(F + J >= I)
        ctx.assume(F + dF + J2 >= I)
    atom = A.Atom('x', I=I)
    e1, e2 = (0.0, 1e14) if ctx.flag('first is lower') else (1e14, 0.0)
    l1 = atom.add_level(level('c', '2P', J, e1))
    l2 = atom.add_level(level(*second(e1 < e2, odd, dF), J2, e2))
    t = A.Transition(l1, l2, A=hz(a))
    h1 = A.HFLevel(l1.term.make_term_copy(F=F), parent=l1)
    h2 = A.HFLevel(l2.term.make_term_copy(F=F + dF), parent=l2)
    return h1, h2, A.HFTransition(h1, h2, parent=t)


def cases(tier):
    out = []
    for k in (1, 2):
        for dF in range(-k, k + 1):
            for s in range(3 if tier == 'quick' else 9):
                out.append(dict(k=k, dF=dF, s=s))
            out.append(dict(k=k, dF=dF, s='any'))
    return out


@harness('C10', cases=cases, quick=dict(top=40, anytop=4), thorough=dict(top=200, anytop=12),
         bounds="Zeeman components at one sublevel m of a hyperfine component F, F' = F + dF (I = 0, 1/2, 1): F up to the "
                "bound (40 quick, 200 thorough) as one symbolic value with m = F - s for s < 3 (9 thorough), and every m for "
                "F <= 4 (12 thorough); A >= 0 arbitrary; dipole and quadrupole",
         outside='m further from F for large F')
def sum_rule(ctx, k, dF, s, top, anytop):
    if s == 'any':
        F = ctx.fork(ctx.half('F', 0, anytop))
        s = ctx.fork(ctx.int('F-m', 0, 2 * anytop))
    else:
        F = ctx.half('F', 0, top)
    ctx.assume(s <= 2 * F)
    ctx.assume(2 * F + dF >= k)
    m = F - s
    a = ctx.real('A', 0, 10 ** 9)
    h1, h2, x = parent(ctx, k, F, dF, a, 0 if k == 2 and abs(dF) < 2 else ctx.pick('I', [0, 0.5]))
    z1 = A.ZLevel(h1.term.make_term_copy(mF=m), parent=h1)
    z1r = A.ZLevel(h1.term.make_term_copy(mF=-m), parent=h1)
    F2 = F + dF
    tot = 0
    for q in range(-k, k + 1):
        m2 = m - q
        if m2 > F2 or m2 < -F2:
            continue
        z2 = A.ZLevel(h2.term.make_term_copy(mF=m2), parent=h2)
        z2r = A.ZLevel(h2.term.make_term_copy(mF=-m2), parent=h2)
        y = A.ZTransition(z1, z2, parent=x)
        ctx.check(y.rel_strength >= 0, 'relative strength is not negative')
        ctx.eq(y.rel_strength, A.ZTransition(z2, z1, parent=x).rel_strength,
               'relative strength does not depend on the order of the sublevels')
        ctx.eq(y.rel_strength, A.ZTransition(z1r, z2r, parent=x).rel_strength,
               'relative strength does not change when both mF change sign')
        ctx.eq(y.A.to('Hz').magnitude, x.A.to('Hz').magnitude * y.rel_strength, 'A coefficient of a Zeeman component')
        tot = tot + y.rel_strength
    ctx.eq(tot, 1 / (2 * F + 1), 'strengths of the Zeeman components at one sublevel')


@harness('C10', cases=lambda tier: [dict(odd=o, dJ=d, I2=i) for i in range(4 if tier == 'quick' else 6, -1, -1)
                                    for o in (False, True) for d in (0, 1, -1, 2, -2) if not (o and abs(d) > 1)],
         quick=dict(top=2), thorough=dict(top=4),
         bounds='the generated Zeeman components of every hyperfine component, for every I <= 2 (quick; 3 thorough) and '
                'J <= 2 (4 thorough), A >= 0 arbitrary, every field of at most 10000 G; both sum rules, and each strength '
                'against an exact 3j coefficient')
def generated(ctx, odd, dJ, I2, top):
    I = I2 / 2
    J = ctx.fork(ctx.half('J', 0, top))
    J2 = J + dJ
    ctx.assume(J2 >= 0)
    lead, ks = ranks(J, J2, odd)
    ctx.assume(lead is not None)
    a = ctx.real('A', 0, 10 ** 9)
    e1, e2 = (0.0, 1e14) if ctx.flag('first is lower') else (1e14, 0.0)
    atom = A.Atom('x', I=I, B=Q_(ctx.real('B', -10000, 10000), 'G'))
    l1 = atom.add_level(level('c', '2P', J, e1, A_=1e9))
    l2 = atom.add_level(level(*second(e1 < e2, odd, dJ), J2, e2, A_=1e8))
    t = atom.add_transition(A.Transition(l2, l1, A=Q_(a / 1000000, 'MHz')))
    for x in t.subtransitions():
        h1, h2 = (x.E_1, x.E_2) if x.E_1.parent is l1 else (x.E_2, x.E_1)
        F1, F2 = h1.term.F, h2.term.F
        hk = [k for k in ks if G.sixj(J, F1, I, F2, J2, k)[0] != 0]
        tot = {}
        for y in x.subtransitions():
            z1, z2 = (y.E_1, y.E_2) if y.E_1.parent is h1 else (y.E_2, y.E_1)
            m1, m2 = z1.term.mF, z2.term.mF
            ctx.check(y.rel_strength >= 0, 'relative strength of a generated Zeeman component is not negative')
            ctx.eq(y.rel_strength, float(G.threej(F1, hk[0], F2, -m1, m1 - m2, m2)[1]),
                   'relative strength of a generated Zeeman component')
            ctx.eq(y.A.to('Hz').magnitude, x.A.to('Hz').magnitude * y.rel_strength,
                   'A coefficient of a generated Zeeman component')
            tot[1, m1] = tot.get((1, m1), 0) + y.rel_strength
            tot[2, m2] = tot.get((2, m2), 0) + y.rel_strength
        for i, F in ((1, F1), (2, F2)):
            for m in steps(-F, F):
                ctx.eq(tot.get((i, m), 0), 1 / (2 * F + 1), 'strengths of the generated components at one sublevel')
