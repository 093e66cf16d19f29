"""C09  hyperfine component strengths"""
from symx.registry import harness
from .common import A, Q_, hz, level, second, steps


def setting(ctx, k, dJ, I, J):
    """an atom with two levels J and J + dJ between which exactly the rank-k multipole is allowed"""
    J2 = J + dJ
    a = ctx.real('A', 0, 10 ** 9)
    atom = A.Atom('x', I=I)
    odd = k == 1 and ctx.flag('parity changes')
    e1, e2 = (0.0, 1e14) if ctx.flag('first is lower') else (1e14, 0.0)
    l1 = atom.add_level(level('c', '2P', J, e1))
    l2 = atom.add_level(level(*second(e1 < e2, odd, dJ), J2, e2))
    return atom, l1, l2, J2, a


KD = [dict(k=1, dJ=-1), dict(k=1, dJ=0), dict(k=1, dJ=1), dict(k=2, dJ=-2), dict(k=2, dJ=2)]


def kdi(tier):
    return [dict(k=c['k'], dJ=c['dJ'], I2=i) for i in range(7 if tier == 'quick' else 16, -1, -1) for c in KD]


@harness('C09', cases=kdi, quick=dict(top=40), thorough=dict(top=150),
         bounds="every J up to the bound (40 quick, 150 thorough) as one symbolic value for every I <= 7/2 (quick; "
                "8 thorough) and F; final levels J' = J + dJ, all A >= 0; the sum over F' written out",
         outside='angular momenta above the bounds')
def sum_rule(ctx, k, dJ, I2, top):
    I = I2 / 2
    J = ctx.half('J', 0, top)
    F = J - I + ctx.fork(ctx.int('F-J+I', 0, I2))
    ctx.assume(F <= I + J)
    ctx.assume(F >= I - J)
    ctx.assume(J + dJ >= 0)
    ctx.assume(2 * J + dJ >= k)
    atom, l1, l2, J2, a = setting(ctx, k, dJ, I, J)
    t = A.Transition(l1, l2, A=hz(a))
    h1 = A.HFLevel(l1.term.make_term_copy(F=F), parent=l1)
    tot = 0
    for dF in range(-k, k + 1):
        F2 = F + dF
        if F2 < 0 or F2 > I + J2 or F2 < I - J2 or F2 < J2 - I:
            continue
        h2 = A.HFLevel(l2.term.make_term_copy(F=F2), parent=l2)
        x = A.HFTransition(h1, h2, parent=t)
        y = A.HFTransition(h2, h1, parent=t)
        ctx.check(x.rel_strength >= 0, 'relative strength is not negative')
        ctx.eq(x.rel_strength, y.rel_strength, 'relative strength does not depend on the order of the levels')
        ctx.eq(x.A.to('Hz').magnitude, a * x.rel_strength, 'A coefficient of a component')
        tot = tot + x.rel_strength
    ctx.eq(tot, (2 * F + 1) / (2 * J + 1), 'strengths of the components of one hyperfine sublevel')


@harness('C09', cases=lambda tier: KD, quick=dict(top=2), thorough=dict(top=4.5),
         bounds="the generated components of a transition in an atom: every I, J <= bound (2 quick, 9/2 thorough), all "
                "A >= 0 in Hz or MHz, A given at creation")
def generated(ctx, k, dJ, top):
    I = ctx.fork(ctx.half('I', 0, top))
    J = ctx.fork(ctx.half('J', 0, top))
    J2 = J + dJ
    ctx.assume(J2 >= 0 and J + J2 >= k)
    atom, l1, l2, J2, a = setting(ctx, k, dJ, I, J)
    t = A.Transition(l1, l2, A=Q_(a / 1000000, 'MHz') if ctx.flag('A in MHz') else hz(a))
    atom.add_transition(t)
    ctx.eq(t.A.to('Hz').magnitude, a, 'A coefficient of the transition')
    ctx.eq(t.rel_strength, 1, 'relative strength of the transition itself')
    tot = {}
    for x in t.subtransitions():
        ctx.check(x.rel_strength >= 0, 'relative strength of a generated component is not negative')
        ctx.eq(x.A.to('Hz').magnitude, a * x.rel_strength, 'A coefficient of a generated component')
        for h in (x.E_1, x.E_2):
            key = (h.term.J, h.parent.name, h.term.F)
            tot[key] = tot.get(key, 0) + x.rel_strength
    for lv, j in ((l1, J), (l2, J2)):
        for F in steps(abs(I - j), I + j):
            ctx.eq(tot.get((j, lv.name, F), 0), (2 * F + 1) / (2 * j + 1),
                   'strengths of the generated components at one hyperfine sublevel')
