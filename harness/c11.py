"""C11  lifetimes and branching ratios"""
import math
from symx.registry import harness
from .common import A, Q_, hz, level

JS = (0.5, 1.5, 2.5, 4.5, 0.5)        # a dipole, a quadrupole and a forbidden line
UNIT = {'Hz': 1, 'MHz': 10 ** 6, '1/s': 1, 'various': None}


def build(ctx, n, how, unit, selftrans):
    """levels 0..n-1; transitions from level 0 to some others, each with a coefficient, and one between two others"""
    E = [ctx.real(f'E{i}') for i in range(n)]
    lv = [level('abcde'[i], '2P' if i % 2 else '2S*', JS[i], E[i]) for i in range(n)]
    atom = A.Atom('x', I=ctx.pick('I', [0.0, 1.5]))
    if how != 'brought by the transitions':
        for x in (lv if ctx.flag('level 0 first') else lv[::-1]):
            atom.add_level(x)
    out = []
    links = [(0, i) for i in range(1, n)]
    for a, b in links:
        if not ctx.flag(f'linked to {b}'):
            continue
        ctx.assume(E[a] != E[b])
        co = ctx.real(f'A{b}', 0, 10 ** 9)
        out.append((b, co))
        add(ctx, atom, lv[a], lv[b], co, how, unit, ctx.flag('reversed') if b == 1 else False)
    if n > 2:
        add(ctx, atom, lv[1], lv[2], ctx.real('A12', 0, 10 ** 9), how, unit, False)
    if selftrans:
        if lv[0].atom is None:
            atom.add_level(lv[0])
        t = A.Transition(lv[0], lv[0], A=hz(ctx.real('A00', 0, 10 ** 9)))
        atom.add_transition(t)
    if lv[0].atom is None:
        atom.add_level(lv[0])
    return atom, lv, E, out


def add(ctx, atom, a, b, co, how, unit, rev):
    if unit == 'various':
        unit = ('MHz', 'Hz', 'kHz', 'GHz')['abcde'.index(b.name[0]) - 1]
    if rev:
        a, b = b, a
    co = None if co is None else Q_(co / (UNIT | {'kHz': 1000, 'GHz': 10 ** 9})[unit], unit)
    if how == 'by names':
        atom.add_transition((a.name, b.name), A=co)
    elif how == 'by levels':
        atom.add_transition((a, b), A=co)
    elif how == 'brought by the transitions':
        atom.add_transition(A.Transition(a, b, A=co))
    else:
        atom.add_transition(A.Transition(a, b, A=co))


def cases(tier):
    return [dict(n=n, how=h, unit=u, selftrans=s) for n in ((2, 3, 4) if tier == 'quick' else (2, 3, 4, 5))
            for h in ('object', 'by names', 'by levels', 'brought by the transitions')
            for u in UNIT for s in (False, True)
            if n < 4 or u == 'various' and (h != 'brought by the transitions' or not s) or tier == 'thorough']


@harness('C11', cases=cases,
         bounds='up to 4 levels (5 thorough) of arbitrary distinct energies, any of the transitions from one level to the '
                'others present, A >= 0 arbitrary in Hz, MHz, 1/s or a different unit for each, an unrelated transition and one of the level with '
                'itself; added as objects, by names or by levels, named in either order',
         outside='energies that cross after the transition was created; sublevels; all coefficients zero (ratios)')
def ratios(ctx, n, how, unit, selftrans):
    atom, lv, E, out = build(ctx, n, how, unit, selftrans)
    down = [(b, co) for b, co in out if E[b] < E[0]]
    name = lv[0].name
    tot = 0
    for b, co in down:
        tot = tot + co
    life = atom.state_lifetime(name)
    if not down:
        ctx.check(life.to('s').magnitude == math.inf, 'a level without decay channel lives forever')
        ctx.check(len(atom.compute_branching_ratios(name)) == 0, 'a level without decay channel has no branching ratios')
        return
    if not ctx.holds(tot > 0):
        ctx.check(life.to('s').magnitude == math.inf, 'a level without decay rate lives forever')
        return
    ctx.eq(life.to('s').magnitude * tot, 2 * math.pi, 'lifetime')
    br = atom.compute_branching_ratios(name)
    ctx.check(sorted(br) == sorted(lv[b].name for b, _ in down), 'branching ratios cover the lower levels')
    s = 0
    for b, co in down:
        r = br[lv[b].name]
        ctx.eq(r * tot, co, 'branching ratio')
        ctx.check(r >= 0, 'branching ratio is not negative')
        s = s + r
    ctx.eq(s, 1, 'sum of the branching ratios')


@harness('C11', cases=lambda tier: [dict(n=n, which=w) for n in (2, 3, 4) for w in range(1, n)],
         bounds='up to 4 levels, one transition without A coefficient, the others with or without')
def missing(ctx, n, which):
    E = [ctx.real(f'E{i}') for i in range(n)]
    lv = [level('abcde'[i], '2P' if i % 2 else '2S*', JS[i], E[i]) for i in range(n)]
    atom = A.Atom('x', I=0.5)
    for x in lv:
        atom.add_level(x)
    for b in range(1, n):
        ctx.assume(E[0] != E[b])
        co = None if b == which or ctx.flag(f'no A{b}') else ctx.real(f'A{b}', 0, 10 ** 9)
        atom.add_transition(A.Transition(lv[0], lv[b], A=None if co is None else hz(co)))
    # a transition up from the level does not need a coefficient, one down does
    none_down = False
    tot = 0
    for b in range(1, n):
        t = atom.transitions[lv[0].name, lv[b].name]
        if E[b] < E[0]:
            if t.A is None:
                none_down = True
            else:
                tot = tot + t.A.to('Hz').magnitude
    if none_down:
        ctx.raises(ValueError, lambda: atom.compute_branching_ratios(lv[0].name),
                   'branching ratios without an A coefficient are refused')
    else:
        ctx.assume(tot > 0)
        br = atom.compute_branching_ratios(lv[0].name)
        for b in range(1, n):
            if E[b] < E[0]:
                ctx.eq(br[lv[b].name] * tot, atom.transitions[lv[0].name, lv[b].name].A.to('Hz').magnitude,
                       'a transition from above does not need a coefficient')
