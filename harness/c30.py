"""C30  atoms generated as a whole: internal transitions, and levels, coefficients and transitions from tables"""
import csv
import math

import pandas as pd

from symx.registry import harness
from .common import A, Q_, hz, level, ff
from .c08 import allowed
from .c15 import IO, scratch

CM = 29979245800


@harness('C30', cases=lambda tier: [dict(I2=i) for i in range(5 if tier == 'quick' else 9)], quick=dict(top=20), thorough=dict(top=100),
         bounds='internal transitions of a level with every J up to 20 (100 in the thorough tier) as one symbolic value, I up to 2 (4 in the thorough tier), '
                'every magnetic dipole coefficient of either sign; their hyperfine components at zero field',
         outside='hyperfine sublevels of equal energy; Zeeman components at zero field')
def internal_hyperfine(ctx, I2, top):
    I = I2 / 2
    J = ctx.half('J', 0, top)
    a = ctx.real('A', 10 ** 6, 10 ** 10) * ctx.pick('sign', [1, -1])
    atom = A.Atom('x', I=I)
    lv = [level('c', '2P', J, 5e14, 1.0, a), level('d', '2S', 0.5, 0.0)]
    for x in lv if ctx.flag('added first') else lv[::-1]:
        atom.add_level(x)
    if ctx.flag('another transition'):
        atom.add_transition(A.Transition(lv[1], lv[0]))
    n0 = len(atom.transitions)
    atom.populate_internal_transitions()
    ctx.check(len(atom.transitions) == n0 + 2, 'one internal transition for each level')
    l = lv[0]
    t = atom.transitions[(l.name, l.name)]
    ctx.check(t.E_1 is l and t.E_2 is l and t.atom is atom, 'an internal transition leads from a level to itself')
    ctx.eq(t.freq.to('Hz').magnitude, 0, 'frequency of an internal transition')
    e1, m1, e2 = t.allowed_types
    ctx.check(not e1 and not e2 and bool(m1) == bool(J >= 0.5), 'internal transitions are magnetic dipole transitions')
    order = list(l.sublevels())
    n = len(order)
    if a < 0:
        order = order[::-1]
    pos = {id(x): i for i, x in enumerate(order)}
    seen = set()
    for x in t.values():
        ctx.check(id(x.E_1) in pos and id(x.E_2) in pos, 'a component connects sublevels of the level')
        i, j = pos[id(x.E_lower)], pos[id(x.E_upper)]
        ctx.check(i <= j, 'the lower sublevel of a component has the lower energy')
        ctx.check((i, j) not in seen, 'a component appears once')
        seen.add((i, j))
        ctx.check(x.parent is t, 'a component belongs to the internal transition')
        ctx.eq(x.freq.to('Hz').magnitude, x.E_upper.level_Hz - x.E_lower.level_Hz, 'frequency of a component')
    F = [ctx.fork(x.term.F - (J - I)) for x in order]
    for i in range(n):
        for j in range(i, n):
            want = bool(m1) and allowed(ctx, J, I, F[i], 0, F[j] - F[i], 1)
            ctx.check(((i, j) in seen) == bool(want), 'a component exists exactly where dipole selection rules allow it')


def zcases(tier):
    out = [(0.5, 0.5), (0, 0.5), (0, 1), (1, 0.5), (0.5, 1), (1, 1), (1.5, 0.5)]
    return [dict(I=i, J=j) for i, j in out + ([(1.5, 1.5), (2.5, 0.5), (0, 3), (2, 2), (0.5, 2.5)] if tier == 'thorough' else [])]


def three(F, m, F2, m2):
    """does a dipole connect the sublevels"""
    if abs(F - F2) > 1 or F + F2 < 1 or abs(m - m2) > 1:
        return False
    return not (F == F2 and m == m2 == 0)


@harness('C30', cases=zcases,
         bounds='Zeeman components of the internal transitions of seven (I, J) (twelve in the thorough tier), every magnetic dipole coefficient above 100 MHz of either '
                'sign, every non-zero field up to 10 G of either sign',
         outside='fields in which sublevels cross')
def internal_zeeman(ctx, I, J):
    a = ctx.real('A', 10 ** 8, 10 ** 9) * ctx.pick('sign', [1, -1])
    b = ctx.real('B', 0.01, 10) * ctx.pick('direction', [1, -1])
    e = ctx.real('E', 0, 10 ** 6)
    atom = A.Atom('x', I=I, B=Q_(b, 'G'))
    l = level('c', '2P', J, e, 2.0, a)
    atom.add_level(l)
    atom.populate_internal_transitions()
    t = atom.transitions[(l.name, l.name)]
    for x in t.values():
        f, g = x.E_lower, x.E_upper
        zs = [(z, f) for z in f.values()] + ([(z, g) for z in g.values()] if f is not g else [])
        seen = set()
        for z in x.values():
            ctx.check(any(z.E_lower is u for u, _ in zs) and any(z.E_upper is u for u, _ in zs), 'a Zeeman component connects sublevels of its hyperfine component')
            ctx.check(f is g or z.E_lower.parent is not z.E_upper.parent, 'a Zeeman component connects both hyperfine levels')
            k = frozenset((id(z.E_lower), id(z.E_upper)))
            ctx.check(k not in seen, 'a Zeeman component appears once')
            seen.add(k)
            ctx.eq(z.freq.to('Hz').magnitude, z.E_upper.level_Hz - z.E_lower.level_Hz, 'frequency of a Zeeman component')
            ctx.check(z.freq.to('Hz').magnitude >= 0, 'the upper sublevel is above the lower one')
        for u in f.values():
            for v in g.values():
                want = three(u.term.F, u.term.mF, v.term.F, v.term.mF)
                ctx.check((frozenset((id(u), id(v))) in seen) == want, 'a Zeeman component exists exactly where selection rules allow it')


LEVELS = [('6s', '2S', 0.5), ('6p', '2P*', 1.5), ('6d', '2D', 2.5)]
HOW = ('table', 'no table', 'table is None', 'all types without table')


def gen_cases(tier):
    return [dict(how=h, hf=f, num=n) for h in HOW for f in ('listed', 'partly', 'missing file', 'none', 'absent') for n in (None, 2)]


@harness('C30', cases=gen_cases,
         bounds='atoms generated from a table of three levels, all of them or the first two, every energy (in any order), coefficient, A coefficient and field; with a hyperfine file for all, some or '
                'none of the levels; transitions from a table or generated for the given types; a frequency assigned afterwards',
         outside='transitions_csv, which is not implemented')
def generated(ctx, how, hf, num):
    E = [ctx.real(f'E{i}', 0, 10 ** 5) for i in range(3)]
    for i in (0, 1):
        ctx.assume(E[i] + 1 < E[i + 1])
    co = [[ctx.real(f'{c}{i}', -10 ** 3, 10 ** 3) for c in 'ABC'] for i in range(3)]
    order = ctx.pick('order of the table', [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    rows = [{'Level (cm-1)': Q_(E[i], '1/cm'), 'J': ff(LEVELS[i][2]), 'Lande': 1.25, 'Configuration': LEVELS[i][0], 'Term': LEVELS[i][1], 'Percentage': 100.0,
             'Configuration_2': None, 'Term_2': '', 'Percentage_2': math.nan} for i in order]
    df = pd.DataFrame({k: pd.Series([r[k] for r in rows], dtype=object) for k in rows[0]})
    kept = [i for i in order[:num or 3]]
    names = [f'{c} {t}{ff(J)}' for c, t, J in LEVELS]
    kw, B = {}, ctx.real('B')
    rates = {}
    if how in ('table', 'all types without table') or (how == 'table is None' and ctx.flag('types given')):
        kw['allowed'] = ctx.pick('types', [(True, False, False), (False, False, True), (True, False, True)]) if how != 'table' else (True, False, False)
    if how == 'table':
        tr = []
        for n, (i, j) in enumerate(((0, 1), (2, 0))):
            rates[(min(i, j), max(i, j))] = r = ctx.real(f'rate{n}', 0, 1000)
            tr.append({'conf_l': LEVELS[i][0], 'term_l': LEVELS[i][1], 'j_l': ff(LEVELS[i][2]), 'conf_u': LEVELS[j][0], 'term_u': LEVELS[j][1], 'j_u': ff(LEVELS[j][2]),
                       'freq': None, 'A': Q_(r, 'MHz')})
        kw['transitions_df'] = pd.DataFrame({k: pd.Series([r[k] for r in tr], dtype=object) for k in tr[0]})
        want = [p for p in rates if p[0] in kept and p[1] in kept]
    else:
        if how == 'table is None':
            kw['transitions_df'] = None
        types = kw.get('allowed', (True, False, False) if how != 'table is None' else (True, True, True))
        want = [p for p in ((0, 1), (1, 2), (0, 2)) if p[0] in kept and p[1] in kept and (types[0] if 1 in p else types[2])]
    listed = {'listed': kept, 'partly': [0]}.get(hf, [])
    with scratch():
        if hf in ('listed', 'partly'):
            with open('hf.csv', 'w', newline='', encoding='utf-8') as f:
                w = csv.writer(f)
                for i in ([0, 1, 2] if hf == 'listed' else [0]):
                    w.writerow([names[i]] + [f'{c} megahertz' for c in co[i]])
        if hf != 'absent':
            kw['hf_csv'] = None if hf == 'none' else 'hf.csv'
        if num:
            kw['num_levels'] = num
        atom = IO.generate_full_from_dataframe(df, 'X', I=2.5, B=Q_(B, 'G'), **kw)
    if hf == 'listed':
        listed = kept
    elif hf == 'partly':
        listed = [i for i in kept if i == 0]
    ctx.check(atom.name == 'X' and atom.I == 2.5, 'name and nuclear spin')
    ctx.eq(atom.B.to('G').magnitude, B, 'field')
    ctx.check(list(atom.levels.keys()) == [names[i] for i in kept], 'the requested levels')
    for i in kept:
        l = atom.levels[names[i]]
        ctx.eq(l.level_Hz, E[i] * CM, 'energy of a level')
        for c, v in zip('ABC', co[i]):
            ctx.eq(getattr(l, 'hf' + c).to('Hz').magnitude, v * 10 ** 6 if i in listed else 0, 'hyperfine coefficient')
    ctx.check(len(atom.transitions) == len(want) + len(kept), 'the wanted transitions and one internal transition for each level')
    for i in kept:
        t = atom.transitions[(names[i], names[i])]
        ctx.check(t.E_1 is atom.levels[names[i]] and t.E_2 is t.E_1, 'internal transition')
    for i, j in want:
        t = atom.transitions[(names[i], names[j])]
        ctx.check(t.E_lower is atom.levels[names[i]] and t.E_upper is atom.levels[names[j]], 'levels of a transition')
        ctx.eq(t.freq.to('Hz').magnitude, (E[j] - E[i]) * CM, 'frequency of a transition')
        if how == 'table':
            ctx.eq(t.A.to('MHz').magnitude, rates[(i, j)], 'A coefficient of a transition')
        else:
            ctx.check(t.A is None, 'no A coefficient')
    if not want:
        return
    # assigning a frequency afterwards
    i, j = want[0]
    f = ctx.real('assigned', 1, 1000) * 10 ** 12
    t = atom.transitions[(names[i], names[j])]
    t.set_frequency(hz(f))
    ctx.eq(t.freq.to('Hz').magnitude, f, 'frequency assigned to a generated transition')
    ctx.eq(atom.levels[names[i]].level_Hz, E[i] * CM, 'the lower level stays')
    for k in kept:
        if k not in (i, j):
            ctx.eq(atom.levels[names[k]].level_Hz, E[k] * CM, 'levels without assigned transition stay')
        s = atom.transitions[(names[k], names[k])]
        ctx.eq(s.freq.to('Hz').magnitude, 0, 'internal transitions keep zero frequency')
