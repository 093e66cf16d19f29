"""C17  atoms from tables of levels and transitions"""
import csv
import math

import pandas as pd

from symx.registry import harness
from .common import A, Q_, hz, level, ff
from .c05 import quantity
from .c15 import IO, scratch

CM = 29979245800
INDICES = {'default': None, 'filtered': [5, 7, 9], 'reversed': [2, 1, 0], 'text': ['x', 'y', 'z'], 'ones': [1, 1, 1]}
MULTIPLET = [('6p', '2P', 1, 0.5), ('6p', '2P', 1, 0.5), ('6s.(3P).5d', '2P', 1, 0.5)]
TERMS = [('6s', '2S', 0, 0.5), ('6s.(3P).5d', '4D', 2, 1.5), ('5d6p', '3D*', 2, 1)]
JTEXT = {'fraction': ff, 'float': float, 'decimal': lambda j: str(float(j)), 'padded': lambda j: ' ' + ff(j)}


def ls_lande(J, L, S):
    return 0 if J == 0 else 1 + 1.0023 * (J * (J + 1) + S * (S + 1) - L * (L + 1)) / (2 * J * (J + 1))


def level_cases(tier):
    some = ('default', 'filtered', 'ones')
    out = [dict(n=n, index=x, jform=f) for n in (1, 2, 3) for x in INDICES for f in ('fraction', 'float')
           if tier == 'thorough' or n == 1 or (n == 2 and x in some) or (x in some and f == 'fraction')]
    out += [dict(n=2, index=x, jform=f) for x in ('default', 'filtered') for f in ('decimal', 'padded')]
    out += [dict(n=n, index=x, jform='fraction', multiplet=True) for n, x in ((2, 'filtered'), (3, 'default'))]
    return out


@harness('C17', cases=level_cases,
         bounds='tables of up to 3 rows with distinct names (also of one multiplet) and any index, all energies, Lande factors given or missing, a second '
                'component in a row or not, all percentages; J as fraction, decimal text or number; any requested number of rows',
         outside='tables in which two rows have the same configuration, term and J')
def level_table(ctx, n, index, jform, multiplet=False):
    rows, want = [], []
    missing = ctx.pick('missing as None or nan', [0, 1]) if n == 1 else len(index)
    second = ctx.pick('row with a second component', [None, *range(n)] if n < 3 or index == 'default' else [1])
    for i in range(n):
        conf, term, L, S = (MULTIPLET if multiplet else TERMS)[i]
        if multiplet:
            J = (1.5, 0.5, 1.5)[i]
        else:
            J = abs(L - S) if i != 1 else (ctx.pick('J', [0.5, 1.5, 3.5]) if n == 2 else 1.5)
        E = ctx.real(f'E{i}')
        g = ctx.real(f'g{i}') if ctx.flag(f'Lande factor in row {i}') else None
        p = ctx.real(f'percentage{i}', positive=True)
        q = ctx.real(f'second percentage{i}', positive=True) if i == second else None
        row = {'Level (cm-1)': Q_(E, '1/cm'), 'J': JTEXT[jform](J), 'Lande': g, 'Configuration': conf, 'Term': term, 'Percentage': p,
               'Configuration_2': None, 'Term_2': '', 'Percentage_2': math.nan}
        est = ls_lande(J, L, S)
        if q is not None:
            ctx.assume(q < p)
            row.update(Configuration_2='other', Term_2='2F' + ('*' if '*' in term else ''), Percentage_2=q)
            est = (p * est + q * ls_lande(J, 3, 0.5)) / (p + q)
        if g is None and (missing + i) % 2:
            row['Lande'] = math.nan
        rows.append(row)
        want.append((f'{conf} {term}{ff(J)}', E, g if g is not None else est, p, q))
    df = pd.DataFrame({k: pd.Series([r[k] for r in rows], dtype=object) for k in rows[0]})
    if INDICES[index]:
        df.index = INDICES[index][:n]
    num = ctx.pick('number of rows', [None, *range(n + 2)] if n < 3 else [None, 2, 3, 4])
    B = ctx.real('field')
    atom = A.Atom.from_dataframe(df, 'X', I=1.5, num_levels=num, B=Q_(B, 'G'))
    expected = want if num is None else want[:num]
    ctx.check(atom.name == 'X' and atom.I == 1.5, 'name and nuclear spin of the atom')
    ctx.eq(atom.B.to('G').magnitude, B, 'field of the atom')
    ctx.check(len(atom.levels) == len(expected), 'one level per row')
    ctx.check(list(atom.levels.keys()) == [w[0] for w in expected], 'names of the levels')
    for i, (name, E, g, p, q) in enumerate(expected):
        lv = atom.levels[name]
        ctx.check(lv.atom is atom and lv.name == name, 'the level belongs to the atom')
        ctx.eq(lv.level.to('1/cm').magnitude, E, 'energy of a row')
        ctx.eq(lv.level_Hz, E * CM, 'energy of a row in Hz')
        ctx.eq(lv.lande, g, 'Lande factor of a row')
        ctx.check(len(lv.term) == (1 if q is None else 2), 'components of a row')
        ctx.eq(lv.term.percentage, p, 'percentage of a row')
        if q is not None:
            ctx.eq(lv.term[1].percentage, q, 'percentage of the second component')
            ctx.check(lv.term[1].conf == 'other' and lv.term[1].J == lv.term.J, 'the second component')
        alone = A.EnergyLevel.from_dataframe(df, i)
        ctx.check(alone.name == name, 'a single row read on its own')
        ctx.eq(alone.level_Hz, E * CM, 'energy of a row read on its own')
        ctx.eq(alone.lande, g, 'Lande factor of a row read on its own')


GIVEN = [('6s', '2S', 0.5), ('6p', '2P*', 1.5), ('6d', '2D', 2.5)]
PAIR = [('6p', '2P*', 0.5), ('6p', '2P*', 1.5), ('6d', '2P*', 1.5)]
ABSENT = [('7s', '2S', 0.5), ('6p', '2P*', 0.5), ('6p', '2P', 1.5), ('6s.(1S)', '2S', 0.5)]


def transition_cases(tier):
    pairs = [(0, 1), (1, 0), (1, 2), (2, 1)]
    out = [dict(first=a, second=b, jform='fraction', index=x) for x in ('default', 'filtered', 'ones')
           for a in (pairs if tier == 'thorough' or x == 'filtered' else pairs[1:3]) for b in pairs + ['first absent', 'second absent']
           if not (b != 'first absent' and b != 'second absent' and set(a) == set(b))]
    out += [dict(first=(2, 1), second=(0, 1), jform=f, index='default') for f in JTEXT]
    out += [dict(first=a, second=b, jform='float', index='text') for a in ('first absent', 'second absent') for b in ((0, 1), (2, 1))]
    out += [dict(first=a, second=b, jform='fraction', index='default', multiplet=True) for a, b in (((0, 1), (1, 2)), ((1, 0), 'second absent'))]
    out += [dict(first=(0, 2), second=b, jform='fraction', index='reversed') for b in ((1, 2), (2, 1), (0, 1))]
    return out


@harness('C17', cases=transition_cases,
         bounds='tables of two rows and any index, on an atom of three levels (also of one multiplet); every A coefficient and frequency (in Hz, THz, 1/cm or nm) '
                'given or missing; each row naming levels of the atom in either order or a level that is absent; all energies for which '
                'the assigned frequencies keep the order of the levels (all at least 1 Hz apart)',
         outside='rows without J; frequencies given without unit')
def transition_table(ctx, first, second, jform, index, multiplet=False):
    LEVELS = PAIR if multiplet else GIVEN
    E = [ctx.real(f'E{i}') for i in range(3)]
    for i in (0, 1):
        ctx.assume(E[i] + 1 < E[i + 1])
    atom = A.Atom('x', I=0.5)
    lv = [level(*LEVELS[i], E[i]) for i in range(3)]
    for x in (lv if ctx.flag('lowest first') else lv[::-1]):
        atom.add_level(x)
    now = list(E)
    rows, want = [], []
    present_first = not isinstance(first, str)
    for k, pair in enumerate((first, second)):
        present = not isinstance(pair, str)
        if present:
            names = [LEVELS[i] for i in pair]
        else:
            bad = ctx.pick('absent level', ABSENT if not multiplet else [('6p', '2P*', 2.5), ('6d', '2P*', 0.5)])
            names = [bad, LEVELS[1]] if pair == 'first absent' else [LEVELS[0], bad]
        f = ctx.real(f'frequency{k}', positive=True) if ctx.flag(f'frequency in row {k}') else None
        a = ctx.real(f'A{k}', nonneg=True) if ctx.flag(f'A coefficient in row {k}') else None
        unit = ctx.pick(f'unit{k}', (['Hz', 'THz', '1/cm', 'nm'] if first != (0, 2) else ['Hz', 'THz', '1/cm']) if (k == 0) == present_first else ['Hz']) if f is not None else None
        empty = [None, math.nan][(k + len(index)) % 2]
        row = {}
        for (c, t, J), s in zip(names, 'lu'):
            row.update({'conf_' + s: c, 'term_' + s: t, 'j_' + s: JTEXT[jform](J)})
        row['freq'] = empty if f is None else quantity(f, unit)
        row['A'] = empty if a is None else Q_(a / 10 ** 6, 'MHz')
        rows.append(row)
        if present:
            lo, up = sorted(pair)
            if f is not None:
                ctx.assume(f > 0)
                # levels linked to it by assigned transitions follow, the lowest of them stays
                if want and want[0][2] is not None:
                    lo0, up0, f0 = want[0][0], want[0][1], want[0][2]
                    e = list(now)
                    if (lo0, up0) == (0, 1):
                        e[2] = e[1] + f if (lo, up) == (1, 2) else e[0] + f
                    elif (lo0, up0) == (1, 2):
                        # (0, 1) is assigned: 0 is now the lowest, both others move
                        e[1] = e[0] + f
                        e[2] = e[1] + f0
                    elif (lo, up) == (0, 1):
                        e[1] = e[0] + f
                    else:
                        e[1] = e[2] - f
                    now = e
                else:
                    now[up] = now[lo] + f
            for i in (0, 1):
                ctx.assume(now[i] + 1 < now[i + 1])
            want.append((lo, up, f, a))
    df = pd.DataFrame({k: pd.Series([r[k] for r in rows], dtype=object) for k in rows[0]})
    if INDICES[index]:
        df.index = INDICES[index][:2]
    atom.populate_transitions_df(df)
    ctx.check(len(atom.transitions) == len(want), 'one transition per row with two known levels')
    ctx.check(len(atom.levels) == 3, 'the levels of the atom')
    for i in range(3):
        ctx.eq(lv[i].level_Hz, now[i], 'energies after the frequencies were assigned')
    for lo, up, f, a in want:
        t = atom.transitions[(lv[lo].name, lv[up].name)]
        ctx.check({id(t.E_1), id(t.E_2)} == {id(lv[lo]), id(lv[up])}, 'the levels of a row')
        ctx.eq(t.freq.to('Hz').magnitude, now[up] - now[lo], 'frequency of a row')
        if f is None:
            ctx.check(t.set_freq is None, 'no frequency assigned')
        else:
            ctx.eq(t.freq_Hz, f, 'assigned frequency of a row')
        if a is None:
            ctx.check(t.A is None, 'no A coefficient')
        else:
            ctx.eq(t.A.to('Hz').magnitude, a, 'A coefficient of a row')


def file_cases(tier):
    some = [('configuration', 'term', 'j', 'level', 'g', 'first', 'conf2', 'term2', 'second'),
            ('Configuration', 'Term', 'J', 'Level (cm-1)', 'Lande', 'Percentage', 'Configuration_2', 'Term_2', 'Percentage_2')]
    return [dict(names=some[(n + len(j)) % 2], n=n, jform=j, unit=u) for n in (1, 2, 3) for j in ('fraction', 'decimal', 'float')
            for u in ('', '?', ' / centimeter') if tier == 'thorough' or (u == '') == (j == 'fraction')]


@harness('C17', cases=file_cases,
         bounds='files of up to 3 levels, written with any names of the columns, all energies between 1 and 1000000 per cm bare, marked or with the unit the toolkit writes, Lande '
                'factors given or missing, a second component in one row or none; J as fraction or decimal',
         outside='energies written with an exponent or a sign and a unit at once; files without some of the columns')
def level_file(ctx, names, n, jform, unit):
    columns = dict(zip(('Configuration', 'Term', 'J', 'Level (cm-1)', 'Lande', 'Percentage', 'Configuration_2', 'Term_2', 'Percentage_2'), names))
    second, rows, want = ctx.pick('row with a second component', [None, *range(n)]), [], []
    for i in range(n):
        conf, term, L, S = TERMS[i]
        J = (0.5, 1.5, 2)[i]
        E = ctx.real(f'E{i}', 1, 10 ** 6)
        g = ctx.real(f'g{i}', -10, 10) if ctx.flag(f'Lande factor in row {i}') else None
        p = ctx.real(f'percentage{i}', 50, 100)
        q = ctx.real(f'second percentage{i}', 1, 49) if i == second else None
        est = ls_lande(J, L, S)
        text2 = '2F' + ('*' if '*' in term else '')
        if q is not None:
            est = (p * est + q * ls_lande(J, 3, 0.5)) / (p + q)
        rows.append([conf, term, JTEXT[jform](J), f'{E}' + (unit if i else unit.replace('?', ' *')), '' if g is None else f'{g}', f'{p}'] +
                    (['', '', ''] if q is None else ['other', text2, f'{q}']))
        want.append((f'{conf} {term}{ff(J)}', E, est if g is None else g, p, q))
    with scratch():
        with open('levels.csv', 'w', newline='', encoding='utf-8') as f:
            w = csv.writer(f)
            w.writerow(columns.values())
            w.writerows(rows)
        df = IO.load_level_data('levels.csv', columns)
    ctx.check(len(df) == n, 'one row per line of the file')
    for i, (name, E, g, p, q) in enumerate(want):
        ctx.eq(df.iloc[i]['Level (cm-1)'].to('1/cm').magnitude, E, 'energy of a line')
        ctx.eq(df.iloc[i]['Level (Hz)'].to('Hz').magnitude, E * CM, 'energy of a line in Hz')
    atom = A.Atom.from_dataframe(df, 'X', I=0.5)
    ctx.check(list(atom.levels.keys()) == [w[0] for w in want], 'names of the levels of a file')
    for name, E, g, p, q in want:
        lv = atom.levels[name]
        ctx.eq(lv.level_Hz, E * CM, 'energy of a level of a file')
        ctx.eq(lv.lande, g, 'Lande factor of a level of a file')
        ctx.check(len(lv.term) == (1 if q is None else 2), 'components of a level of a file')
        ctx.eq(lv.term.percentage, p, 'percentage of a level of a file')
        if q is not None:
            ctx.eq(lv.term[1].percentage, q, 'percentage of the second component of a level of a file')


@harness('C17', cases=lambda tier: [dict(names=m, jform=j, a=a) for m in ('A', 'A_coeff') for j in ('fraction', 'decimal') for a in (0, 1, 2)],
         bounds='files of three transitions, written with any names of the columns, any A coefficient in MHz given, missing or without column; '
                'one of them naming a level that is absent',
         outside='files with a column of frequencies, whose numbers have no unit')
def transition_file(ctx, names, jform, a):
    atom = A.Atom('x', I=0.5)
    lv = [level(*GIVEN[i], 10 ** 14 * (i + 1)) for i in range(3)]
    for x in lv:
        atom.add_level(x)
    keys = ('conf_l', 'term_l', 'j_l', 'conf_u', 'term_u', 'j_u')
    columns = {k: 'column ' + k for k in keys}
    if a:
        columns[names] = 'rate'
    absent = ctx.pick('absent level', ABSENT)
    lines, want = [], []
    for k, (x, y) in enumerate(((GIVEN[0], GIVEN[1]), (GIVEN[1], absent), (GIVEN[1], GIVEN[2]))):
        if ctx.flag(f'swapped{k}'):
            x, y = y, x
        v = ctx.real(f'A{k}', 0, 1000) if a == 2 or (a and k == 2) else None
        lines.append([x[0], x[1], JTEXT[jform](x[2]), y[0], y[1], JTEXT[jform](y[2])] + ([] if not a else ['' if v is None else f'{v}']))
        if k != 1:
            want.append((k // 2, k // 2 + 1, v))
    with scratch():
        with open('lines.csv', 'w', newline='', encoding='utf-8') as f:
            w = csv.writer(f)
            w.writerow(columns.values())
            w.writerows(lines)
        df = IO.load_transition_data('lines.csv', columns)
    atom.populate_transitions_df(df)
    ctx.check(len(atom.transitions) == 2, 'one transition per line with two known levels')
    for lo, up, v in want:
        t = atom.transitions[(lv[lo].name, lv[up].name)]
        if v is None:
            ctx.check(t.A is None, 'no A coefficient in the file')
        else:
            ctx.eq(t.A.to('MHz').magnitude, v, 'A coefficient of a line of the file')
