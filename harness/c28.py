"""C28  cleaning of level tables in the format of the NIST database"""
import math
import os

import pandas as pd

from symx.registry import harness
from .common import same_text
from .c15 import scratch
from .c19 import Text, LETTERS
from atomtoolkit import IO

SERVED = {}


READ = pd.read_csv


def serve(url, *a, **k):
    """stands for the download"""
    if not url.startswith('https:'):
        return READ(url, *a, **k)
    SERVED['url'] = url
    return SERVED['table'].copy()


pd.read_csv = serve
C = 29979245800
COLUMNS = ('Configuration', 'Term', 'J', 'Level (cm-1)', 'Lande', 'Leading percentages')


class Row:
    """one listed row (the cells as the server sends them) and what the cleaned table has to say about it"""
    def __init__(self, ctx, i, kind):
        t = self.t = Text(ctx)
        t.n = 100 * i
        self.E, self.g = ctx.real(f'E{i}', 0, 10 ** 6), None
        self.level, self.lead, self.second = f'{self.E}', '', None
        self.J, self.listed = [t.number('1')[0]], True
        self.conf = t.shell('14') + t._char('123456789') + t._char('spdf')
        self.term = self.cell_term = t.mult()[0] + t.letter()[0]
        self.pct = 100
        getattr(self, kind)(ctx, i)

    def plain(self, ctx, i):
        self.g = ctx.real(f'g{i}', -10, 10)
        self.J = [self.t.number('h1')[0]]

    def odd(self, ctx, i):
        self.term = self.cell_term = self.term + '*'

    def prefixed(self, ctx, i):
        self.term = self.term + ctx.pick(f'mark{i}', ['', '*'])
        self.cell_term = self.t._char('abcdefghijklmnopqrstuvwxyz') + ' ' + self.term

    def queried(self, ctx, i):
        self.level = self.level + ctx.pick(f'mark{i}', ['?', ' ', ' ?'])

    def unknown(self, ctx, i):
        """levels without an absolute energy"""
        self.level = ctx.pick(f'level{i}', ['', f'[{self.level}]', f'{self.level}+x'])
        self.listed = False

    def several(self, ctx, i):
        a, b = self.t.number('h1')[0], self.t.number('h1')[0]
        sep = ctx.pick(f'separator{i}', [' or ', ',', ', '])
        self.J = [a, b]
        if ctx.flag(f'three{i}'):
            self.J.append(self.t.number('h1')[0])

        self.cell_J = sep.join(self.J)

    def numbers(self, ctx, i):
        k = ctx.pick(f'digits{i}', ['1', '2'])
        (p, self.pct), (q, self.q) = self.t.digits(int(k)), self.t.digits(int(k))
        return p, q

    def component(self, ctx, i):
        """a second component that repeats the core"""
        t, (p, q) = self.t, self.numbers(ctx, i)
        inner, j = f'5{t._char("spd")}2', t.number('h1')[0]
        head = t.shell('13') + (f'5{t._char("spd")}.' if ctx.flag(f'two open shells{i}') else '')
        self.conf = f'{head}({t.mult()[0]}{t.letter()[0]}*<7/2>).{inner}.({t.mult()[0]}{t.letter()[0]})'
        self.term = self.cell_term = f'{t.mult()[0]}[{t.number("h1")[0]}]*'
        other, term2 = f'(2F*<{j}>).{inner}.({t.mult()[0]}{t.letter()[0]})', f'{t.mult()[0]}[{t.number("h1")[0]}]*'
        self.lead = f'{p}                :    {q}  {other}            {term2}'
        self.second = head + other, term2

    def abbreviated(self, ctx, i):
        """a second component that gives only what is in brackets"""
        t, (p, q) = self.t, self.numbers(ctx, i)
        head, inner = t.shell('13'), f'5{t._char("spd")}2'
        self.conf = f'{head}({t.mult()[0]}F*<7/2>).{inner}.({t.mult()[0]}{t.letter()[0]})'
        a, b = f'{t.mult()[0]}F*<{t.number("h1")[0]}>', f'{t.mult()[0]}{t.letter()[0]}'
        term2 = f'{t.mult()[0]}[{t.number("h1")[0]}]*'
        self.lead = f'{p}                :    {q}        ({a})({b})   {term2}'
        self.second = f'{head}({a}).{inner}.({b})', term2

    def whole(self, ctx, i):
        """a second component given in full"""
        t, (p, q) = self.t, self.numbers(ctx, i)
        conf2, term2 = t.shell('14') + '6' + t._char('spdf'), t.mult()[0] + t.letter()[0] + '*'
        self.lead = f'{p}                :    {q}        {conf2}      {term2}'
        self.second = conf2, term2

    def termless(self, ctx, i):
        """a second component without a term symbol"""
        t, (p, q) = self.t, self.numbers(ctx, i)
        conf2 = t.shell('14') + '6' + t._char('spdf')
        self.lead = f'{p}                :    {q}        {conf2}'
        self.second = conf2, ''

    def jj(self, ctx, i):
        """a second component in JJ coupling, whose term is in its configuration"""
        t, (p, q) = self.t, self.numbers(ctx, i)
        large = ctx.flag(f'large{i}')
        head, inner, a, b = t.shell('13'), f'5d.6{t._char("spd")}', t.number('h2' if large else 'h1')[0], t.number('2' if large else '1')[0]
        self.conf = f'{head}(2F*<7/2>).{inner}.(3D<2>)'
        self.term = self.cell_term = '(7/2,2)*'
        self.lead = f'{p}                :    {q}                                 (2F*<{a}>)(3F*<{b}>)'
        self.second = f'{head}(2F*<{a}>).{inner}.(3F*<{b}>)', (a, b)

    def unnamed(self, ctx, i):
        """a level without leading term: the term is in the percentages"""
        t, (p, q) = self.t, self.numbers(ctx, i)
        head, inner = t.shell('13'), f'5{t._char("spd")}2'
        self.conf = f'{head}(2F*<7/2>).{inner}.(3P)'
        self.term, self.cell_term = f'{t.mult()[0]}[{t.number("h1")[0]}]*', ctx.pick(f'term{i}', ['', '*'])
        term2 = f'{t.mult()[0]}[{t.number("h1")[0]}]*'
        self.lead = f'{p}  {self.term}       :    {q}                                 (2F*<7/2>)(3F) {term2}'
        self.second = f'{head}(2F*<7/2>).{inner}.(3F)', term2

    def spinless(self, ctx, i):
        """a level without J"""
        self.J = ['']

    def blank(self, ctx, i):
        """a level without any term"""
        self.term = self.cell_term = ''

    cell_J = None

    def cells(self):
        return dict(zip(COLUMNS, (self.conf, self.cell_term, self.cell_J or self.J[0], self.level,
                                  '' if self.g is None else f'{self.g}', self.lead)))


KINDS = ('plain', 'odd', 'prefixed', 'queried', 'unknown', 'several', 'component', 'abbreviated', 'whole', 'termless', 'jj', 'unnamed', 'blank', 'spinless')
LIMITS = {'given': '98231.75', 'in brackets': '[98231.75]', 'unknown': '', 'missing': None}


def wrap(s):
    return f'="{s}"'


def run(ctx, kinds, limit, above, lande, leads, order):
    rows = [Row(ctx, i, k) for i, k in enumerate(kinds)]
    table = [r.cells() for r in rows]
    if LIMITS[limit] is not None:
        table.append(dict(zip(COLUMNS, ('Yb III (4f14 1S<0>)', 'Limit', '---', LIMITS[limit], '', ''))))
        table += [dict(zip(COLUMNS, ('4f14.9s', '2S', '1/2', str(99000 + i), '', ''))) for i in range(above)]
    columns = [c for c in COLUMNS if (c != 'Lande' or lande) and (c != 'Leading percentages' or leads)]
    SERVED['table'] = pd.DataFrame({c: pd.Series([wrap(r[c]) for r in table], dtype=object) for c in columns})
    df = IO.load_NIST_data('Yb II', term_ordered=order)
    ctx.check('spectrum=Yb+II&' in SERVED['url'], 'the table of the species is requested')
    ctx.check(('multiplet_ordered=on' in SERVED['url']) == order, 'the requested order')
    want = [(r, J) for r in rows if r.listed for J in r.J]
    ctx.check(len(df) == len(want), 'one row for each level and J below the limit')
    ctx.check(list(df.index) == list(range(len(want))), 'rows are numbered from 0')
    for n, (r, J) in enumerate(want):
        row = df.iloc[n]
        ctx.eq(row['Level (cm-1)'].to('1/cm').magnitude, r.E, 'energy in wavenumbers')
        ctx.eq(row['Level (Hz)'].to('Hz').magnitude, r.E * C, 'energy in Hz')
        ctx.check(same_text(ctx, row['J'].strip(), J), 'J')
        ctx.check(same_text(ctx, row['Configuration'], r.conf), 'configuration')
        if r.g is None or not lande:
            ctx.check(pd.isna(row['Lande']), 'no Lande factor')
        else:
            ctx.eq(row['Lande'], r.g, 'Lande factor')
        if not leads and r.cell_term in ('', '*') and r.term:
            continue
        ctx.check(same_text(ctx, row['Term'], r.term), 'term')
        ctx.eq(row['Percentage'], r.pct if leads else 100, 'percentage')
        if r.second is None or not leads:
            ctx.check(not isinstance(row['Configuration_2'], str) and row['Term_2'] == '' and pd.isna(row['Percentage_2']),
                      'no second component')
            continue
        conf2, term2 = r.second
        ctx.eq(row['Percentage_2'], r.q, 'percentage of the second component')
        ctx.check(same_text(ctx, row['Configuration_2'], conf2), 'configuration of the second component')
        if isinstance(term2, tuple):
            ctx.check(same_text(ctx, row['Term_2'].replace(' ', ''), f'({term2[0]},{term2[1]})'), 'term of the second component in JJ coupling')
        else:
            ctx.check(same_text(ctx, row['Term_2'], term2), 'term of the second component')


def pairs(tier):
    out = [dict(kinds=(k,)) for k in KINDS]
    if tier == 'thorough':
        return out + [dict(kinds=(a, b)) for a in KINDS for b in KINDS] + [dict(kinds=(a, b, 'jj')) for a in KINDS for b in KINDS]
    return out + [dict(kinds=(a, b)) for n, a in enumerate(KINDS) for b in (KINDS[(n + 1) % len(KINDS)], KINDS[(n + 5) % len(KINDS)])] + \
        [dict(kinds=('termless', 'jj')), dict(kinds=('plain', 'unknown', 'jj'))]


@harness('C28', cases=pairs,
         bounds='tables of 1 to 3 listed levels of 14 kinds (plain, odd, with prefix letter, queried, without absolute energy, '
                'several J, without J, without term, and seven forms of leading percentages) in the format of the importer\'s own '
                'comments; every energy and Lande factor, every multiplicity, letter, shell, J and percentage (1 or 2 digits) '
                'as symbolic numbers and characters; a numeric ionisation limit followed by one level above it',
         outside='the download itself; other layouts of the percentages column (single or three components); second '
                 'components whose brackets do not correspond to those of the first')
def cleaned(ctx, kinds):
    run(ctx, kinds, 'given', 1, True, True, False)


@harness('C28', cases=lambda tier: [dict(limit=m, above=n) for m in LIMITS for n in ((0, 1, 2) if m != 'missing' else (0,))],
         bounds='ionisation limit numeric, in brackets, without value or missing; none, one or two levels above it; with and '
                'without the columns of Lande factors and percentages; in either order')
def limits(ctx, limit, above):
    lande, leads = ctx.flag('Lande factors'), ctx.flag('percentages')
    run(ctx, ctx.pick('levels', [('plain',), ('unknown', 'odd'), ('component', 'unknown')]), limit, above, lande, leads, ctx.flag('term ordered'))


@harness('C28', cases=lambda tier: [dict(kinds=k, save=s) for k in (('plain', 'component'), ('odd', 'jj'), ('several', 'termless'), ('abbreviated', 'whole'))
                                    for s in (True, 'levels', 'levels.csv', 'levels.2')],
         bounds='tables of two levels with positive energies saved under a given name (with or without extension, or with a dot) or under the name of the '
                'species, and read again',
         outside='saved tables edited by hand; energies whose text has an exponent (below 0.0001 per cm)')
def saved(ctx, kinds, save):
    rows = [Row(ctx, i, k) for i, k in enumerate(kinds)]
    for r in rows:
        ctx.assume(r.E > 1)
    SERVED['table'] = pd.DataFrame({c: pd.Series([wrap(r.cells()[c]) for r in rows], dtype=object) for c in COLUMNS})
    with scratch():
        df = IO.load_NIST_data('Yb II', save=save)
        name = 'Yb II_level_data.csv' if save is True else 'levels.2.csv' if save == 'levels.2' else 'levels.csv'
        ctx.check(os.listdir('.') == [name], 'the table is saved under its name')
        back = IO.load_level_data(name, columns={c: c for c in df.columns})
    ctx.check(len(back) == len(df) and list(back.columns) == list(df.columns), 'every level is read again')
    want = [(r, J) for r in rows for J in r.J]
    for n, (r, J) in enumerate(want):
        a, b = df.iloc[n], back.iloc[n]
        ctx.eq(b['Level (cm-1)'].to('1/cm').magnitude, r.E, 'energy read again')
        ctx.eq(b['Level (Hz)'].to('Hz').magnitude, r.E * C, 'energy read again in Hz')
        for c in ('Lande', 'Percentage', 'Percentage_2'):
            if pd.isna(a[c]):
                ctx.check(pd.isna(b[c]), c + ' missing when read again')
            else:
                ctx.eq(b[c], a[c], c + ' read again')
        for c in ('J', 'Configuration', 'Term', 'Configuration_2', 'Term_2'):
            if c == 'J' and not isinstance(b[c], str):
                ctx.check(b[c] == float(a[c]), 'J read again as a number')
            elif isinstance(a[c], str) and a[c]:
                ctx.check(same_text(ctx, b[c].strip(), a[c].strip()), c + ' read again')
            else:
                ctx.check(not isinstance(b[c], str), c + ' missing when read again')
