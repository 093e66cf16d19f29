"""C19  parsing of term symbols"""
from symx.registry import harness
from atomtoolkit import util
from atomtoolkit.term import Term

LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'
NAMES = ('lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k')


class Text:
    """pieces of a term symbol with the numbers they denote"""
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def _char(self, options):
        self.n += 1
        return self.ctx.char(f'c{self.n}', options)

    def _pos(self, c, options):
        if not self.ctx.symbolic:
            return options.index(c)
        from symx import strs, engine
        it = strs.items(c)[0]
        return options.index(it) if type(it) is str else engine.SymReal(engine.RF(engine.Poly.var(it.var)), 'int')

    def digits(self, k):
        t, v = '', 0
        for i in range(k):
            o = '0123456789' if i or k == 1 else '123456789'
            c = self._char(o)
            t += c
            v = v * 10 + self._pos(c, o) + (0 if i or k == 1 else 1)
        return t, v

    def mult(self, k=1):
        o = '123456789'
        if k == 1:
            c = self._char(o)
            return c, self._pos(c, o) / 2
        t, v = self.digits(k)
        return t, (v - 1) / 2

    def letter(self):
        c = self._char(LETTERS)
        return c, self._pos(c, LETTERS)

    def small(self):
        c = self._char(LETTERS.lower())
        return c, self._pos(c, LETTERS.lower())

    def number(self, form):
        """'1', '2': whole number of that many digits; 'h1', 'h2': such a number over 2"""
        if form[0] == 'h':
            t, v = self.digits(int(form[1]))
            return t + '/2', v / 2
        return self.digits(int(form))

    def shell(self, n=''):
        """an inner shell such as 4f13."""
        return self._char('123456789') + self._char('spdfghik') + n + '.'


def verify(ctx, conf, term, odd, coupling, want):
    ctx.check(util.get_term_coupling(term) == coupling, 'the coupling scheme')
    got = util.get_quantum_nums(conf, term)
    ctx.check(len(got) == 9, 'nine quantum numbers')
    t = Term(conf, term, 1.5)
    ctx.check(t.coupling == coupling, 'the coupling scheme of a Term')
    ctx.check(t.parity == (-1 if odd else 1), 'the parity')
    ctx.check(t.conf is conf or t.conf == conf, 'the configuration')
    for n, v in zip(NAMES, got):
        if n in want and want[n] == 'any':
            continue
        if n not in want:
            ctx.check(v is None and getattr(t, n) is None, f'{n} is absent')
        else:
            ctx.check(v is not None, f'{n} is present')
            ctx.eq(v, want[n], n)
            ctx.eq(getattr(t, n), want[n], f'{n} of a Term')


M = ('', '*')


@harness('C19', cases=lambda tier: [dict(k=k, mark=m, conf=c) for k in (1, 2) for m in M
                                    for c in ('4f14.6s', '', '3d7.(4P).4s.4p.(3P*)', '4f13.(2F*<7/2>).6s')],
         bounds='multiplicities of 1 or 2 digits, all letters')
def ls(ctx, k, mark, conf):
    t = Text(ctx)
    (m, s), (c, l) = t.mult(k), t.letter()
    verify(ctx, conf, m + c + mark, bool(mark), 'LS', dict(l=l, s=s))


NUM = ('1', 'h1', 'h2', '2')


def _jj(tier):
    out = []
    for where in ('conf', 'term', 'mixed'):
        for a in NUM:
            for b in NUM:
                for m in M:
                    out.append(dict(where=where, a=a, b=b, mark=m))
    return out


@harness('C19', cases=_jj,
         bounds='core and outer J as 1- or 2-digit integers or halves of such; multiplicities of 1 digit (2 for the core when its J has 2 digits), '
                'all letters, parents in the configuration or in the term symbol, with parity marks on parents or not, bare parents and '
                'inner shells between',
         outside='the spin of a single electron written as e.g. 4p<3/2> (the test suite fixes it to 0)')
def jj(ctx, where, a, b, mark):
    t = Text(ctx)
    p, q = (mark, '') if a[0] == 'h' else ('', mark)
    (m1, s1), (l1, L1), (j1, J1) = t.mult(2 if a[-1] == '2' else 1), t.letter(), t.number(a)
    (m2, s2), (l2, L2), (j2, J2) = t.mult(), t.letter(), t.number(b)
    if where == 'conf':
        gap = '' if b[0] == 'h' else ' '
        conf = f'{t.shell("13")}({m1}{l1}{p}<{j1}>).{t.shell()}({t.mult()[0]}{t.letter()[0]}{q}).{t.shell()}({m2}{l2}{q}<{j2}>)'
        term = f'{gap}({j1},{gap}{j2}){mark}'
    elif where == 'term':
        conf = f'{t.shell("9")}{t.shell()[:-1]}'
        term = f'({m1}{l1}{p}<{j1}>,{m2}{l2}{q}<{j2}>){mark}'
    else:
        conf = f'{t.shell("13")}({m1}{l1}{p}<{j1}>){t.shell()}({m2}{l2}{q}<{j2}>)'
        term = f'({j1}, {j2}){mark}'
    verify(ctx, conf, term, bool(mark), 'JJ', dict(lc=L1, sc=s1, lo=L2, so=s2, jc=J1, jo=J2))


@harness('C19', cases=lambda tier: [dict(a=a, b=b, mark=m, core=c) for a in NUM for b in ('h1', '1') for m in M
                                    for c in ('parent', 'pair')],
         bounds='a single outer electron written as in 4p<3/2>; the core a parent term or a coupled pair of which only J is known')
def jj_electron(ctx, a, b, mark, core):
    t = Text(ctx)
    (j1, J1), (j2, J2), (lo, Lo) = t.number(a), t.number(b), t.small()
    if core == 'parent':
        (m1, s1), (l1, L1) = t.mult(), t.letter()
        conf = f'{t.shell("9")}({m1}{l1}{mark}<{j1}>).{t._char("123456789")}{lo}<{j2}>'
        want = dict(lc=L1, sc=s1)
    else:
        conf = f'{t.shell("4")[:-1]}{t.shell("5")}({t.number("1")[0]},{t.number("h1")[0]}){mark}<{j1}>.{t._char("123456789")}{lo}<{j2}>'
        want = {}
    verify(ctx, conf, f'({j1}, {j2}){mark}', bool(mark), 'JJ', dict(want, lo=Lo, so='any', jc=J1, jo=J2))


@harness('C19', cases=lambda tier: [dict(a=a, b=b, mark=m, outer=o) for a in NUM for b in NUM for m in M
                                    for o in ('electron', 'parent')],
         bounds='core J and K as 1- or 2-digit integers or halves of such; the outer part a single electron or a parent term; '
                'multiplicities of 1 digit, all letters')
def jk(ctx, a, b, mark, outer):
    t = Text(ctx)
    p = mark if b[0] == 'h' else ''
    (m1, s1), (l1, L1), (j1, J1) = t.mult(), t.letter(), t.number(a)
    (mo, so), (k, K) = t.mult(), t.number(b)
    if outer == 'electron':
        lo, Lo = t.small()
        conf = f'{t.shell("13")}({m1}{l1}{p}<{j1}>).{t._char("123456789")}{lo}'
    else:
        lo, Lo = t.letter()
        dot = '.' if a[0] == 'h' else ''
        conf = f'{t.shell("13")}({m1}{l1}{p}<{j1}>){dot}{t.shell("2")}({mo}{lo}{mark})'
    verify(ctx, conf, f'{mo}[{k}]{mark}', bool(mark), 'JK', dict(lc=L1, sc=s1, lo=Lo, so=so, jc=J1, k=K))


@harness('C19', cases=lambda tier: [dict(b=b, mark=m, gap=g, outer=o, first=f) for b in NUM for m in M for g in ('', ' ') for f in M
                                    for o in ('electron', 'parent')],
         bounds='K as a 1- or 2-digit integer or half of one; the outer part a single electron or a parent term; multiplicities of '
                '1 digit, all letters; with and without the space between letter and multiplicity')
def lk(ctx, b, mark, gap, outer, first):
    t = Text(ctx)
    p = mark if b[0] == 'h' else ''
    (m1, s1), (l1, L1), (l, L) = t.mult(), t.letter(), t.letter()
    (mo, so), (k, K) = t.mult(), t.number(b)
    if outer == 'electron':
        lo, Lo = t.small()
        conf = f'{t.shell("2")}{t.shell()}({m1}{l1}{p}).{t._char("123456789")}{lo}'
    else:
        lo, Lo = t.letter()
        conf = f'{t.shell("7")}({m1}{l1}{p}).{t.shell()}{t.shell()}({mo}{lo}{mark})'
    verify(ctx, conf, f'{l}{first}{gap}{mo}[{k}]{mark}', bool(first or mark), 'LK', dict(lc=L1, sc=s1, lo=Lo, so=so, l=L, k=K))
