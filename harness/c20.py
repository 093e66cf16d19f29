"""C20  terms: names, copies, mixtures"""
from symx.registry import harness
from .common import same_text
from atomtoolkit.term import Term, MultiTerm

CONFS = [('4f14.6s', '2S'), ('3d7.(4P).4s.4p.(3P*)', '5D*'), ('4f13.(2F*<7/2>).5d.6s.(3D<1>)', '(7/2,1)*'), ('5p5.(2P*<3/2>).6p', '2[5/2]')]
QN = ('lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k')
SAME = ('conf', 'term', 'parity', 'J', 'J_frac', 'percentage', 'coupling', 'quantum_nums') + QN


def text(ctx, n):
    """n/2 as it is written"""
    if ctx.holds(n % 2 == 0):
        m = n // 2
        return f'{m}'
    return f'{n}/2'


def same(ctx, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return same_text(ctx, a, b)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(ctx, x, y) for x, y in zip(a, b))
    return ctx.holds(a == b)


def number(ctx, name, form, lo):
    """a quantum number (as given) and twice its value"""
    if form == 'text':
        n = ctx.int(name, lo, 81)
        return text(ctx, n), n
    if form == 'int':
        n = ctx.int(name, (lo - 1) // 2, 40)
        return n, 2 * n
    n = ctx.int(name, lo, 81)
    return n / 2, n


def _named(tier):
    return [dict(c=c, J=j, F=f, m=m) for c in range(len(CONFS)) for j in ('float', 'int', 'text')
            for f in (None, 'float', 'int', 'text') for m in (None, 'float', 'int', 'text')
            if (f is not None or m is None or (c, j, f) == (0, 'float', None)) and (c == 0 or (j, f, m).count('float') >= 2 or (j, f, m) == ('text', 'text', 'text'))]


@harness('C20', cases=_named,
         bounds='every J, F from 0 to 81/2 and mF from -81/2 to 81/2, each given as a float, an int or text; four configurations')
def names(ctx, c, J, F, m):
    conf, sym = CONFS[c]
    j, n = number(ctx, 'J', J, 0)
    parts, short = [sym + text(ctx, n)], sym + text(ctx, n)
    kw = {}
    if F:
        kw['F'], nf = number(ctx, 'F', F, 0)
        short = 'F=' + text(ctx, nf)
        parts.append(short)
    if m:
        kw['mF'], nm = number(ctx, 'mF', m, -81)
        short = 'mF=' + text(ctx, nm)
        parts.append(short)
    t = Term(conf, sym, j, **kw)
    ctx.eq(t.J * 2, n, 'J')
    ctx.check(same_text(ctx, t.J_frac, text(ctx, n)), 'J as a fraction')
    if F:
        ctx.eq(t.F * 2, nf, 'F')
        ctx.check(same_text(ctx, t.F_frac, text(ctx, nf)), 'F as a fraction')
    else:
        ctx.check(t.F is None and t.F_frac is None, 'no F')
    if m:
        ctx.eq(t.mF * 2, nm, 'mF')
        ctx.check(same_text(ctx, t.mF_frac, text(ctx, nm)), 'mF as a fraction')
    else:
        ctx.check(t.mF is None and t.mF_frac is None, 'no mF')
    ctx.check(same_text(ctx, t.term_name, ' '.join(parts)), 'the name without configuration')
    ctx.check(same_text(ctx, t.name, ' '.join([conf] + parts)), 'the full name')
    ctx.check(same_text(ctx, t.short_name, short), 'the short name')
    ctx.check(same_text(ctx, str(t), ' '.join(parts)), 'the term as text')


def copied(ctx, t, u, before, F, mF, what):
    for a, v in zip(SAME, before):
        ctx.check(same(ctx, getattr(u, a), v), f'{what}: {a} as in the original')
    ctx.check(same(ctx, u.F, F), f'{what}: F')
    ctx.check(same(ctx, u.mF, mF), f'{what}: mF')
    for a, v in zip(SAME, before):
        ctx.check(same(ctx, getattr(t, a), v), f'{what}: {a} of the original')
    w = Term(u.conf, u.term, u.J, F=F, mF=mF, percentage=u.percentage, quantum_nums=u.quantum_nums)
    for a in ('name', 'term_name', 'short_name'):
        ctx.check(same_text(ctx, getattr(u, a), getattr(w, a)), f'{what}: {a}')


def snap(t):
    return [getattr(t, a) for a in SAME]


@harness('C20', cases=lambda tier: [dict(c=c, own=o) for c in range(len(CONFS)) for o in (False, True)],
         bounds='every J, F, mF up to 40 and every percentage; quantum numbers read from the term symbol or given by the user (then '
                'symbolic); four configurations')
def copies(ctx, c, own):
    conf, sym = CONFS[c]
    J, F, mF = ctx.int('2J', 0, 81) / 2, ctx.int('2F', 0, 81) / 2, ctx.int('2mF', -81, 81) / 2
    p = ctx.real('percentage')
    qn = tuple(ctx.int(q, 0, 9) for i, q in enumerate(QN)) if own else None
    t = Term(conf, sym, J, percentage=p, quantum_nums=qn)
    if own:
        for q, v in zip(QN, qn):
            ctx.eq(getattr(t, q), v, f'{q} as given')
    b = snap(t)
    ctx.eq(t.percentage, p, 'the percentage')
    f = t.make_term_copy(F=F)
    copied(ctx, t, f, b, F, None, 'copy with F')
    ctx.check(t.F is None and t.mF is None, 'the original has no F')
    m = f.make_term_copy(mF=mF)
    copied(ctx, f, m, b, F, mF, 'copy with mF')
    ctx.check(f.mF is None and same(ctx, f.F, F), 'the original has no mF')
    both = t.make_term_copy(F=F, mF=mF)
    copied(ctx, t, both, b, F, mF, 'copy with F and mF')
    pos = t.make_term_copy(F, mF)
    copied(ctx, t, pos, b, F, mF, 'copy with F and mF by position')
    plain = t.make_term_copy()
    copied(ctx, t, plain, b, None, None, 'plain copy')
    ctx.check(m == t and f == t and plain == t, 'a copy equals its original')
    ctx.check(m is not t and plain is not t, 'a copy is another object')


ATTRS = ('conf', 'term', 'percentage', 'parity', 'J', 'F', 'mF', 'J_frac', 'F_frac', 'mF_frac', 'term_name', 'short_name', 'name',
         'coupling', 'quantum_nums') + QN


@harness('C20', cases=lambda tier: [dict(n=n, first=f) for n in (1, 2, 3) for f in range(4)] +
                                   ([dict(n=4, first=f) for f in range(4)] if tier == 'thorough' else []),
         bounds='mixtures of 1 to 3 components (4 in the thorough tier) with every combination of percentages, hence in every order; '
                'configurations rotated; every J, F, mF')
def mixtures(ctx, n, first):
    ps = [ctx.real(f'percentage{i}', 0, 100) for i in range(n)]
    J, F, mF = ctx.int('2J', 0, 21) / 2, ctx.int('2F', 0, 21) / 2, ctx.int('2mF', -21, 21) / 2
    ts = [Term(*CONFS[(i + first) % 4], J, percentage=p) for i, p in enumerate(ps)]
    for i in range(n):
        for k in range(i):
            ctx.assume(ps[i] != ps[k])
    m = MultiTerm(*ts)
    lead = ts[0]
    for t in ts[1:]:
        if ctx.holds(t.percentage > lead.percentage):
            lead = t

    def behaves(m, t, what):
        for a in ATTRS:
            ctx.check(same(ctx, getattr(m, a), getattr(t, a)), f'{what}: {a} is that of the leading component')
        ctx.check(m == t and t == t, f'{what}: equals its leading component')

    def holds_all(m, ts, what):
        ctx.check(len(m) == len(ts), f'{what}: every component is kept')
        for t in ts:
            k = [u for u in m if u.conf == t.conf and same(ctx, u.percentage, t.percentage)]
            ctx.check(len(k) == 1, f'{what}: component {t.conf} is there once')
        for a, b in zip(m[0:n - 1], m[1:n]):
            ctx.check(a.percentage > b.percentage, f'{what}: largest percentage first')
        return m
    behaves(m, lead, 'mixture')
    holds_all(m, ts, 'mixture')
    ctx.check(all(any(u is t for u in m) for t in ts), 'the components themselves')
    ctx.check(same_text(ctx, m.full_name, f'{lead.name} ({lead.percentage}%)'), 'the full name of a mixture')
    f = m.make_term_copy(F=F)
    z = f.make_term_copy(mF=mF)
    both = m.make_term_copy(F=F, mF=mF)
    for what, c, kw in (('copy with F', f, dict(F=F)), ('copy with mF', z, dict(F=F, mF=mF)), ('copy with both', both, dict(F=F, mF=mF))):
        holds_all(c, ts, what)
        behaves(c, lead.make_term_copy(**kw), what)
        for u in c:
            o = [t for t in ts if t.conf == u.conf][0]
            copied(ctx, o, u, snap(o), kw['F'], kw.get('mF'), f'{what}, component {u.conf}')
    ctx.check(all(t.F is None and t.mF is None for t in m), 'the original mixture has no F')
    holds_all(m, ts, 'mixture after copying')


@harness('C20', cases=lambda tier: [dict(n=n, same=s) for n, s in ((2, 2), (3, 2), (3, 3)) + (((4, 2), (4, 4)) if tier == 'thorough' else ())],
         bounds='mixtures of 2 or 3 components (4 in the thorough tier), some of equal percentage; every percentage, J, F, mF')
def ties(ctx, n, same):
    p = ctx.real('percentage', 0, 100)
    ps = [p] * same + [ctx.real(f'percentage{i}', 0, 100) for i in range(same, n)]
    J, F, mF = ctx.int('2J', 0, 21) / 2, ctx.int('2F', 0, 21) / 2, ctx.int('2mF', -21, 21) / 2
    ts = [Term(*CONFS[i], J, percentage=q) for i, q in enumerate(ps)]
    order = ctx.pick('order', [list(range(n)), list(range(n))[::-1], [*range(1, n), 0]])
    m = MultiTerm(*[ts[i] for i in order])
    f = m.make_term_copy(F=F)
    for what, c in (('mixture', m), ('copy with F', f), ('copy with F and mF', f.make_term_copy(mF=mF))):
        ctx.check(len(c) == n, f'{what}: components of equal percentage are kept')
        ctx.check(sorted(u.conf for u in c) == sorted(t.conf for t in ts), f'{what}: each component once')
        lead = [u for u in c if u.conf == c.conf]
        ctx.check(len(lead) == 1 and all(not ctx.holds(lead[0].percentage < u.percentage) for u in c), f'{what}: behaves like a component of largest percentage')
        for a in ('term', 'name', 'coupling', 'parity', 'quantum_nums'):
            ctx.check(same_(ctx, getattr(c, a), getattr(lead[0], a)), f'{what}: {a} is that of one leading component')


same_ = same
