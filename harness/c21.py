"""C21  estimated Lande factors"""
from symx.registry import harness
from .common import A, hz, ff, steps
from .c19 import Text
from .c22 import between, couplings
from atomtoolkit.term import Term, MultiTerm
from atomtoolkit.transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS

NAMES = ('lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k')


def ls_lande(ctx, J, L, S):
    return 0 if ctx.holds(J == 0) else 1 + 1.0023 * (J * (J + 1) + S * (S + 1) - L * (L + 1)) / (2 * J * (J + 1))


def term(symbol, J, pct=100.0, conf='4f13.(2F*<7/2>).5d', **q):
    return Term(conf, symbol, J, percentage=pct, quantum_nums=tuple(q.get(n) for n in NAMES))


def triangle(ctx, L, S, J):
    ctx.assume(J <= L + S)
    ctx.assume(J >= L - S)
    ctx.assume(J >= S - L)


@harness('C21', quick=dict(top=30), thorough=dict(top=200), cases=lambda tier: [dict(mark=m) for m in ('', '*')],
         bounds='LS terms: every L, S, J satisfying the triangle rules up to the bound (30 quick, 200 thorough) as symbolic values',
         outside='larger momenta')
def ls(ctx, mark, top):
    L = ctx.int('L', 0, top)
    S = ctx.half('S', 0, top)
    J = ctx.half('J', 0, top)
    triangle(ctx, L, S, J)
    ctx.assume((2 * S + 2 * J) % 2 == 0)
    t = term('2P' + mark, J, l=L, s=S)
    ctx.check(t.coupling == 'LS', 'coupling')
    lv = A.EnergyLevel(t, hz(ctx.real('E')))
    ctx.eq(lv.lande, ls_lande(ctx, J, L, S), 'estimated Lande factor of an LS term')
    ctx.eq(lv.compute_gJ(), ls_lande(ctx, J, L, S), 'estimated Lande factor computed again')
    g = ctx.real('g')
    ctx.eq(A.EnergyLevel(t, hz(0.0), lande=g).lande, g, 'a given Lande factor')
    p = ctx.real('percentage', positive=True)
    lv = A.EnergyLevel(MultiTerm(term('2P' + mark, J, p, l=L, s=S)), hz(0.0))
    ctx.eq(lv.lande, ls_lande(ctx, J, L, S), 'a single component with any percentage')


@harness('C21', cases=lambda tier: [dict(k=k, form=f, mark=m) for k in (1, 2) for f in ('1', 'h1') for m in ('', '*')],
         bounds='LS terms written with every multiplicity of 1 or 2 digits and every letter, J as 1-digit integer or half-integer '
                'in text; every combination, also those that no LS coupling gives')
def ls_text(ctx, k, form, mark):
    t = Text(ctx)
    (m, S), (c, L) = t.mult(k), t.letter()
    jt, J = t.number(form)
    lv = A.EnergyLevel(Term('4f14.6s', m + c + mark, jt), hz(0.0))
    ctx.eq(lv.lande, ls_lande(ctx, J, L, S), 'estimated Lande factor of a written LS term')


@harness('C21', cases=lambda tier: [dict(n=n, kind=k) for n in (2, 3) for k in ('any', 'J=0')],
         quick=dict(top=12), thorough=dict(top=60),
         bounds='mixtures of 2 or 3 LS terms: all percentages, every L, S, J up to the bound (12 quick, 60 thorough), in any order',
         outside='larger momenta')
def mixture(ctx, n, kind, top):
    J = ctx.half('J', 0.5, top) if kind == 'any' else 0
    parts = []
    for i in range(n):
        L, S, p = ctx.int(f'L{i}', 0, top), ctx.half(f'S{i}', 0, top), ctx.real(f'percentage{i}', positive=True)
        parts.append((L, S, p))
    if n == 3 and kind == 'any':      # an order of the percentages: the others are the same by renaming
        ctx.assume(parts[0][2] > parts[1][2])
        ctx.assume(parts[1][2] > parts[2][2])
    terms = [term('2P', J, p, conf=f'c{i}', l=L, s=S) for i, (L, S, p) in enumerate(parts)]
    if ctx.flag('reversed'):
        terms = terms[::-1]
    lv = A.EnergyLevel(MultiTerm(*terms), hz(0.0))
    want = sum(p * ls_lande(ctx, J, L, S) for L, S, p in parts) / sum(p for _, _, p in parts)
    ctx.eq(lv.lande, want, 'estimated Lande factor of a mixture')


def mean(ctx, J, out):
    ls, ss, am = (list(x) for x in out)
    return sum(a * a * ls_lande(ctx, J, l, s) for l, s, a in zip(ls, ss, am))


def state(ctx, kind, sc, so, lo, top):
    """the quantum numbers of a state and its recoupling"""
    lc = ctx.int('lc', 0, top)
    if not ctx.holds(lc >= lo + sc):
        lc = ctx.fork(lc)
    if kind == 'LK':
        K = between(ctx, 'K', lc, sc)
        J = between(ctx, 'J', K, so)
        return J, 'P 2[3/2]', dict(l=lc, k=K, sc=sc, so=so, lc=1, lo=2), LK_to_LS(J, lc, K, sc, so)
    Jc = between(ctx, 'core J', lc, sc)
    if kind == 'JK':
        K = between(ctx, 'K', Jc, lo)
        J = between(ctx, 'J', K, so)
        return J, '2[3/2]', dict(lc=lc, sc=sc, lo=lo, so=so, jc=Jc, k=K), JK_to_LS(J, Jc, K, lc, sc, lo, so)
    Jo = between(ctx, 'outer J', lo, so)
    J = between(ctx, 'J', Jc, Jo)
    return J, '(7/2, 3/2)', dict(lc=lc, sc=sc, lo=lo, so=so, jc=Jc, jo=Jo), JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)


def other_cases(tier):
    out = [dict(kind='LK', sc=a, so=b, lo=0) for a in (0.5, 1, 1.5) for b in (0.5, 1, 1.5)]
    out += [dict(kind='JK', sc=a, so=0.5, lo=c) for a in (0.5, 1) for c in (0, 1, 2)]
    out += [dict(kind='JJ', sc=a, so=0.5, lo=c) for a in (0.5, 1) for c in (0, 1, 2)]
    if tier == 'thorough':
        out += [dict(kind=k, sc=a, so=b, lo=c) for k in ('JK', 'JJ') for a in (0.5, 1, 1.5) for b in (0, 1) for c in (0, 1, 2, 3)]
    return out


@harness('C21', cases=other_cases, quick=dict(top=12), thorough=dict(top=40),
         bounds='LK, JK and JJ terms: every core L up to the bound (12 quick, 40 thorough) with core J, K, J as the triangle rules allow; '
                'spins up to 3/2 (LK) or 1 and 1/2, outer L up to 2; alone and mixed with an LS term of any L, S and percentages',
         outside='terms whose symbol leaves a quantum number open (Lande factor 0); larger momenta')
def other(ctx, kind, sc, so, lo, top):
    ctx.split_roots()
    J, symbol, q, out = state(ctx, kind, sc, so, lo, top)
    g = mean(ctx, J, out)
    t = term(symbol, J, **q)
    ctx.check(t.coupling == kind, 'coupling')
    ctx.eq(A.EnergyLevel(t, hz(0.0)).lande, g, 'estimated Lande factor')
    p, p2 = ctx.real('percentage', positive=True), ctx.real('second percentage', positive=True)
    L, S = 2, 1.5
    mixed = MultiTerm(term(symbol, J, p, **q), term('4D', J, p2, conf='other', l=L, s=S))
    ctx.eq(A.EnergyLevel(mixed, hz(0.0)).lande, (p * g + p2 * ls_lande(ctx, J, L, S)) / (p + p2),
           'estimated Lande factor mixed with an LS term')
