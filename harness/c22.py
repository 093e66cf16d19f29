"""C22  recoupling to LS"""
from symx.registry import harness
from .common import steps, ff, same_text
from atomtoolkit import util
from atomtoolkit.transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS

LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'


def between(ctx, name, a, b):
    """some coupling of a and b; the smaller of them, b, is concrete"""
    n = ctx.fork(ctx.int(name, 0, int(2 * b)))
    c = a - b + n
    ctx.assume(c >= b - a)
    return c


def listed(ctx, out, Ls, Ss, J):
    """every pair once, probabilities sum to one, nothing that cannot couple to J"""
    ls, ss, am = (list(x) for x in out)
    want = [(L, S) for L in Ls for S in Ss]
    ctx.check(len(ls) == len(ss) == len(am) == len(want), 'number of components')
    left = list(want)
    for l, s in zip(ls, ss):
        for w in left:
            if ctx.holds(l == w[0]) and ctx.holds(s == w[1]):
                left.remove(w)
                break
        else:
            ctx.check(False, 'an (L, S) that is no coupling or is listed twice')
    ctx.check(not left, 'every (L, S) is listed')
    total = 0
    for l, s, a in zip(ls, ss, am):
        total = total + a * a
        if not (ctx.holds(J <= l + s) and ctx.holds(J >= l - s) and ctx.holds(J >= s - l)):
            ctx.eq(a, 0, 'amplitude of an (L, S) that cannot couple to J')
    ctx.eq(total, 1, 'probabilities sum to one')


def orthogonal(ctx, one, two, same, what):
    """states that differ in an intermediate quantum number have orthogonal components"""
    total = 0
    for x, y in zip(list(one[2]), list(two[2])):
        total = total + x * y
    ctx.eq(total, 1 if same else 0, what)


def coupled(ctx, a, b, c):
    return ctx.holds(a + b >= c) and ctx.holds(a + c >= b) and ctx.holds(b + c >= a)


def couplings(ctx, a, b):
    out = []
    for i in range(int(2 * b) + 1):
        c = a - b + i
        if ctx.holds(c >= b - a):
            out.append(c)
    return out


SPINS = [0, 0.5, 1, 1.5, 2]


@harness('C22', cases=lambda tier: [dict(sc=a, so=b) for a in SPINS + ([2.5, 3] if tier == 'thorough' else [])
                                    for b in SPINS + ([2.5] if tier == 'thorough' else [])],
         quick=dict(top=30), thorough=dict(top=100),
         bounds='LK coupling: every L up to the bound (30 quick, 100 thorough), K and J allowed by the triangle rules; spins of up to 2 '
                '(3 thorough)',
         outside='larger L and spins')
def lk(ctx, sc, so, top):
    ctx.split_roots()
    L = ctx.int('L', 0, top)
    K = between(ctx, 'K-L+sc', L, sc)
    J = between(ctx, 'J-K+so', K, so)
    out = LK_to_LS(J, L, K, sc, so)
    listed(ctx, out, [L], steps(abs(sc - so), sc + so), J)
    for K2 in couplings(ctx, L, sc):
        if coupled(ctx, K2, so, J):
            orthogonal(ctx, out, LK_to_LS(J, L, K2, sc, so), ctx.holds(K2 == K), 'states of different K are orthogonal')


def jk_cases(tier):
    return [dict(sc=a, so=b, lo=c) for a in ([0, 0.5, 1, 1.5] if tier == 'quick' else [0, 0.5, 1, 1.5, 2])
            for b in ([0.5, 1] if tier == 'quick' else [0, 0.5, 1, 1.5]) for c in ([0, 1, 2] if tier == 'quick' else [0, 1, 2, 3])]


@harness('C22', cases=jk_cases, quick=dict(top=20), thorough=dict(top=60),
         bounds='JK coupling: every core L up to the bound (20 quick, 60 thorough), core J, K and J allowed by the triangle rules; core spin '
                'up to 3/2 (2 thorough), outer spin 1/2 and 1 (up to 3/2), outer L up to 2 (3)',
         outside='larger momenta')
def jk(ctx, sc, so, lo, top):
    ctx.split_roots()
    lc = ctx.int('lc', 0, top)
    if not ctx.holds(lc >= lo + sc):
        lc = ctx.fork(lc)
    Jc = between(ctx, 'Jc-lc+sc', lc, sc)
    K = between(ctx, 'K-Jc+lo', Jc, lo)
    J = between(ctx, 'J-K+so', K, so)
    out = JK_to_LS(J, Jc, K, lc, sc, lo, so)
    listed(ctx, out, couplings(ctx, lc, lo), steps(abs(sc - so), sc + so), J)
    for Jc2 in couplings(ctx, lc, sc):
        for K2 in couplings(ctx, Jc2, lo):
            if coupled(ctx, K2, so, J):
                orthogonal(ctx, out, JK_to_LS(J, Jc2, K2, lc, sc, lo, so), ctx.holds(K2 == K) and ctx.holds(Jc2 == Jc),
                           'states of different core J or K are orthogonal')


def jj_cases(tier):
    out = []
    for sc in ([0.5, 1] if tier == 'quick' else [0, 0.5, 1, 1.5]):
        for lo, so in ([(0, 0.5), (1, 0.5), (2, 0.5), (1, 1)] if tier == 'quick'
                       else [(0, 0.5), (1, 0.5), (2, 0.5), (3, 0.5), (0, 1), (1, 1), (2, 1), (2, 0)]):
            out += [dict(sc=sc, lo=lo, so=so, Jo=j) for j in steps(abs(lo - so), lo + so)]
    return out


@harness('C22', cases=jj_cases, quick=dict(top=15), thorough=dict(top=40),
         bounds='JJ coupling: every core L up to the bound (15 quick, 40 thorough), core J and J allowed by the triangle rules; core spin 1/2 '
                'and 1 (up to 3/2 thorough), outer L up to 2 (3) and outer spin up to 1',
         outside='larger momenta')
def jj(ctx, sc, lo, so, Jo, top):
    ctx.split_roots()
    lc = ctx.int('lc', 0, top)
    if not ctx.holds(lc >= lo + sc):
        lc = ctx.fork(lc)
    Jc = between(ctx, 'Jc-lc+sc', lc, sc)
    J = between(ctx, 'J-Jc+Jo', Jc, Jo)
    out = JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)
    listed(ctx, out, couplings(ctx, lc, lo), steps(abs(sc - so), sc + so), J)
    for Jc2 in couplings(ctx, lc, sc):
        for Jo2 in steps(abs(lo - so), Jo):
            if coupled(ctx, Jc2, Jo2, J):
                orthogonal(ctx, out, JJ_to_LS(J, Jc2, Jo2, lc, sc, lo, so), Jo2 == Jo and ctx.holds(Jc2 == Jc),
                           'states of different core or outer J are orthogonal')


def readable(ctx, got, out):
    """percentages under term symbols 2S+1 L, exactly for the components with a non-zero amplitude"""
    got = list(got)
    for l, s, a in zip(*(list(x) for x in out)):
        if ctx.holds(a * a == 0):
            continue
        ctx.check(len(got) > 0, 'a component is missing from the readable form')
        sym, pct = got.pop(0)
        l = ctx.fork(l)
        ctx.check(same_text(ctx, sym, f'{int(2 * s + 1)}{LETTERS[int(l)]}'), 'term symbol of a component')
        ctx.check(ctx.all(pct - 100 * a * a <= 0.00501, 100 * a * a - pct <= 0.00501), 'percentage of a component')
    ctx.check(not got, 'a component too many in the readable form')


@harness('C22', cases=lambda tier: [dict(kind=k, mark=m, sc2=c, so2=o) for k in ('LK', 'JK', 'JJ') for m in ('', '*')
                                    for c in ((1, 2) if tier == 'quick' else (0, 1, 2, 3)) for o in ((1,) if tier == 'quick' else (1, 2))],
         quick=dict(top=5), thorough=dict(top=12),
         bounds='the readable form, from the quantum numbers and from term symbols, of LK, JK and JJ states: core L up to the bound (5 quick, '
                '12 thorough), core spin 1/2 and 1 (up to 3/2), outer spin 1/2 (and 1), outer L 0 to 2 (S, P, D parents)',
         outside='an LS term, which is reported as itself')
def human_readable(ctx, kind, mark, sc2, so2, top):
    sc, so = sc2 / 2, so2 / 2
    lc = int(ctx.fork(ctx.int('core L', 0, top)))
    lo = ctx.pick('outer L', [0, 1, 2]) if kind != 'LK' else 1
    core = f'{sc2 + 1}{LETTERS[lc]}'
    outer = f'{so2 + 1}{LETTERS[lo]}'
    if kind == 'LK':
        K = between(ctx, 'K', lc, sc)
        J = between(ctx, 'J', K, so)
        out = LK_to_LS(J, lc, K, sc, so)
        direct = util.readable_LK_to_LS(J, lc, K, sc, so)
        conf, term = f'4f2.({core}).5d.({outer})', f'{LETTERS[lc]} {so2 + 1}[{ff(K)}]{mark}'
    elif kind == 'JK':
        Jc = between(ctx, 'core J', lc, sc)
        K = between(ctx, 'K', Jc, lo)
        J = between(ctx, 'J', K, so)
        out = JK_to_LS(J, Jc, K, lc, sc, lo, so)
        direct = util.readable_JK_to_LS(J, Jc, K, lc, sc, lo, so)
        conf, term = f'4f13.({core}{mark}<{ff(Jc)}>).5d.({outer})', f'{so2 + 1}[{ff(K)}]{mark}'
    else:
        Jc = between(ctx, 'core J', lc, sc)
        Jo = between(ctx, 'outer J', lo, so)
        J = between(ctx, 'J', Jc, Jo)
        out = JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)
        direct = util.readable_JJ_to_LS(J, Jc, Jo, lc, sc, lo, so)
        conf, term = f'4f13.({core}{mark}<{ff(Jc)}>).5d.({outer}<{ff(Jo)}>)', f'({ff(Jc)},{ff(Jo)}){mark}'
    readable(ctx, direct, out)
    readable(ctx, util.term_to_LS(conf, term, J), out)
