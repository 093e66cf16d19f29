"""C18  notation of quantum numbers"""
from symx.registry import harness
from .common import same_text
from atomtoolkit import util

LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'       # L = 0, 1, 2, ... (spectroscopic notation leaves out A, B, C, E and J)
ASCII = ''.join(chr(i) for i in range(32, 127))


def number(ctx, n, how):
    """the number n/2 as a float, an int or a fraction of another kind"""
    return n / 2 if how == 'float' else n


@harness('C18', bounds='every integer and half-integer from -500 to 500, given as a float')
def halves(ctx):
    n = ctx.int('twice the number', -1000, 1000)
    s = util.float_to_frac(n / 2)
    v = util.frac_to_float(s)
    ctx.eq(v * 2, n, 'parsing what was formatted gives the number back')
    if ctx.holds(n % 2 == 0):
        m = n // 2
        ctx.check(same_text(ctx, s, f'{m}'), 'an integer is written without a denominator')
    else:
        ctx.check(same_text(ctx, s, f'{n}/2'), 'a half-integer is an odd numerator over 2')
    ctx.check(same_text(ctx, util.float_to_frac(s), s), 'formatting a fraction changes nothing')


@harness('C18', bounds='every integer from -500 to 500, given as an int')
def ints(ctx):
    n = ctx.int('n', -500, 500)
    s = util.float_to_frac(n)
    ctx.check(same_text(ctx, s, f'{n}'), 'an integer is written without a denominator')
    ctx.eq(util.frac_to_float(s), n, 'parsing what was formatted gives the number back')
    ctx.eq(util.frac_to_float(n), n, 'a number is left alone')
    ctx.eq(util.frac_to_float(n / 2), n / 2, 'a number is left alone')
    ctx.check(util.float_to_frac(None) is None and util.frac_to_float(None) is None, 'no number')


def digits(ctx, k, prefix='d'):
    return ''.join(ctx.char(f'{prefix}{i}', '0123456789' if i or k == 1 else '123456789') for i in range(k))


def val(text):
    return sum(int(c) * 10 ** i for i, c in enumerate(reversed(text)))


def value(ctx, text):
    """the number the digits denote"""
    if not ctx.symbolic:
        return int(text)
    from symx import strs, engine
    total = engine.RF.const(0)
    for x in strs.items(text):
        total = total * engine.RF.const(10) + strs.digit_value(x)
    return engine.SymReal(total, 'int')


@harness('C18', cases=lambda tier: [dict(k=k, sign=s, form=f) for k in (1, 2, 3) for s in ('', '-')
                                    for f in ('whole', 'halves', 'fraction', 'point five', 'point zero')],
         bounds='every text of 1 to 3 digits with or without a minus sign: alone, over 2, over any single digit but 0, followed by ".5" '
                'or by ".0"',
         outside='longer numerators and other texts')
def texts(ctx, k, sign, form):
    d = digits(ctx, k)
    n = value(ctx, d)
    if sign:
        n = -n
    if form == 'whole':
        t, twice = sign + d, 2 * n
    elif form == 'halves':
        t, twice = sign + d + '/2', n
    elif form == 'fraction':
        q = ctx.pick('q', list(range(1, 10)))
        t = f'{sign}{d}/{q}'
        ctx.eq(util.frac_to_float(t) * q, n, 'a fraction denotes the quotient')
        return
    elif form == 'point five':
        t, twice = sign + d + '.5', 2 * n - 1 if sign else 2 * n + 1
    else:
        t, twice = sign + d + '.0', 2 * n
    ctx.eq(util.frac_to_float(t) * 2, twice, 'a text denotes its number')
    s = util.float_to_frac(t)
    ctx.eq(util.frac_to_float(s) * 2, twice, 'a text is rewritten as the same number')
    if form == 'halves':
        ctx.check(same_text(ctx, s, t), 'a fraction is left alone')
    elif form == 'point five':
        ctx.check(same_text(ctx, s, f'{twice}/2'), 'a half-integer is an odd numerator over 2')
    else:
        m = twice // 2
        ctx.check(same_text(ctx, s, f'{m}'), 'an integer is written without a denominator')


@harness('C18', bounds='every orbital angular momentum from 0 to 20, as an int or a float; every half-integer up to 41/2 between')
def l_letters(ctx):
    as_int = ctx.flag('given as an int')
    l = ctx.int('l', 0, 20, kind='int' if as_int else 'float')
    got = util.l_to_let(l)
    ctx.check(len(got) == 1 and got in LETTERS, 'one letter')
    ctx.eq(LETTERS.index(got), l, 'the letter of an orbital angular momentum')
    ctx.eq(util.let_to_l(got), l, 'the letter leads back')
    ctx.eq(util.let_to_l(got.lower()), l, 'the lower-case letter leads back')
    if not as_int:
        ctx.raises(ValueError, lambda: util.l_to_let(l + 0.5), 'a half-integer has no letter')


@harness('C18', bounds='every text of one or two printable ASCII characters')
def let_texts(ctx):
    n = ctx.pick('length', [1, 2])
    s = ''.join(ctx.char(f'c{i}', ASCII) for i in range(n))
    try:
        l = util.let_to_l(s)
    except Exception:
        for c in LETTERS + LETTERS.lower():
            ctx.check(not same_text(ctx, s, c), 'a known letter is accepted')
        return
    ctx.check(n == 1 and any(same_text(ctx, s, c) for c in LETTERS + LETTERS.lower()), 'anything but a known letter is rejected')
    want = LETTERS[l] if not ctx.symbolic else None
    if ctx.symbolic:
        want = util.l_to_let(l)
    ctx.check(same_text(ctx, want, s) or same_text(ctx, want.lower(), s), 'the letter denotes its position')


@harness('C18', bounds='numbers outside the table, given as text, empty text')
def odd_arguments(ctx):
    ctx.check(util.let_to_l('') is None, 'no letter, no angular momentum')
    ctx.raises(Exception, lambda: util.l_to_let(ctx.int('l', 21, 60)), 'beyond the last letter')
    ctx.raises(Exception, lambda: util.l_to_let('1'), 'text is no angular momentum')
