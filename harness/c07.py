"""C07  fine-structure selection rules"""
from symx.registry import harness
from .common import A, Q_, Term, MultiTerm, hz, level

CONF = {'(': '4f13.(2F*<7/2>).5d.(2D<5/2>)', '2[': '4f13.(2F*<5/2>).5d.6s.(3D)',
        'P ': '3p5.(2P*).4p', 'P*': '3p5.(2P*).4p'}


def lev(name, term, J, E):
    return level(name + '.' + CONF.get(term[:1], CONF.get(term[:2], '6s')), term, J, E)


EVEN = ['2P', '(7/2,5/2)', '2[5/2]', '', 'P 2[3/2]']
ODD = ['2P*', '(7/2,5/2)*', '2[5/2]*', '3D*', 'P* 2[3/2]', 'P 2[3/2]*']


def want(ctx, J1, J2, odd, same):
    """(E1, M1, E2) as truth values over symbolic J"""
    def tri(k):
        return ctx.all(J1 - J2 <= k, J2 - J1 <= k, J1 + J2 >= k)
    no = ctx.any(J1 < 0)
    return (tri(1) if odd else no, no if odd else tri(1), no if odd or same else tri(2))


def flags(ctx, t, J1, J2, odd, same, what):
    al = t.allowed_types
    ctx.check(len(al) == 3, what + 'three multipole types')
    for got, exp, name in zip(al, want(ctx, J1, J2, odd, same), ('E1', 'M1', 'E2')):
        ctx.iff(got, exp, f'{what}{name} allowed exactly by its rule')


def cases(tier):
    out = []
    for a in EVEN + ODD:
        for b in EVEN + ODD:
            if tier == 'thorough' or a in ('2P', '2P*') or b in ('2P', '2P*'):
                out.append(dict(t1=a, t2=b))
    return out


@harness('C07', cases=cases, quick=dict(top=1000), thorough=dict(top=100000),
         bounds="every half-integer J and J' of the same integrality up to 1000 (quick; 100000 thorough) as symbolic "
                'values; LS, JJ, JK, LK and empty terms with and without parity mark (all pairs thorough, pairs with an LS '
                'term quick); all energies, either order; configurations equal or not; inside or outside an atom with nuclear spin',
         outside='J above the bound')
def flags_of_pairs(ctx, t1, t2, top):
    J1 = ctx.half('J1', 0, top)
    J2 = J1 + ctx.int('dJ', -2 * top, 2 * top)
    ctx.assume(J2 >= 0)
    ctx.assume(J2 <= top)
    e1, e2 = ctx.real('E1'), ctx.real('E2')
    odd = ('*' in t1) != ('*' in t2)
    inside = ctx.flag('in an atom')
    same = ctx.flag('same configuration') and not (inside and t1 == t2)     # two levels of an atom need two names
    l1, l2 = lev('a', t1, J1, e1), lev('a' if same else 'b', t2, J2, e2)
    ctx.check(l1.term.parity == (-1 if '*' in t1 else 1) and l2.term.parity == (-1 if '*' in t2 else 1), 'parity')
    if inside:
        atom = A.Atom('x', I=1.5)
        atom.add_level(l1)
        atom.add_level(l2)
    flags(ctx, A.Transition(l1, l2), J1, J2, odd, False, '')
    flags(ctx, A.Transition(l2, l1), J1, J2, odd, False, 'reversed: ')


@harness('C07', quick=dict(top=1000), thorough=dict(top=100000),
         bounds='a level with itself, and two distinct levels with equal quantum numbers; every J up to the bound')
def self_transition(ctx, top):
    J = ctx.half('J', 0, top)
    t = ctx.pick('term', EVEN + ODD)
    l = lev('a', t, J, ctx.real('E'))
    if ctx.flag('in an atom'):
        A.Atom('x', I=0.5).add_level(l)
    flags(ctx, A.Transition(l, l), J, J, False, True, 'a level with itself: ')
    m = lev('b', t, J, ctx.real('E2'))
    flags(ctx, A.Transition(l, m), J, J, False, False, 'equal quantum numbers: ')


@harness('C07', quick=dict(top=1000), thorough=dict(top=100000),
         bounds='a level of two mixed terms (percentages in either order) and one term; every J up to the bound')
def mixed(ctx, top):
    J1 = ctx.half('J1', 0, top)
    J2 = J1 + ctx.int('dJ', -3, 3)
    ctx.assume(J2 >= 0)
    a, b = ctx.real('pa', 0, 100), ctx.real('pb', 0, 100)
    ctx.assume(a != b)
    l1 = A.EnergyLevel(MultiTerm(Term('a', '2P', J1, percentage=a), Term('a', '2D*', J1, percentage=b)), hz(0.0),
                       lande=1.0)
    l2 = lev('b', '2S', J2, ctx.real('E2'))
    odd = not (a > b)
    flags(ctx, A.Transition(l1, l2), J1, J2, odd, False, 'mixed term: ')


CONFS = {'LS': ('6s', '4f13.(2F*).5d.6s.(3D)', '4f13.(2F*<7/2>).6s', '5p5.(2P*).6p.(2P*)', ''),
         'JJ': ('4f13.(2F*<7/2>).5d.(2D<5/2>)', '3d9.(2D<5/2>).4p.(2P*<3/2>)', '5p5.(2P*<3/2>).6p.(2P*<1/2>)',
                '3d9.(2D<5/2>).4d.(2D<3/2>)'),
         'JK': ('4f13.(2F*<5/2>).5d.6s.(3D)', '3d9.(2D<5/2>).4s.4p.(3P*)', '5p5.(2P*<3/2>).6s.6p.(3P*)', '3d9.(2D<5/2>).6g'),
         'LK': ('3p5.(2P*).4p', '3d9.(2D).4p', '3p5.(2P*).4s.4p.(3P*)', '3d9.(2D).4d')}
TERMS = {'LS': ('2P', '3D', '11H', ''), 'JJ': ('(7/2,5/2)', '(3/2,1/2)', '(5/2,2)'), 'JK': ('2[5/2]', '2[3]'),
         'LK': ('P 2[3/2]', 'P2[3/2]', 'D 2[1]')}


@harness('C07', cases=lambda tier: [dict(kind=k) for k in TERMS], quick=dict(top=1000), thorough=dict(top=100000),
         bounds='19 configurations with none, one and two odd-parity marks of their own, with 3 or 4 term symbols of each '
                'coupling, marked or not, to a marked or unmarked LS term; every J up to the bound')
def marks(ctx, kind, top):
    conf, t = ctx.pick('configuration', CONFS[kind]), ctx.pick('term', TERMS[kind])
    mark = ctx.pick('mark', ['', '*'] if t else [''])
    t = t.replace(' ', mark + ' ') if mark and ' ' in t and ctx.flag('mark on the orbital part') else t + mark
    J = ctx.half('J', 0, top)
    tm = Term(conf, t, J)
    ctx.check(tm.parity == (-1 if mark else 1), 'parity is odd exactly when the term symbol is marked')
    for o in (False, True):
        l1 = A.EnergyLevel(tm, hz(ctx.real('E')), lande=1.0)
        l2 = lev('b', '2P*' if o else '2P', J, 0.0)
        flags(ctx, A.Transition(l1, l2), J, J, bool(mark) != o, False, 'marks: ')
