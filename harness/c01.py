"""C01  hyperfine and Zeeman structure"""
from symx.registry import harness
from .common import A, Q_, Term, MultiTerm, hz, level, steps, ff


def build(ctx, top, Itop):
    I = ctx.fork(ctx.half('I', 0, Itop))
    J = ctx.fork(ctx.half('J', 0, top))
    how = ctx.pick('nuclear spin given as', ['float', 'text', 'int'])
    if how == 'int':
        ctx.assume(I == int(I))
    spin = {'float': I, 'text': ff(I), 'int': int(I)}[how]
    atom = A.Atom('x', I=spin, B=Q_(ctx.real('B'), 'G'))
    return atom, I, J


def all_states(ctx, atom, lv, I, J, what):
    Fs = steps(abs(I - J), I + J)
    ctx.check(len(lv) == len(Fs), what + 'number of hyperfine sublevels')
    ctx.check(sorted(lv.keys()) == sorted('F=' + ff(F) for F in Fs), what + 'keys of the hyperfine sublevels')
    ctx.check(len(list(lv)) == len(Fs) and len(lv.sublevels()) == len(Fs) and len(lv.items()) == len(Fs),
              what + 'iteration over the hyperfine sublevels')
    total = 0
    for F in Fs:
        h = lv['F=' + ff(F)]
        ctx.check(any(x is h for x in lv.values()), what + 'the sublevel under a key is one of the values')
        t = h.term
        ctx.check(t.F == F and t.J == J and t.mF is None, what + 'quantum numbers of a hyperfine sublevel')
        ctx.check((t.conf, t.term) == (lv.term.conf, lv.term.term), what + 'term of a hyperfine sublevel')
        ctx.check(h.parent is lv and h.manifold is lv and h.atom is atom, what + 'owner of a hyperfine sublevel')
        ctx.check(h.name == lv.name + ' F=' + ff(F), what + 'name of a hyperfine sublevel')
        ms = steps(-F, F)
        ctx.check(len(h) == len(ms), what + 'number of Zeeman sublevels')
        ctx.check(sorted(h.keys()) == sorted('mF=' + ff2(m) for m in ms), what + 'keys of the Zeeman sublevels')
        for m in ms:
            z = h['mF=' + ff2(m)]
            ctx.check(any(x is z for x in h.values()), what + 'the Zeeman sublevel under a key is one of the values')
            t = z.term
            ctx.check(t.mF == m and t.F == F and t.J == J, what + 'quantum numbers of a Zeeman sublevel')
            ctx.check((t.conf, t.term) == (lv.term.conf, lv.term.term), what + 'term of a Zeeman sublevel')
            ctx.check(z.parent is h and z.manifold is lv and z.atom is atom, what + 'owner of a Zeeman sublevel')
            total += 1
    ctx.check(total == (2 * I + 1) * (2 * J + 1), what + 'number of states')


def ff2(m):
    return ff(m) if m >= 0 else '-' + ff(-m)


@harness('C01', cases=lambda tier: [dict(path=p, eager=e) for p in ('add', 'parent', 'two', 'mixed')
                                    for e in (False, True)],
         quick=dict(top=3, Itop=2.5), thorough=dict(top=6.5, Itop=5),
         bounds='every half-integer J <= top (3 quick, 13/2 thorough) and I <= Itop (5/2 quick, 5 thorough), spin given '
                'as number or text, energies, coefficients and field arbitrary; level added to the atom, created with '
                'the atom as parent, one of two, or with mixed terms; sublevels generated lazily or on addition',
         outside='I or J above the bounds')
def structure(ctx, path, eager, top, Itop):
    atom, I, J = build(ctx, top, Itop)
    e, a, b, c = ctx.real('E'), ctx.real('A'), ctx.real('hfB'), ctx.real('C')
    if path == 'parent':
        lv = level('c', '2P*', J, e, 1.5, a, b, c, parent=atom)
        if eager:
            atom.add_level(lv, populate_sublevels=True)
        all_states(ctx, atom, lv, I, J, '')
        return
    if path == 'mixed':
        lv = A.EnergyLevel(MultiTerm(Term('d', '2D', J, percentage=30.0), Term('c', '2P*', J, percentage=60.0)), hz(e),
                           lande=1.2, hfA=hz(a), hfB=hz(b), hfC=hz(c))
        ctx.check(lv.name == 'c 2P*' + ff(J), 'name of a mixed level')
    else:
        lv = level('c', '2P*', J, e, 1.5, a, b, c)
    first = ctx.flag('first access through the atom') and path == 'add'
    atom.add_level(lv, populate_sublevels=eager)
    if path == 'two':
        J2 = J + ctx.pick('J2-J', [0, 1])
        other = level('d', '2D', J2, ctx.real('E2'), 0.8, ctx.real('A2'))
        atom.add_level(other, populate_sublevels=eager)
        if ctx.flag('other first'):
            all_states(ctx, atom, other, I, J2, 'other: ')
            all_states(ctx, atom, lv, I, J, '')
        else:
            all_states(ctx, atom, lv, I, J, '')
            all_states(ctx, atom, other, I, J2, 'other: ')
        return
    if first:
        F = ff(I + J)
        z = atom.levels[f'{lv.name} F={F} mF={F}']
        ctx.check(z.parent is lv['F=' + F] and z is lv['F=' + F]['mF=' + F], 'stretched state by its composite name')
    all_states(ctx, atom, lv, I, J, '')
    # nothing changes on a second look
    all_states(ctx, atom, lv, I, J, 'second look: ')
