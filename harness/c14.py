"""C14  automatic generation of transitions"""
from symx.registry import harness
from .common import A, Q_, hz, level

SEL = [(e, m, q) for e in (True, False) for m in (True, False) for q in (True, False)]


def types(J1, J2, odd, same):
    return (abs(J1 - J2) <= 1 <= J1 + J2 and odd, abs(J1 - J2) <= 1 <= J1 + J2 and not odd,
            abs(J1 - J2) <= 2 <= J1 + J2 and not odd and not same)


def snapshot(atom):
    return {frozenset((t.E_1.name, t.E_2.name)): t for t in atom.transitions.values()}


def run(ctx, Js, odds, sel, pre, energies, again):
    n = len(Js)
    atom = A.Atom('x', I=1.5 if odds[0] else 0.0)
    conf, L = ('aaaa', 'PDFG') if odds[0] else ('abcd', 'PPPP')     # of one configuration, or of several
    lv = [level(conf[i], f'2{L[i]}*' if odds[i] else f'2{L[i]}', Js[i], energies[i]) for i in range(n)]
    for x in lv:
        atom.add_level(x)
    kept = {}
    for i, j in pre:
        t = atom.add_transition(A.Transition(lv[i], lv[j], A=hz(5.0)))
        kept[frozenset((lv[i].name, lv[j].name))] = t
    if sel is None:
        atom.populate_transitions()
        sel = (True, True, True)
    else:
        atom.populate_transitions(allowed=sel)
    for rnd in range(2 if again else 1):
        what = 'second call: ' if rnd else ''
        got = snapshot(atom)
        ctx.check(len(atom.transitions) == len(got) == len(list(atom.transitions.values())), what + 'one transition per pair')
        for i in range(n):
            for j in range(i, n):
                k = frozenset((lv[i].name, lv[j].name))
                want = k in kept or any(a and b for a, b in zip(types(Js[i], Js[j], odds[i] != odds[j], i == j), sel))
                ctx.check((k in got) == want, what + 'exactly the allowed pairs have a transition')
                if k in got:
                    t = got[k]
                    ctx.check({id(t.E_1), id(t.E_2)} == {id(lv[i]), id(lv[j])}, what + 'a generated transition connects its levels')
                    ctx.check(t.atom is atom, what + 'a generated transition is in the atom')
                    ctx.check(atom.transitions[lv[i].name, lv[j].name] is t, what + 'a generated transition is reached')
        for k, t in kept.items():
            ctx.check(got.get(k) is t, what + 'a transition already present is kept')
            ctx.eq(t.A.to('Hz').magnitude, 5, what + 'a transition already present is unchanged')
        ctx.check(len(atom.levels) == n, what + 'no level is added')
        for x, e in zip(lv, energies):
            ctx.eq(x.level_Hz, e, what + 'no level moves')
        if rnd == 0 and again:
            atom.populate_transitions(allowed=sel)
            after = snapshot(atom)
            ctx.check(after.keys() == got.keys() and all(after[k] is got[k] for k in got), 'a second call adds nothing')


@harness('C14', cases=lambda tier: [dict(sel=s, odd=o, par=p) for s in [None] + SEL for o in (False, True)
                                    for p in (False, True)],
         quick=dict(top=6), thorough=dict(top=17),
         bounds="two levels, J up to the bound (6 quick, 17 thorough) and J' = J - 3 .. J + 3, every selection of types and the "
                "default, both parities, energies arbitrary, the transition and those of a level with itself present before "
                "or not",
         outside='J above the bound (the package considers J below 20)')
def pair(ctx, sel, odd, par, top):
    J1 = ctx.fork(ctx.half('J', 0, top))
    J2 = J1 + ctx.fork(ctx.int('dJ', -3, 3))
    ctx.assume(0 <= J2 <= top)
    e = [ctx.real('E1'), ctx.real('E2')]
    pre = ctx.pick('present', [[], [(0, 1)], [(1, 0), (1, 1)]])
    run(ctx, [J1, J2], [par, odd != par], sel, pre, e, True)


@harness('C14', cases=lambda tier: [dict(sel=s, odd=o, half=h) for s in (None, (True, False, False), (False, False, True)) for o in (False, True)
                                    for h in (False, True)],
         bounds='two levels of J from 15 to 19 1/2 and J\' = J - 3 .. J + 3 below 20, three selections, both relative parities')
def high(ctx, sel, odd, half):
    J1 = ctx.fork(ctx.int('J', 15, 19)) + (0.5 if half else 0)
    J2 = J1 + ctx.fork(ctx.int('dJ', -3, 3))
    ctx.assume(J2 < 20)
    e = [ctx.real('E1'), ctx.real('E2')]
    run(ctx, [J1, J2], [False, odd], sel, [], e, False)


@harness('C14', cases=lambda tier: [dict(sel=s, odd=o) for s in ((True, True, True), (True, False, False), (False, True, True), (False, False, True))
                                    for o in range(8)],
         quick=dict(top=2), thorough=dict(top=3.5),
         bounds='three levels, every J up to 2 (7/2 thorough) of one integrality, every combination of parities, '
                'four selections, any one transition present before')
def triple(ctx, sel, odd, top):
    J1 = ctx.fork(ctx.half('J', 0, top))
    Js = [J1, J1 + ctx.fork(ctx.int('dJ', -2, 2)), J1 + ctx.fork(ctx.int("dJ'", -2, 2))]
    ctx.assume(min(Js) >= 0 and max(Js) <= top)
    pre = ctx.pick('present', [[], [(0, 2)]])
    run(ctx, Js, [bool(odd & 1), bool(odd & 2), bool(odd & 4)], sel, pre, [0.0, 1e14, 5e13], False)
