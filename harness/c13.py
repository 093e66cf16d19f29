"""C13  names of transitions"""
from symx.registry import harness
from .common import A, Q_, hz, level, steps, ff
from .c01 import ff2

PAIRS = [(0, 1), (0, 2), (1, 2)]


def structure(ctx, atom, lv, ts, aliases, what):
    """ts: {(i, j): transition}"""
    T = atom.transitions
    ctx.check(len(T) == len(ts) and len(list(T.values())) == len(ts) and len(list(iter(T))) == len(ts),
              what + 'number of transitions')
    ctx.check({frozenset(k) for k in T.keys()} == {frozenset((lv[i].name, lv[j].name)) for i, j in ts},
              what + 'keys of the transitions')
    ctx.check(len(T.list_names()) == len(ts), what + 'names of the transitions')
    for (i, j) in PAIRS:
        for a, b in ((i, j), (j, i)):
            key = (lv[a].name, lv[b].name)
            if (i, j) in ts:
                ctx.check(T[key] is ts[i, j], what + 'a transition is reached under the names of its levels')
                ctx.check(T[lv[a], lv[b]] is ts[i, j], what + 'a transition is reached under its levels')
            else:
                ctx.raises(KeyError, lambda: T[key], what + 'a transition that was never added')
                ctx.raises(KeyError, lambda: T[lv[a], lv[b]], what + 'a transition that was never added')
    for n, l in enumerate(lv):
        linked = atom.linked_levels(l.name)
        mine = {lv[j if i == n else i].name: t for (i, j), t in ts.items() if n in (i, j)}
        ctx.check(set(linked) == set(mine) and all(linked[k] is mine[k] for k in mine), what + 'levels linked to a level')
    for k, t in aliases.items():
        ctx.check(T[k] is t, what + 'a transition is reached under its alias')
        for near in {k.upper(), k.lower(), k.title(), k + ' ', ' ' + k, k[:-1], k + '0'} - set(aliases):
            ctx.raises(KeyError, lambda: T[near], what + 'an unknown alias')
    ctx.raises(KeyError, lambda: T[lv[0].name, 'no such level'], what + 'a transition to an unknown level')


def ranks(ctx, atom, lv, ts, pairs, what):
    pos = {id(x): n for n, x in enumerate(lv)}
    for a, b in pairs:
        i, j = sorted((pos[id(atom.levels[a])], pos[id(atom.levels[b])]))
        if (i, j) in ts:
            ctx.check(atom.transitions[a, b] is ts[i, j], what + 'a transition is reached under the ranks of its levels')
        else:
            ctx.raises(KeyError, lambda: atom.transitions[a, b], what + 'ranks of levels without transition')


def cases(tier):
    return [dict(how=h, al=a, rev=r) for h in ('object', 'names', 'levels', 'constructor', 'append', 'item')
            for a in ('none', 'creation', 'attribute', 'twice', 'item') for r in (False, True)
            if (h == 'item') == (a == 'item') and not (h == 'constructor' and a == 'creation')
            and (tier == 'thorough' or (r == (len(h) % 2 == 0) or h == 'names') and (a != 'twice' or h in ('names', 'object')))]


@harness('C13', cases=cases,
         bounds='3 levels of arbitrary distinct energies added in either order, one to three transitions, added in six '
                'ways, first named in either order, aliases given in three ways or two to each; then an arbitrary change of an energy; then '
                'deletion of one transition by names in either order, by ranks or by alias; all pairs of names '
                'and several of ranks after each step',
         outside='levels of equal energy for ranks; more than 3 levels')
def history(ctx, how, al, rev):
    E = [ctx.real(f'E{i}') for i in range(3)]
    for i, j in PAIRS:
        ctx.assume(E[i] != E[j])
    lv = [level(c, t, 0.5, e) for c, t, e in zip(('6s', '5d', '6p'), ('2S', '2D', '2P*'), E)]
    atom = None if how == 'constructor' else A.Atom('x', I=0.5)
    if how == 'constructor':
        atom = A.Atom('x', I=0.5, levels=lv)
    else:
        for x in (lv[::-1] if rev else lv):
            atom.add_level(x)
    ts, aliases = {}, {}
    chosen = ctx.pick('transitions', [[(0, 1)], [(0, 1), (1, 2)], PAIRS] + ([[], [(0, 2)]] if how == 'names' else []))
    for n, (i, j) in enumerate(PAIRS):
        if (i, j) not in chosen:
            continue
        a, b = (lv[j], lv[i]) if rev and (i, j) == (0, 1) else (lv[i], lv[j])
        kw = dict(alias=f'T{n}') if al == 'creation' else {}
        if how == 'names':
            t = atom.add_transition((a.name, b.name), **kw)
        elif how == 'levels':
            t = atom.add_transition((a, b), **kw)
        else:
            t = A.Transition(a, b, **kw)
            if how == 'append':
                atom.transitions.append(t)
            elif how == 'item':
                atom.transitions[f'T{n}'] = t
            else:
                ctx.check(atom.add_transition(t) is t, 'adding a transition returns it')
        ctx.check({id(t.E_1), id(t.E_2)} == {id(a), id(b)}, 'a transition connects its levels')
        if al in ('attribute', 'twice'):
            t.alias = f'T{n}'
        if al == 'twice':
            t.alias = f'also {n}'
            aliases[f'also {n}'] = t
        if al != 'none':
            aliases[f'T{n}'] = t
        ts[i, j] = t
    structure(ctx, atom, lv, ts, aliases, '')
    ranks(ctx, atom, lv, ts, [(0, 1), (2, 0)], '')
    v = ctx.real('E new')
    ctx.assume(v != E[1])
    ctx.assume(v != E[2])
    lv[0].level = hz(v)
    structure(ctx, atom, lv, ts, aliases, 'after an edit: ')
    ranks(ctx, atom, lv, ts, [(0, 1), (1, 0), (0, 2), (2, 1)], 'after an edit: ')
    if not ts:
        return
    keys = list(ts)
    i, j = keys[-1] if ctx.flag('delete the last') else keys[0]
    gone = ts[i, j]
    by = ctx.pick('deleted by', ['names', 'reversed names', 'ranks'] + (['alias'] if aliases else []))
    r = {id(atom.levels[n]): n for n in range(3)}
    r = r[id(lv[i])], r[id(lv[j])]
    if by == 'ranks':
        del atom.transitions[r]
    elif by == 'alias':
        del atom.transitions[[k for k, t in aliases.items() if t is gone][0]]
    else:
        del atom.transitions[(lv[i].name, lv[j].name) if by == 'names' else (lv[j].name, lv[i].name)]
    del ts[i, j]
    for k in [k for k, t in aliases.items() if t is gone]:
        del aliases[k]
        ctx.raises(KeyError, lambda: atom.transitions[k], 'the alias of a deleted transition')
    structure(ctx, atom, lv, ts, aliases, 'after a deletion: ')
    ranks(ctx, atom, lv, ts, [r], 'after a deletion: ')
    # adding it again
    t = atom.add_transition(A.Transition(lv[i], lv[j]))
    ts[i, j] = t
    structure(ctx, atom, lv, ts, aliases, 'after adding it again: ')
    ranks(ctx, atom, lv, ts, [r], 'after adding it again: ')


def comp_cases(tier):
    return [dict(I2=i, dJ=d, up=u) for i in range(3 if tier == 'quick' else 6) for d in (0, 1, -1, 2) for u in (False, True)]


@harness('C13', cases=comp_cases, quick=dict(top=1.5), thorough=dict(top=3),
         bounds="composite names of every component in both layers and either order, for every I <= 1 (quick; 5/2 "
                "thorough) and J <= 3/2 (3 thorough); the energies arbitrary, in the same order throughout or swapped after "
                "the components were generated or before; fields arbitrary",
         outside='sublevels of the two levels that interleave in energy')
def composite(ctx, I2, dJ, up, top):
    I = I2 / 2
    J = ctx.fork(ctx.half('J', 0, top))
    J2 = J + dJ
    ctx.assume(J2 >= 0)
    ctx.assume(J + J2 >= max(1, abs(dJ)))
    odd = abs(dJ) < 2
    atom = A.Atom('x', I=I, B=Q_(ctx.real('B', -1000, 1000), 'G'))
    e = ctx.real('E', -10 ** 15, 10 ** 15)
    ctx.assume(e > 10 ** 13 if up else e < -10 ** 13)
    l1, l2 = level('6s', '2P', J, 0.0, A_=1e9), level('4f13.(2F*<7/2>).6p', '2D*' if odd else '2P', J2, e, A_=1e8)
    for x in ((l1, l2) if ctx.flag('first level added first') else (l2, l1)):
        atom.add_level(x)
    t = atom.add_transition((l1.name, l2.name), alias='line')
    when = ctx.pick('energies swap', ['never', 'before the components are generated', 'after that'])
    new = hz(-1e14 if up else 1e14)
    if when == 'before the components are generated':
        l2.level = new
    if ctx.flag('generated first'):
        for x in t.subtransitions():
            x.subtransitions()
    elif when == 'after that':
        t.subtransitions()
    if when == 'after that':
        l2.level = new
    ctx.check(atom.transitions['line'] is t and atom.transitions[0, 1] is t and atom.transitions[1, 0] is t,
              'the transition itself')
    seen = 0
    for x in t.subtransitions():
        a, b = (x.E_1, x.E_2) if x.E_1.parent is l1 else (x.E_2, x.E_1)
        fa, fb = ff(a.term.F), ff(b.term.F)
        na, nb = f'{l1.name} F={fa}', f'{l2.name} F={fb}'
        ctx.check(atom.transitions[na, nb] is x, 'a hyperfine component is reached under its composite names')
        ctx.check(atom.transitions[a, b] is x and atom.transitions[b, a] is x, 'a hyperfine component is reached under its sublevels')
        ctx.check(atom.transitions[nb, na] is x, 'a hyperfine component is reached under its reversed composite names')
        for y in x.subtransitions():
            p, q = (y.E_1, y.E_2) if y.E_1.parent is a else (y.E_2, y.E_1)
            mp, mq = ff2(p.term.mF), ff2(q.term.mF)
            k = (f'{na} mF={mp}', f'{nb} mF={mq}')
            ctx.check(atom.transitions[k] is y, 'a Zeeman component is reached under its composite names')
            ctx.check(atom.transitions[p, q] is y and atom.transitions[q, p] is y, 'a Zeeman component is reached under its sublevels')
            ctx.check(atom.transitions[k[1], k[0]] is y, 'a Zeeman component is reached under its reversed composite names')
            if I == 0:
                k = (f'{l1.name} mJ={mp}', f'{l2.name} mJ={mq}')
                ctx.check(atom.transitions[k] is y, 'mJ names a Zeeman component without nuclear spin')
                ctx.check(atom.transitions[k[1], k[0]] is y, 'reversed mJ names')
            seen += 1
    ctx.check(seen > 0, 'there are components')
    x = t.subtransitions()[-1]
    y = x.subtransitions()[0]
    x.alias, y.alias = 'cooling', 'F=0 mF=0'
    ctx.check(atom.transitions['cooling'] is x and atom.transitions['F=0 mF=0'] is y, 'components are reached under their aliases')
    ctx.check(atom.transitions[x.E_1.name, x.E_2.name] is x and atom.transitions[y.E_2.name, y.E_1.name] is y and atom.transitions['line'] is t,
              'components with alias are reached under their names')
    present = {(x.E_1.name, x.E_2.name) for x in t.subtransitions()}
    present |= {k[::-1] for k in present}
    for a in l1.sublevels():
        for b in l2.sublevels():
            if (a.name, b.name) not in present:
                ctx.raises(KeyError, lambda: atom.transitions[a.name, b.name], 'a component that does not exist')
    ctx.raises(KeyError, lambda: atom.transitions[f'{l1.name} F={ff(I + J + 1)}', f'{l2.name} F={ff(I + J2)}'],
               'a component of a sublevel that does not exist')


@harness('C13', cases=lambda tier: [dict(via=v, al=a) for v in ('add', 'constructor', 'append', 'item', 'set') for a in (False, True)],
         bounds='two transitions sharing a level, of arbitrary distinct energies; none, some or all of the levels in the atom '
                'before; added in five ways; with or without aliases; with or without an assigned frequency')
def brings_levels(ctx, via, al):
    E = [ctx.real(f'E{i}', 10 ** 14 * (i + 1), 10 ** 14 * (i + 1) + 10 ** 13) for i in range(3)]
    al_l = {f'l{i}': i for i in range(3)} if al else {}
    lv = [level(c, t, j, e, alias=f'l{i}' if al else None)
          for i, (c, t, j, e) in enumerate(zip(('6s', '5d', '6p'), ('2S', '2D', '2P*'), (0.5, 1.5, 0.5), E))]
    before = [] if via == 'constructor' else ctx.pick('levels before', [[], [0], [1, 2], [0, 1, 2]])
    if via != 'constructor':
        atom = A.Atom('x', I=0.5)
        for i in before:
            atom.add_level(lv[i])
    f = ctx.real('f', 10 ** 14, 2 * 10 ** 14)
    mk = [A.Transition(lv[2], lv[0], A=hz(1.0), alias='first' if al else None, freq=hz(f) if via == 'set' else None),
          A.Transition(lv[1], lv[2], A=hz(2.0), alias='second' if al else None)]
    if via == 'constructor':
        atom = A.Atom('x', I=0.5, transitions=mk)
    for n, t in enumerate(mk):
        if via == 'append':
            atom.transitions.append(t)
        elif via == 'item':
            atom.transitions[f'T{n}'] = t
        elif via != 'constructor':
            ctx.check(atom.add_transition(t) is t, 'adding a transition returns it')
    ctx.check(sorted(atom.levels.keys()) == sorted(x.name for x in lv) and len(atom.levels) == 3,
              'the levels of a transition are in the atom')
    for i, x in enumerate(lv):
        ctx.check(atom.levels[x.name] is x and x.atom is atom, 'the levels of a transition are in the atom')
        if al:
            ctx.check(atom.levels[f'l{i}'] is x, 'a level that came with a transition has its alias')
        if not (via == 'set'):
            ctx.eq(x.level_Hz, E[i], 'a level that came with a transition keeps its energy')
    for n, t in enumerate(mk):
        k = (t.E_1.name, t.E_2.name)
        ctx.check(atom.transitions[k] is t and atom.transitions[k[::-1]] is t, 'the transition is in the atom')
        if al:
            ctx.check(atom.transitions[('first', 'second')[n]] is t, 'alias of a transition')
        if via == 'item':
            ctx.check(atom.transitions[f'T{n}'] is t, 'alias of a transition')
    if via == 'set':
        ctx.eq(mk[0].freq_Hz, f, 'the frequency given with a transition')
        ctx.eq(lv[0].level_Hz, E[0], 'the lower level stays')
    ctx.check(len(atom.levels['6s 2S1/2'].sublevels()) == 2, 'a level that came with a transition has its sublevels')
    t = mk[0].subtransitions()
    ctx.check(len(t) > 0 and all(x.atom is atom for x in t), 'a transition has its components')
