"""C12  names of levels"""
from symx.registry import harness
from .common import A, Q_, hz, level, steps, ff
from .c01 import ff2

TERMS = ['2P', '2D*', '(7/2,5/2)', '2[5/2]*', '']
CONFS = ['6s', '4f13.(2F*<7/2>).5d2', '4f13.(2F*<7/2>).5d.(2D<5/2>)', '4f13.(2F*<5/2>).5d.6s.(3D)', '5d.6p']


def structure(ctx, atom, lv, what):
    """lv: the levels that should be there, a list; energies by level"""
    L = atom.levels
    names = [x.name for x in lv]
    ctx.check(len(L) == len(lv), what + 'number of levels')
    ctx.check(sorted(iter(L)) == sorted(names), what + 'iteration over the levels')
    ctx.check(sorted(L.keys()) == sorted(names) and sorted(L.list_names()) == sorted(names), what + 'keys of the levels')
    ctx.check(len(list(L.values())) == len(lv) and all(any(x is y for y in L.values()) for x in lv),
              what + 'values of the levels')
    ctx.check(len(list(L.levels())) == len(lv) and all(any(x is y for y in L.levels()) for x in lv),
              what + 'levels of the structure')
    for x in lv:
        ctx.check(L[x.name] is x, what + 'a level is reached under its name')
        ctx.check(x.name in L, what + 'the structure contains a level')
        ctx.check(x.atom is atom, what + 'a level knows its atom')
    ctx.check('no such level' not in L, what + 'the structure contains no unknown name')
    for bad in ('no such level', names[0] + 'x' if names else 'y', 'zz F=1/2', 'zz F=1/2 mF=1/2', 'zz mJ=1/2'):
        ctx.raises(KeyError, lambda: L[bad], what + 'an unknown name')


def ranked(ctx, atom, lv, what):
    """ranks and slices (assumes distinct energies)"""
    n = len(lv)
    L = atom.levels
    for i in range(n):
        got = L[i]
        ctx.check(any(got is x for x in lv), what + 'a rank returns a level')
        ctx.check(L[i - n] is got, what + 'negative ranks count from the highest level')
        below = sum(1 for x in lv if x is not got and ctx.holds(x.level_Hz < got.level_Hz))
        ctx.check(below == i, what + 'rank n is the n-th lowest level')
    ctx.raises(IndexError, lambda: L[n], what + 'a rank beyond the last')
    for a, b, c in ((None, None, None), (0, 2, None), (1, None, None), (None, -1, None), (None, None, 2),
                    (None, None, -1)):
        got = L[slice(a, b, c)]
        want = [L[i] for i in range(n)][slice(a, b, c)]
        ctx.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), what + 'a slice returns that range')


ADD = ['add_level', 'append', 'constructor', 'item', 'parent']
ALIAS = ['none', 'constructor', 'add_level', 'attribute', 'item']


def cases(tier):
    out = []
    for how in ADD:
        for al in ALIAS:
            for n in ((2, 3) if tier == 'quick' else (2, 3, 4)):
                if al == 'item' and how != 'item' or how == 'item' and al != 'item':
                    continue
                if al == 'add_level' and how != 'add_level':
                    continue
                out.append(dict(n=n, how=how, al=al))
    return out


@harness('C12', cases=cases,
         bounds='up to 3 levels (4 thorough) with arbitrary distinct energies, in any of five coupling notations, added in '
                'five ways, aliases given in five ways, up to two for a level; then an arbitrary energy change of one level; then deletion of one '
                'level by name, alias or rank; all ranks, negative ranks and six slices after each step',
         outside='levels of equal energy for ranks')
def history(ctx, n, how, al):
    E = [ctx.real(f'E{i}') for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(E[i] != E[j])
    k = ctx.pick('notation of the first', range(len(TERMS)) if n == 2 else [0, 3])
    terms = [(k + i) % len(TERMS) for i in range(n)]
    kw = [dict(alias='one') if al == 'constructor' and i == 0 else {} for i in range(n)]
    atom = A.Atom('x', I=0.5)
    if how == 'parent':
        kw = [dict(w, parent=atom) for w in kw]
    lv = [level(CONFS[t], TERMS[t], 0.5 + i, E[i], **w) for i, (t, w) in enumerate(zip(terms, kw))]
    aliases = {}
    if how == 'constructor':
        atom = A.Atom('x', I=0.5, levels=lv)
    for i, x in enumerate(lv):
        if how == 'append':
            atom.levels.append(x)
        elif how == 'item':
            atom.levels['one' if i == 0 else f'other {i}'] = x
            aliases['one' if i == 0 else f'other {i}'] = x
        elif how in ('add_level', 'parent'):
            r = atom.add_level(x, **(dict(alias='one') if al == 'add_level' and i == 0 else {}))
            ctx.check(r is x, 'adding a level returns it')
    if al == 'attribute':
        lv[0].alias = 'one'
        lv[-1].alias = 'two'
        aliases['two'] = lv[-1]
    if al != 'none':
        aliases['one'] = lv[0]
        if ctx.flag('another alias'):
            lv[0].alias = 'also'
            aliases['also'] = lv[0]
    check_aliases(ctx, atom, aliases, '')
    structure(ctx, atom, lv, '')
    ranked(ctx, atom, lv, '')
    # an energy changes
    v = ctx.real('E new')
    for i in range(1, n):
        ctx.assume(v != E[i])
    lv[0].level = hz(v)
    structure(ctx, atom, lv, 'after an edit: ')
    ranked(ctx, atom, lv, 'after an edit: ')
    check_aliases(ctx, atom, aliases, 'after an edit: ')
    # deletion
    by = ctx.pick('deleted by', ['name', 'rank'] + (['alias'] if 'one' in aliases else []))
    gone = lv[0] if by == 'alias' else atom.levels[0] if by == 'rank' else lv[-1]
    del atom.levels['one' if by == 'alias' else 0 if by == 'rank' else gone.name]
    rest = [x for x in lv if x is not gone]
    structure(ctx, atom, rest, 'after a deletion: ')
    ranked(ctx, atom, rest, 'after a deletion: ')
    ctx.check(gone.name not in atom.levels, 'a deleted level is not contained')
    ctx.raises(KeyError, lambda: atom.levels[gone.name], 'the name of a deleted level')
    for k, x in aliases.items():
        if x is gone:
            ctx.raises(KeyError, lambda: atom.levels[k], 'the alias of a deleted level')
    check_aliases(ctx, atom, {k: x for k, x in aliases.items() if x is not gone}, 'after a deletion: ')


def check_aliases(ctx, atom, aliases, what):
    for k, x in aliases.items():
        ctx.check(atom.levels[k] is x, what + 'a level is reached under its alias')
        ctx.check(x.alias is None or isinstance(x.alias, str), what + 'alias of a level')
        for near in {k.upper(), k.lower(), k.title(), k + ' ', ' ' + k, k[:-1], k + '0'} - set(aliases):
            ctx.raises(KeyError, lambda: atom.levels[near], what + 'an unknown name')


def comp_cases(tier):
    return [dict(I2=i, t=t) for i in range(6 if tier == 'quick' else 9) for t in range(len(TERMS))]


@harness('C12', cases=comp_cases, quick=dict(top=3), thorough=dict(top=5),
         bounds='composite names of every sublevel: I <= 5/2 (4 thorough), J <= 3 (5 thorough), five notations, energies, '
                'coefficients and field arbitrary; sublevels generated or not; I given as number or text; stepwise or '
                'composite access first')
def composite(ctx, I2, t, top):
    I = I2 / 2
    J = ctx.fork(ctx.half('J', 0, top))
    spin = I if not ctx.flag('spin as text') else ff(I)
    atom = A.Atom('x', I=spin, B=Q_(ctx.real('B'), 'G'))
    lv = level(CONFS[t], TERMS[t], J, ctx.real('E'), 1.0, ctx.real('A'), alias='al')
    other = level('7p', '2P', J, ctx.real('E2'))
    atom.add_level(lv, populate_sublevels=ctx.flag('populated on addition'))
    atom.add_level(other)
    first = ctx.flag('stepwise first')
    if first:
        for h in lv.sublevels():
            h.sublevels()
    n = 0
    for F in steps(abs(I - J), I + J):
        x = atom.levels[f'{lv.name} F={ff(F)}']
        ctx.check(x is lv[f'F={ff(F)}'], 'a hyperfine sublevel is reached under its composite name')
        ctx.check(atom.levels[x.name] is x, 'a hyperfine sublevel is reached under its own name')
        ctx.check(x.term.F == F and x.parent is lv, 'the sublevel reached has the quantum numbers of its name')
        for m in steps(-F, F):
            z = atom.levels[f'{lv.name} F={ff(F)} mF={ff2(m)}']
            ctx.check(z is lv[f'F={ff(F)}'][f'mF={ff2(m)}'], 'a Zeeman sublevel is reached under its composite name')
            ctx.check(atom.levels[z.name] is z, 'a Zeeman sublevel is reached under its own name')
            ctx.check(z.term.mF == m and z.parent is x, 'the Zeeman sublevel reached has the quantum numbers of its name')
            n += 1
            if I == 0:
                ctx.check(atom.levels[f'{lv.name} mJ={ff2(m)}'] is z, 'mJ names a Zeeman sublevel without nuclear spin')
                ctx.check(lv[f'mJ={ff2(m)}'] is z, 'mJ names a Zeeman sublevel stepwise')
        ctx.raises(KeyError, lambda: atom.levels[f'{lv.name} F={ff(F)} mF={ff(F + 1)}'], 'a Zeeman sublevel beyond F')
    ctx.check(n == (2 * I + 1) * (2 * J + 1), 'number of composite names')
    ctx.raises(KeyError, lambda: atom.levels[f'{lv.name} F={ff(I + J + 1)}'], 'a hyperfine sublevel beyond I + J')
    h = lv.sublevels()[-1]
    z = h.sublevels()[0]
    h.alias, z.alias = 'clock', 'F=0 mF=0'
    ctx.check(atom.levels['clock'] is h and atom.levels['F=0 mF=0'] is z, 'sublevels are reached under their aliases')
    ctx.check(atom.levels[h.name] is h and atom.levels[z.name] is z and h.alias == 'clock', 'sublevels with alias are reached under their names')
    ctx.check(atom.levels['al'] is lv and atom.levels[lv.name] is lv, 'the level itself')
    ctx.check(len(atom.levels) == 2, 'sublevels are not counted as levels')
