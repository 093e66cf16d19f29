"""C06  assigned frequencies on a network of levels"""
import warnings

from symx.registry import harness
from .common import A, Q_, hz, level

# networks: pairs of level numbers (0 lowest), without loops
NETS = {
    'chain': [(0, 1), (1, 2), (2, 3)],
    'V': [(0, 1), (0, 2)],
    'Lambda': [(0, 2), (1, 2)],
    'star up': [(0, 1), (0, 2), (0, 3)],
    'star down': [(0, 3), (1, 3), (2, 3)],
    'ladder': [(0, 1), (1, 2)],
    'N': [(0, 2), (1, 2), (1, 3)],
    'two': [(0, 1), (2, 3)],
    'merge': [(0, 1), (2, 3), (1, 2)],
    'merge2': [(0, 2), (1, 3), (0, 3)],
    'zigzag': [(0, 3), (1, 3), (1, 2)],
    'fork': [(0, 1), (1, 2), (1, 3)],
}
ORDERS = [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1), (1, 3, 0, 2)]


class Model:
    """levels as numbers; the documented effect of assignments"""
    def __init__(self, ctx, E, edges):
        self.ctx = ctx
        self.E, self.edges, self.set = list(E), edges, {}

    def component(self, e):
        comp = set(e)
        more = True
        while more:
            more = False
            for a, b in self.set:
                if (a in comp) != (b in comp):
                    comp |= {a, b}
                    more = True
        return comp

    def assign(self, e, f):
        self.set[e] = f
        comp = self.component(e)
        low = None
        for i in comp:
            if low is None or self.E[i] < self.E[low]:
                low = i
        for i in comp:      # no tie for the lowest level
            if i != low:
                self.ctx.assume(self.E[i] > self.E[low])
        placed = {low}
        while placed != comp:
            for (a, b), g in self.set.items():
                if a in placed and b in comp and b not in placed:
                    self.E[b] = self.E[a] + g
                    placed.add(b)
                elif b in placed and a in comp and a not in placed:
                    self.E[a] = self.E[b] - g
                    placed.add(a)
        return low


def atom_with(ctx, order, B=0):
    """four levels, in ascending order of energy, added in the given order"""
    atom = A.Atom('x', I=0.5, B=Q_(B, 'G'))
    E = [ctx.real(f'E{i}') for i in range(4)]
    for i in range(3):
        ctx.assume(E[i] < E[i + 1])
    lv = [level(f'c{i % 3}', '2P*' if i % 2 else '2P', 0.5 + i // 2, E[i], 1.0, 1000.0 * i) for i in range(4)]
    for i in ORDERS[order]:
        atom.add_level(lv[i])
    return atom, E, lv


def cases(tier):
    out = []
    for net in NETS:
        for first in range(len(NETS[net])):
            out.append(dict(net=net, first=first, n=(3 if tier == 'quick' else 4)))
    return out


@harness('C06', cases=cases,
         bounds='4 levels; 12 loop-free networks (chains, V, Lambda, stars, N, zigzag, fork, two components, merging '
                'components); every sequence of up to n assignments (3 quick, 4 thorough) to any of their transitions '
                'in any order, repeated or not, through set_frequency, the freq attribute, or when the transition is '
                'added; levels added in 4 different orders; all energies and frequencies that leave the two levels of '
                'every transition in their order',
         outside='more than 4 levels; assignments that invert the levels of a transition')
def trees(ctx, net, first, n):
    edges = NETS[net]
    atom, E, lv = atom_with(ctx, ctx.pick('order of addition', [0, 1, 2, 3]))
    m = Model(ctx, E, edges)
    late = ctx.flag('frequency given when the transition is added')
    tr = {}

    def add(i, freq=None):
        a, b = edges[i]
        pair = (lv[a], lv[b]) if i % 2 == 0 else (lv[b], lv[a])
        tr[i] = atom.add_transition(A.Transition(*pair, freq=freq))

    if not late:
        for i in range(len(edges)):
            add(i)
    for k in range(n):
        i = first if k == 0 else ctx.pick(f'assignment {k + 1}', ['stop'] + list(range(len(edges))))
        if i == 'stop':
            break
        f = ctx.real(f'f{k + 1}', positive=True)
        m.assign(edges[i], f)
        for a, b in edges:
            ctx.assume(m.E[a] < m.E[b])
        if i not in tr:
            add(i, hz(f))
        elif k % 2:
            tr[i].freq = hz(f)
        else:
            tr[i].set_frequency(hz(f))
        for e in m.set:
            t = tr[edges.index(e)]
            ctx.eq(t.freq_Hz, m.set[e], 'an assigned transition reports its frequency')
        for x in range(4):
            ctx.eq(lv[x].level_Hz, m.E[x], 'the lowest level of a group and unconnected levels stay')


@harness('C06', cases=lambda tier: [dict(shape=s, order=o) for s in ('triangle', 'square')
                                    for o in range(2 if tier == 'quick' else 4)],
         bounds='loops of 3 and 4 levels, assigned in every rotation, levels added in 2 orders (4 thorough); all '
                'energies and frequencies that keep the order of the levels and miss consistency by at least a '
                'millionth, or meet it')
def loops(ctx, shape, order):
    edges = {'triangle': [(0, 1), (1, 2), (0, 2)], 'square': [(0, 1), (1, 3), (2, 3), (0, 2)]}[shape]
    atom, E, lv = atom_with(ctx, order)
    tr = {e: atom.add_transition(A.Transition(lv[e[0]], lv[e[1]])) for e in edges}
    start = ctx.pick('starting with', list(range(len(edges))))
    seq = edges[start:] + edges[:start]
    f = {}
    for i, e in enumerate(seq):
        f[e] = ctx.real(f'f{e[0]}{e[1]}', 1, 10 ** 12)
    # walk around the loop
    if shape == 'triangle':
        gap = f[0, 1] + f[1, 2] - f[0, 2]
    else:
        gap = f[0, 1] + f[1, 3] - f[2, 3] - f[0, 2]
    m = Model(ctx, E, edges)
    for e in seq[:-1]:
        m.assign(e, f[e])
        for a, b in edges:
            ctx.assume(m.E[a] < m.E[b])
        tr[e].set_frequency(hz(f[e]))
    consistent = ctx.flag('consistent')
    if consistent:
        ctx.assume(gap == 0)
    else:
        big = 0.001 * (f[0, 1] + f[0, 2] + 1)
        ctx.assume(ctx.any(gap >= big, gap <= -big))
        ctx.assume(ctx.all(gap <= 10 ** 12, gap >= -10 ** 12))
        # the assignments keep every pair in order whichever way they are satisfied
        for e in edges:
            ctx.assume(f[e] > 2 * gap)
            ctx.assume(f[e] > -2 * gap)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        tr[seq[-1]].set_frequency(hz(f[seq[-1]]))
    if consistent:
        for e in edges:
            ctx.eq(tr[e].freq_Hz, f[e], 'a consistent loop satisfies all assigned frequencies')
    else:
        ctx.check(len(caught) > 0, 'an inconsistent loop is reported')
    ctx.eq(lv[[x for x in range(4) if all(x not in e for e in edges)][0] if shape == 'triangle' else 0].level_Hz,
           E[3] if shape == 'triangle' else lv[0].level_Hz, 'unconnected levels stay')


@harness('C06', bounds='4 levels, chain or V of two transitions; the frequency zero assigned to one of them (when the transition is added, '
                       'through the attribute or the method), before or after any positive frequency is assigned to the other, and any positive frequency in its place later; '
                       'levels added in 4 different orders')
def degenerate(ctx):
    atom, E, lv = atom_with(ctx, ctx.pick('order of addition', [0, 1, 2, 3]))
    edges = [(0, 1), ctx.pick('other', [(1, 2), (0, 2)])]
    how = ctx.pick('zero given', ['added', 'attribute', 'method'])
    other = ctx.pick('other frequency', ['none', 'before', 'after'])
    f = ctx.real('f', positive=True)
    tr = [None, None]

    def assign(i, freq, how):
        pair = [lv[x] for x in edges[i]]
        if tr[i] is None:
            tr[i] = atom.add_transition(A.Transition(*pair, **(dict(freq=freq) if how == 'added' else {})))
        if how == 'attribute':
            tr[i].freq = freq
        elif how == 'method':
            tr[i].set_frequency(freq)

    if other == 'before':
        assign(1, hz(f), 'method')
        ctx.assume(lv[0].level_Hz < lv[1].level_Hz)
    assign(0, hz(0.0), how)
    ctx.eq(tr[0].freq_Hz, 0, 'the frequency zero')
    if other != 'none':
        if other == 'after':
            assign(1, hz(f), 'added')
        ctx.eq(tr[0].freq_Hz, 0, 'the frequency zero')
        ctx.eq(tr[1].freq_Hz, f, 'the other frequency')
    else:
        ctx.eq(lv[2].level_Hz, E[2], 'unconnected levels stay')
        ctx.eq(lv[0].level_Hz, E[0], 'the lowest level stays')
    again = ctx.real('again', positive=True)
    assign(0, hz(again), 'method')
    ctx.eq(tr[0].freq_Hz, again, 'a positive frequency in place of zero')
    if other != 'none':
        ctx.eq(tr[1].freq_Hz, f, 'the other frequency')
    ctx.eq(lv[3].level_Hz, E[3], 'unconnected levels stay')
