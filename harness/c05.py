"""C05  frequencies of transitions"""
from symx.registry import harness
from .common import A, Q_, hz, level, steps, ff, MU_B
from .c01 import ff2
from .c04 import Shadow

C_NM = 299792458e9      # nm/s
SETS = {'a': (0.5, 0.5, 0.5), 'b': (0.5, 0.5, 1.5), 'c': (1.5, 1.5, 0.5), 'd': (0, 0.5, 1.5), 'e': (2.5, 2, 3)}


def quantity(x, unit):
    if unit == 'nm':
        return Q_(C_NM / x, 'nm')
    if unit == '1/cm':
        return Q_(x / 29979245800, '1/cm')
    return Q_(x / {'Hz': 1, 'THz': 10 ** 12, 'MHz': 10 ** 6}[unit], unit)


class World:
    def __init__(self, ctx, spins, ordered=True):
        self.ctx = ctx
        I, J1, J2 = SETS[spins]
        self.B = ctx.real('field')
        self.atom = atom = A.Atom('x', I=I, B=Q_(self.B, 'G'))
        p = [ctx.real(x) for x in ('E1', 'A1')]
        q = [ctx.real(x) for x in ('E2', 'A2')]
        p.insert(1, 2)
        q.insert(1, 0.8)
        self.third = ctx.real('E3')
        self.l1 = level('c', '2P', J1, p[0], p[1], p[2])
        self.l2 = level('d', '2D*', J2, q[0], q[1], q[2])
        self.l3 = level('c', '2F', J2, self.third, 1.0)
        order = [self.l1, self.l2, self.l3]
        if ctx.flag('upper level added first'):
            order = [self.l3, self.l2, self.l1]
        for x in order:
            atom.add_level(x)
        self.s1 = Shadow(ctx, I, J1, p[0], p[1], p[2], 0, 0)
        self.s2 = Shadow(ctx, I, J2, q[0], q[1], q[2], 0, 0)
        ctx.assume(p[0] < q[0])
        if ordered:
            self.separated('between')

    def separated(self, name):
        """all states of the first level lie below all of the second"""
        M = self.ctx.real(name)
        for s, up in ((self.s1, False), (self.s2, True)):
            for F in steps(abs(s.I - s.J), s.I + s.J):
                for e in (s.hf(F), s.z(F, F, self.B), s.z(F, -F, self.B)):
                    self.ctx.assume(e > M if up else e < M)

    def pairs(self, layer):
        """(energy of the lower-level state, of the upper-level state, the transition) of some components"""
        t = self.t
        if layer == 'fine':
            return [(self.s1.E, self.s2.E, t)]
        out = []
        for x in t.subtransitions():
            a, b = (x.E_1, x.E_2) if x.E_1.manifold is self.l1 else (x.E_2, x.E_1)
            if layer == 'hyperfine':
                out.append((self.s1.hf(a.term.F), self.s2.hf(b.term.F), x))
            else:
                for y in x.subtransitions():
                    a, b = (y.E_1, y.E_2) if y.E_1.manifold is self.l1 else (y.E_2, y.E_1)
                    out.append((self.s1.z(a.term.F, a.term.mF, self.B), self.s2.z(b.term.F, b.term.mF, self.B), y))
        return out


def comp(ctx, w, layer, name):
    """an arbitrary component of a layer (first, last or middle in a large set)"""
    ps = w.pairs(layer)
    if len(ps) > 4:
        ps = [ps[0], ps[len(ps) // 2], ps[-1]]
    return ctx.pick(name, ps) if len(ps) > 1 else ps[0]


def read_cases(tier):
    out = [dict(spins=s, layer=y, unordered=False) for s in (SETS if tier == 'thorough' else 'abcd')
           for y in ('fine', 'hyperfine', 'Zeeman')]
    out += [dict(spins=s, layer=y, unordered=True) for s in 'abcd' for y in ('hyperfine',)]
    return out + [dict(spins='d', layer='Zeeman', unordered=True)]


@harness('C05', cases=read_cases,
         bounds='spins (I, J, J\') = (1/2,1/2,1/2), (1/2,1/2,3/2), (3/2,3/2,1/2), (0,1/2,3/2), thorough also (5/2,2,3); '
                'every layer, up to three components of it; all energies, A and fields; '
                'sublevels of the two levels interleaved in any order (hyperfine layer; Zeeman layer for I=0), or '
                'separated at first',
         outside='other spins')
def reading(ctx, spins, layer, unordered):
    w = World(ctx, spins, not unordered)
    w.t = A.Transition(w.l2, w.l1) if ctx.flag('upper level named first') else A.Transition(w.l1, w.l2)
    w.atom.add_transition(w.t)
    ea, eb, x = comp(ctx, w, layer, 'component')
    d = ea - eb
    d = d if d >= 0 else -d
    ctx.eq(x.freq.to('Hz').magnitude, d, 'frequency is the distance of the two levels')
    ctx.eq(x.freq_Hz, d, 'frequency in Hz is the distance of the two levels')
    if ctx.flag('wavelength'):
        ctx.assume(d > 0)
        ctx.eq(x.wl.to('nm').magnitude * d, 299792458 * 10 ** 9, 'wavelength is the speed of light over the frequency')
        return
    # after an energy or a coefficient was edited
    v = ctx.real('new value')
    if ctx.flag('edit the energy'):
        w.l1.level = hz(v)
        w.s1.E = v
    else:
        w.l2.hfA = hz(v)
        w.s2.a = v
    for a, b, y in w.pairs(layer):
        if y is x:
            ctx.assume(a != b)
            d = a - b
            d = d if d > 0 else -d
            ctx.eq(y.freq.to('Hz').magnitude, d, 'frequency follows the levels')


def assign_cases(tier):
    out = []
    for s in ('abcde' if tier == 'thorough' else 'abcd'):
        for y in ('fine', 'hyperfine', 'Zeeman'):
            for z in ('none', 'fine', 'hyperfine', 'Zeeman'):
                if tier == 'quick' and (s in 'bc' and z in ('hyperfine', 'Zeeman') and not (s == 'b' and z == y) or
                                        s == 'd' and z == 'hyperfine'):
                    continue
                out.append(dict(spins=s, layer=y, second=z))
    return out


@harness('C05', cases=assign_cases,
         bounds='one or two assignments in succession, each at any layer, to up to three components; units Hz, THz, MHz, '
                'at the fine layer also nm and 1/cm, given through set_frequency, the freq attribute or at creation; '
                'another set level and its transition in the atom; all energies, A, g, fields and frequencies for '
                'which the levels stay in the order of their parents',
         outside='assignments that change the order of the levels')
def assigning(ctx, spins, layer, second):
    w = World(ctx, spins)
    atom = w.atom
    up = ctx.flag('upper level named first')
    pair = (w.l2, w.l1) if up else (w.l1, w.l2)
    other = None
    if layer == 'fine' and ctx.flag('frequency given at creation'):
        f = ctx.real('f', positive=True)
        w.t = A.Transition(*pair, freq=hz(f))
        atom.add_transition(w.t)
        w.s2.E = w.s1.E + f
        ctx.eq(w.t.freq.to('Hz').magnitude, f, 'frequency given at creation')
    else:
        w.t = A.Transition(*pair)
        atom.add_transition(w.t)
        assign(ctx, w, layer, 'f')
    if second != 'none':
        if second != 'fine':
            w.separated('between 2')
        assign(ctx, w, second, 'f2')
    ctx.eq(w.l3.level_Hz, w.third, 'levels not linked do not move')


def assign(ctx, w, layer, name):
    ea, eb, x = comp(ctx, w, layer, name + ' of component')
    f = ctx.real(name, positive=True)
    d = eb - ea
    ctx.assume(d > 0)                           # the component lies in the order of its parents
    D = w.s2.E - w.s1.E
    ctx.assume(D > 0)
    ctx.assume(D + f - d > 0)                   # and the parents stay in order
    if layer == 'Zeeman':
        p = x.parent
        a, b = (p.E_1, p.E_2) if p.E_1.manifold is w.l1 else (p.E_2, p.E_1)
        dh = w.s2.hf(b.term.F) - w.s1.hf(a.term.F)
        ctx.assume(dh > 0)
        ctx.assume(dh + f - d > 0)
    unit = ctx.pick(name + ' in', ['Hz', 'THz', 'nm', '1/cm'] if layer == 'fine' else ['Hz', 'MHz'])
    if name == 'f' and layer == 'fine':
        x.freq = quantity(f, unit)
    else:
        x.set_frequency(quantity(f, unit))
    ctx.eq(x.freq.to('Hz').magnitude, f, 'the transition reports the assigned frequency')
    ctx.eq(w.t.freq.to('Hz').magnitude, D + f - d, 'the fine-structure transition moves along')
    ctx.eq(w.l2.level_Hz - w.l1.level_Hz, D + f - d, 'distance of the levels after an assignment')
    s = w.l2.level_Hz - w.s2.E
    w.s1.E, w.s2.E = w.l1.level_Hz, w.l2.level_Hz
    ctx.eq(w.l3.level_Hz, w.third, 'other levels do not move')
