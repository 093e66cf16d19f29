"""C16  saving and loading"""
import io
import os
import pickle

from symx.registry import harness
from .common import A, Q_, hz, level, same_text
from .c15 import scratch


class Build:
    def __init__(self, ctx, I, generated):
        self.ctx = ctx
        self.B = ctx.real('field', -1000, 1000)
        self.atom = atom = A.Atom('Yb', I=I, B=Q_(self.B, 'G'))
        E = [0.0, ctx.real('E1', 10 ** 13, 10 ** 14), ctx.real('E2', 2 * 10 ** 14, 10 ** 15)]
        self.lv = [level('6s', '2S', 0.5, E[0], 2.0, ctx.real('A0', -10 ** 10, 10 ** 10), alias='ground'),
                   level('6p', '2P*', 0.5, E[1], ctx.real('g1', -3, 3), ctx.real('A1', -10 ** 10, 10 ** 10)),
                   level('5d', '2D', 1.5, E[2], 0.8, 1e8, ctx.real('B2', -10 ** 10, 10 ** 10))]
        for x in self.lv:
            atom.add_level(x)
        self.f = ctx.real('f', 2 * 10 ** 13, 10 ** 14)
        self.a = ctx.real('Acoef', 0, 10 ** 9)
        self.t = [A.Transition(self.lv[0], self.lv[1], A=hz(self.a), alias='cooling'),
                  A.Transition(self.lv[2], self.lv[1], freq=None)]
        for t in self.t:
            atom.add_transition(t)
        if generated:
            for x in self.lv:
                for h in x.sublevels():
                    for z in h.sublevels():
                        pass
            h = self.lv[1].sublevels()[0]
            h.sublevels()[-1].quadratic_zeeman = ctx.real('q', -1000, 1000)
            for t in self.t:
                for x in t.subtransitions():
                    x.subtransitions()
        if ctx.flag('a frequency was set'):
            self.t[0].set_frequency(hz(self.f))
        self.lv[1].alias = 'excited'


def same(ctx, a, b, what, deep=True):
    """every observable of b equals that of a, and they share nothing"""
    ctx.check(b is not a, what + 'another object')
    ctx.check(b.name == a.name and b.I == a.I, what + 'name and nuclear spin')
    ctx.eq(b.B_gauss, a.B_gauss, what + 'magnetic field')
    ctx.eq(b.B.to('G').magnitude, a.B_gauss, what + 'magnetic field')
    ctx.check(list(b.levels.keys()) == list(a.levels.keys()), what + 'names of the levels')
    ctx.check(sorted(b.levels.aliases) == sorted(a.levels.aliases), what + 'aliases of the levels')
    ctx.check(sorted(b.transitions.aliases) == sorted(a.transitions.aliases), what + 'aliases of the transitions')
    ctx.check(sorted(map(sorted, b.transitions.keys())) == sorted(map(sorted, a.transitions.keys())), what + 'transitions')
    for k in a.levels.aliases:
        ctx.check(b.levels[k].name == a.levels[k].name and b.levels[k] is b.levels[a.levels[k].name],
                  what + 'a level under its alias')
    for k in a.transitions.aliases:
        x, y = a.transitions[k], b.transitions[k]
        ctx.check(y is b.transitions[x.E_1.name, x.E_2.name], what + 'a transition under its alias')
    for n in a.levels.keys():
        x, y = a.levels[n], b.levels[n]
        levels(ctx, x, y, b, what)
        for k in (x.keys() if deep else []):
            levels(ctx, x[k], y[k], b, what)
            ctx.check(list(x[k].keys()) == list(y[k].keys()), what + 'sublevels')
            for m in x[k].keys():
                levels(ctx, x[k][m], y[k][m], b, what)
                ctx.eq(y[k][m].quadratic_zeeman, x[k][m].quadratic_zeeman, what + 'quadratic coefficient')
    for n in a.transitions.keys():
        x, y = a.transitions[n], b.transitions[n]
        transitions(ctx, x, y, b, what)
        ctx.check(y.E_1 is b.levels[x.E_1.name] and y.E_2 is b.levels[x.E_2.name], what + 'levels of a transition')
        if not deep:
            continue
        ctx.check(sorted(x.keys()) == sorted(y.keys()), what + 'components')
        for k in x.keys():
            transitions(ctx, x[k], y[k], b, what)
            ctx.check(y[k].parent is y and y[k].E_1 is b.levels[x[k].E_1.name], what + 'parent of a component')
            ctx.check(sorted(x[k].keys()) == sorted(y[k].keys()), what + 'Zeeman components')
            for m in x[k].keys():
                transitions(ctx, x[k][m], y[k][m], b, what)


def levels(ctx, x, y, b, what):
    ctx.check(x is not y and y.atom is b, what + 'a level belongs to the loaded atom')
    ctx.check(x.name == y.name and x.term.J == y.term.J and x.term.F == y.term.F and x.term.mF == y.term.mF
              and x.term.quantum_nums == y.term.quantum_nums and x.alias == y.alias, what + 'quantum numbers of a level')
    ctx.eq(y.level_Hz, x.level_Hz, what + 'energy of a level')
    ctx.eq(y.shift_Hz, x.shift_Hz, what + 'shift of a level')
    if hasattr(x, 'lande'):
        for n in ('lande', 'hfA_Hz', 'hfB_Hz', 'hfC_Hz'):
            ctx.eq(getattr(y, n), getattr(x, n), what + n + ' of a level')


def transitions(ctx, x, y, b, what):
    ctx.check(x is not y and y.atom is b, what + 'a transition belongs to the loaded atom')
    ctx.check((x.E_1.name, x.E_2.name) == (y.E_1.name, y.E_2.name) and x.name == y.name and x.alias == y.alias,
              what + 'levels of a transition')
    ctx.check([bool(v) for v in x.allowed_types] == [bool(v) for v in y.allowed_types], what + 'types of a transition')
    ctx.eq(y.freq_Hz, x.freq_Hz, what + 'frequency')
    ctx.eq(y.rel_strength, x.rel_strength, what + 'relative strength')
    ctx.check((x.A is None) == (y.A is None), what + 'A coefficient present')
    if x.A is not None:
        ctx.eq(y.A.to('Hz').magnitude, x.A.to('Hz').magnitude, what + 'A coefficient')
    ctx.check((x.set_freq is None) == (y.set_freq is None), what + 'set frequency present')


@harness('C16', cases=lambda tier: [dict(I2=i, generated=g, edit=e) for i in range(4 if tier == 'quick' else 6)
                                    for g in (False, True) for e in ('frequency', 'component', 'energy', 'field', 'coefficient', 'delete')
                                    if tier == 'thorough' or i < 3 or e in ('frequency', 'field')],
         bounds='an atom of three levels and two transitions with I <= 3/2 (quick; 5/2 thorough); energies, A, B, gJ, field, quadratic '
                'coefficient, A coefficient and a set frequency arbitrary; sublevels and components generated before saving or '
                'not; one of six edits afterwards, compared with the same edit of the original',
         outside='larger atoms')
def round_trip(ctx, I2, generated, edit):
    v = ctx.real('edit', 10 ** 13, 10 ** 14)
    b = Build(ctx, I2 / 2, generated)
    with scratch():
        b.atom.save('file')
        ctx.check(os.listdir('.') == ['file.atom'], 'the file is written under its name')
        c = A.Atom.load('file.atom')
    same(ctx, b.atom, c, '')
    before = [x.level_Hz for x in c.levels.values()]
    change(edit, c, v)
    if edit == 'energy':
        ctx.eq(b.lv[1].level_Hz, before[1], 'an edit of the loaded atom leaves the original alone')
    change(edit, b.atom, v)
    same(ctx, b.atom, c, 'edited afterwards: ')


def change(edit, atom, v):
    if edit == 'frequency':
        atom.transitions['cooling'].set_frequency(hz(v))
    elif edit == 'component':
        atom.transitions['cooling'].subtransitions()[0].set_frequency(hz(v))
    elif edit == 'energy':
        atom.levels['excited'].level = hz(v)
    elif edit == 'field':
        atom.B = Q_(v / 10 ** 12, 'G')
    elif edit == 'coefficient':
        atom.levels['excited'].hfA = hz(v / 10 ** 4)
        atom.levels['ground'].hfB = hz(v / 10 ** 5)
    else:
        del atom.transitions['cooling']
        atom.add_level(level('7s', '2S', 0.5, 9e14), alias='new')
        atom.add_transition(('6p 2P*1/2', '7s 2S1/2'))


CHARS = '.atom7'


@harness('C16', cases=lambda tier: [dict(n=n) for n in range(1, 8)],
         bounds='every file name of 1 to 7 characters over the alphabet ".", "a", "t", "o", "m", "7"',
         outside='other characters')
def file_names(ctx, n):
    name = ''.join(ctx.char(f'c{i}', CHARS) for i in range(n))
    atom = A.Atom('x', I=0.5)
    atom.add_level(level('6s', '2S', 0.5, 0.0))
    opened = []

    class Sink(io.BytesIO):
        def close(self):
            pass

    def fake(path, mode='r', *a, **k):
        opened.append((path, mode))
        return Sink()
    A.open = fake
    try:
        atom.save(name)
    finally:
        del A.open
    ctx.check(len(opened) == 1 and 'w' in opened[0][1] and 'b' in opened[0][1], 'one file is written')
    got = opened[0][0]
    if n >= 5 and same_text(ctx, name[-5:], '.atom'):
        ctx.check(same_text(ctx, got, name), 'a name that ends in .atom is used as it is')
    else:
        ctx.check(same_text(ctx, got, name + '.atom'), 'the ending is added to any other name')


@harness('C16', bounds='files holding any of nine other kinds of objects, the atom of a subclass, or no pickle at all')
def refused(ctx):
    kind = ctx.pick('content', ['dict', 'list', 'level', 'text', 'number', 'none', 'class', 'quantity', 'tuple', 'junk', 'empty'])
    lv = level('6s', '2S', 0.5, 0.0)
    atom = A.Atom('x', I=0.5)
    obj = dict(dict={'name': 'x'}, list=[atom], level=lv, text='Atom', number=1.5, none=None, quantity=Q_(1.0, 'Hz'),
               tuple=(atom,))
    obj['class'] = A.Atom
    with scratch():
        with open('f.atom', 'wb') as f:
            if kind == 'junk':
                f.write(b'not a pickle')
            elif kind != 'empty':
                pickle.dump(obj[kind], f)
        try:
            r = A.Atom.load('f.atom')
        except Exception as e:
            if kind not in ('junk', 'empty'):
                ctx.check(isinstance(e, OSError), 'the refusal is an IOError')
        else:
            ctx.check(False, 'a file that holds something else is refused')
        ctx.raises(OSError, lambda: A.Atom.load('missing.atom'), 'a missing file')
