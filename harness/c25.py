"""C25  Grotrian diagrams: where lines, boxes and arrows are drawn"""
import matplotlib.pyplot  # noqa: F401  (before the stand-ins below)
import matplotlib.collections
import matplotlib.patches


class Drawn:
    """stands for the artists of matplotlib, which cannot hold symbolic numbers"""
    def __init__(self, *a, **k):
        self.a, self.k = a, k


class Lines(Drawn):
    pass


class Patches(Drawn):
    pass


class Box(Drawn):
    pass


class Arrow(Drawn):
    pass


matplotlib.collections.LineCollection = Lines
matplotlib.collections.PatchCollection = Patches
matplotlib.patches.Rectangle = Box
matplotlib.patches.FancyArrowPatch = Arrow

from symx.registry import harness      # noqa: E402
from .common import A, Q_, level, steps     # noqa: E402
from atomtoolkit.render import grotrian as G    # noqa: E402


class Axes:
    def __init__(self):
        self.lines, self.patches, self.arrows = [], [], []

    def add_collection(self, c):
        if isinstance(c, Lines):
            segs = list(c.a[0] if c.a else c.k['segments'])
            cols = list(c.k.get('colors') or [])
            lws = list(c.k.get('linewidths') or [])
            for i, s in enumerate(segs):        # like matplotlib, which cycles through colours and widths
                self.lines.append((tuple(s), cols[i % len(cols)] if cols else None, lws[i % len(lws)] if lws else None))
        else:
            self.patches += list(c.a[0] if c.a else c.k['patches'])

    def add_patch(self, p):
        self.arrows.append(p)

    def autoscale(self, *a, **k):
        pass


class Setting:
    def __init__(self, ctx, I, J, opts=()):
        self.ctx, self.I, self.J = ctx, I, J
        self.E = ctx.real('E')
        self.atom = A.Atom('x', I=I)
        self.kw = {}
        for o in opts:
            self.kw[o] = v = ctx.real(o)
            if o in ('width', 'hf_scale', 'z_scale', 'bbox_pad'):
                ctx.assume(v > 0 if o == 'width' else v >= 0)

    def add(self, a=0.0, b=0.0, c=0.0, g=1.0, B=None):
        # another level lies below, so that the level is not the ground state
        self.low = level('a', '2S', 0.5 if self.J % 1 else 1, self.E - 10 ** 15)
        self.lv = level('c', '2P', self.J, self.E, g, a, b, c)
        for x in (self.low, self.lv):
            self.atom.add_level(x)
        if B is not None:
            self.atom.B = Q_(B, 'G')
        return self.lv

    def place(self):
        k = self.kw
        x = k.get('x0', self.J) + k.get('x1', 0)
        y = k.get('y0', self.E / 10 ** 12) + k.get('y1', 0)
        return x, y, k.get('width', 0.8)

    def squeeze(self, how):
        """the F that is as wide as the level"""
        if how is None or how is True:
            if how:
                self.kw['squeeze'] = True
            return self.I + self.J
        self.kw['squeeze'] = how
        if how is False:
            return self.I + self.low.term.J
        return how

    def table(self, lv, strategy, **kw):
        self.g = g = G.Grotrian()
        g.add_level(lv, strategy=strategy, **self.kw, **kw)
        self.axes = Axes()
        g.render_levels(self.axes)
        return [r for _, r in g.lines_df.iterrows()]


def inside(ctx, box, pts, pad):
    x0, y0, x1, y1 = box
    for p in pts:
        ctx.check(x0 <= p[0], 'inside the box (left)')
        ctx.check(p[0] <= x1, 'inside the box (right)')
        ctx.check(y0 <= p[1], 'inside the box (bottom)')
        ctx.check(p[1] <= y1, 'inside the box (top)')
    ctx.check(ctx.holds(min(p[0] for p in pts) - pad == x0), 'the box extends to the left by the padding')
    ctx.check(ctx.holds(max(p[0] for p in pts) + pad == x1), 'the box extends to the right by the padding')


def horizontal(ctx, r, x, y, w):
    ctx.eq(r['p0'][1], y, 'height of the line')
    ctx.eq(r['p1'][1], y, 'height of the line')
    ctx.eq(r['p0'][0], x - w / 2, 'left end of the line')
    ctx.eq(r['p1'][0], x + w / 2, 'right end of the line')


@harness('C25', cases=lambda tier: [dict(opts=o, via=v) for o in ((), ('width', 'x1', 'y1'), ('x0', 'y0', 'width', 'bbox_pad'), ('x0', 'x1', 'y0', 'y1'))
                                    for v in ('g', 'gross', 'default', 'hf part', 'z part')],
         bounds='every energy, J up to 20, width, absolute position and shift, padding; a level given itself or through one of its '
                'sublevels')
def fine(ctx, opts, via):
    I = 0.5
    s = Setting(ctx, I, ctx.half('J', 0, 20) if 'part' not in via else 1.5, opts)
    lv = s.add(ctx.real('A'))
    if via == 'hf part':
        rows = s.table(lv['F=2'], 'g')
    elif via == 'z part':
        rows = s.table(lv['F=2']['mF=-1'], 'g')
    else:
        rows = s.table(lv, None if via == 'default' else via)
    ctx.check(len(rows) == 1, 'one line')
    r = rows[0]
    ctx.check(r['level'] is lv, 'the line of the level')
    ctx.check(bool(r['show']), 'visible')
    x, y, w = s.place()
    horizontal(ctx, r, x, y, w)
    inside(ctx, r['bbox'], (r['p0'], r['p1']), s.kw.get('bbox_pad', 0.05))
    ctx.check(len(s.axes.lines) == 1, 'one line drawn')


def _hf(tier):
    out = []
    for I, J in [(0.5, 0.5), (0.5, 1.5), (1.5, 1.5), (0, 1.5), (1, 2), (0.5, 0)] + ([(2.5, 1.5), (2.5, 2.5), (1, 1), (4.5, 3)] if tier != 'quick' else []):
        for o, sq in (((), None), (('width', 'x1', 'y1'), True), (('x0', 'y0', 'hf_scale'), False), (('width', 'hf_scale', 'x1', 'y0'), 2.5)):
            for sp in (None, 'realistic', 'schematic'):
                if sp is None or sq is None:
                    out.append(dict(I=I, J=J, opts=o, sq=sq, spacing=sp, offset=False))
        out.append(dict(I=I, J=J, opts=('width', 'x0'), sq=None, spacing=None, offset=True))
    return out


@harness('C25', cases=_hf,
         bounds='every energy, A and B coefficient, width, position, shift and scale; I, J among six pairs up to 3/2 and 2 (ten up to 9/2 and 3 '
                'in the thorough tier); realistic and schematic spacing; any horizontal offset')
def hyperfine(ctx, I, J, opts, sq, spacing, offset):
    s = Setting(ctx, I, J, opts)
    lv = s.add(ctx.real('A'), ctx.real('B') if spacing is None else 0.0)
    if spacing:
        s.kw['spacing'] = spacing
    off = 0
    if offset:
        off = s.kw['offset'] = ctx.real('offset')
    full = s.squeeze(sq)
    rows = s.table(lv, ctx.pick('strategy', ['hf', 'hyperfine']) if not opts else 'hf')
    Fs = steps(abs(I - J), I + J)
    shown = [r for r in rows if r['show']]
    ctx.check(len(rows) == len(Fs) + 1 and len(shown) == len(Fs), 'one visible line for each F and a hidden one for the level')
    x, y, w = s.place()
    scale = s.kw.get('hf_scale', 10000) / 10 ** 12
    sh = {F: lv[f'F={ctx_frac(F)}'].shift_Hz for F in Fs}
    span = abs(sh[Fs[-1]] - sh[Fs[0]])
    heights = []
    for i, F in enumerate(Fs):
        mine = [r for r in shown if r['level'] is lv[f'F={ctx_frac(F)}']]
        ctx.check(len(mine) == 1, 'one line for each F')
        r = mine[0]
        heights.append(r['p0'][1])
        if spacing == 'schematic':
            ctx.eq(r['p1'][1], r['p0'][1], 'the line is horizontal')
            if i:
                ctx.eq(heights[i] - heights[i - 1], scale * span / len(Fs), 'equal spacing')
        else:
            horizontal(ctx, r, x + i * off * w, y + scale * sh[F], w * (2 * F + 1) / (2 * full + 1))
        if F == full:
            ctx.eq(r['p1'][0] - r['p0'][0], w, 'the full width')
    hid = [r for r in rows if not r['show']][0]
    ctx.check(hid['level'] is lv, 'the hidden line is that of the level')
    if spacing is None and not offset and (I, J) in ((0.5, 0.5), (0, 1.5), (0.5, 1.5)):
        inside(ctx, hid['bbox'], [p for r in shown for p in (r['p0'], r['p1'])], s.kw.get('bbox_pad', 0.05))
    ctx.check(len(s.axes.lines) == len(Fs), 'as many lines drawn as visible ones')


def ctx_frac(x):
    n = int(round(2 * x))
    return str(n // 2) if n % 2 == 0 else f'{n}/2'


def _z(tier):
    out = []
    for I, J in [(0.5, 0.5), (0.5, 1.5), (0, 0.5), (0, 1.5), (1, 1)] + ([(1.5, 1.5), (2.5, 0.5), (0, 2.5)] if tier != 'quick' else []):
        for o, sq in (((), None), (('width', 'x1', 'y1'), True), (('x0', 'y0', 'hf_scale', 'z_scale'), None), (('width', 'z_scale'), 2.5),
                      (('width', 'hf_scale'), False)):
            for part in (False, True):
                out.append(dict(I=I, J=J, opts=o, sq=sq, part=part))
    return out


@harness('C25', cases=_z,
         bounds='every energy, A coefficient, field, width, position, shift and scales; I, J among five pairs up to 1 and 3/2 (eight up to 5/2 in '
                'the thorough tier); a whole level or one hyperfine sublevel; with the usual filling',
         outside='other fillings')
def zeeman(ctx, I, J, opts, sq, part):
    s = Setting(ctx, I, J, opts)
    b = ctx.real('field')
    lv = s.add(ctx.real('A'), g=0.75, B=b)
    full = s.squeeze(sq)
    Fs = steps(abs(I - J), I + J)
    root = lv
    if part:
        root = lv[f'F={ctx_frac(Fs[-1])}']
        Fs = Fs[-1:]
    rows = s.table(root, ctx.pick('strategy', ['z', 'zeeman']) if not opts else 'z')
    shown = [r for r in rows if r['show']]
    total = sum(int(2 * F + 1) for F in Fs)
    ctx.check(len(shown) == total, 'one visible line for each Zeeman sublevel')
    ctx.check(len(rows) == total + len(Fs) + (0 if part else 1), 'hidden lines for the levels above')
    x, y, w = s.place()
    hf, z = s.kw.get('hf_scale', 10000) / 10 ** 12, s.kw.get('z_scale', 5)
    one = None
    for F in Fs:
        h = lv[f'F={ctx_frac(F)}']
        prev = first = None
        pts = []
        for m in steps(-F, F):
            sub = h[f'mF={ctx_frac(m)}']
            mine = [r for r in shown if r['level'] is sub]
            ctx.check(len(mine) == 1, 'one line for each Zeeman sublevel')
            r = mine[0]
            pts += [r['p0'], r['p1']]
            for p in (r['p0'], r['p1']):
                ctx.eq(p[1], y + hf * (h.shift_Hz + z * sub.shift_Hz), 'height of a Zeeman line')
            one = one if one is not None else r['p1'][0] - r['p0'][0]
            ctx.eq(r['p1'][0] - r['p0'][0], one, 'all Zeeman lines are equally long')
            if prev is not None:
                ctx.check(r['p0'][0] >= prev['p1'][0], 'Zeeman lines side by side in the order of mF')
                if m > 1 - F:
                    ctx.eq(r['p0'][0] - prev['p1'][0], gap, 'equal gaps')
                gap = r['p0'][0] - prev['p1'][0]
            first = first if first is not None else r
            prev = r
        ctx.eq(first['p0'][0] + prev['p1'][0], 2 * x, 'the ladder is centred')
        if F == full:
            ctx.eq(prev['p1'][0] - first['p0'][0], w, 'the ladder has the full width')
        hid = [r for r in rows if r['level'] is h]
        ctx.check(len(hid) == 1 and not hid[0]['show'], 'a hidden line for the hyperfine level')
        if not opts:
            inside(ctx, hid[0]['bbox'], pts, 0.05)
    if not part:
        hid = [r for r in rows if r['level'] is lv]
        ctx.check(len(hid) == 1 and not hid[0]['show'], 'a hidden line for the level')
    ctx.check(len(s.axes.lines) == total, 'as many lines drawn as visible ones')


@harness('C25', cases=lambda tier: [dict(I=I, J=J, strategy=z, offset=o) for I, J in [(0.5, 0.5), (0.5, 1.5), (1, 1), (0, 1.5)] + ([(1.5, 1.5), (2.5, 2)] if tier != 'quick' else [])
                                    for z in ('hf', 'z') for o in (False, True) if not (o and z == 'z') and (z == 'hf' or (I, J) in ((0.5, 0.5), (0, 1.5)))],
         bounds='every energy, A coefficient, field, width, scale and offset; every spacing and sublevel width between 0 and 1; I, J among four pairs up to 1 and 3/2 (six up to 5/2 and 2 in the '
                'thorough tier), for Zeeman structure 1/2, 1/2 and 0, 3/2')
def interpolated(ctx, I, J, strategy, offset):
    s = Setting(ctx, I, J, ('width', 'hf_scale'))
    lv = s.add(ctx.real('A'), B=ctx.real('field') if strategy == 'z' else None, g=0.75)
    if offset:
        s.kw['offset'] = ctx.real('offset')
    b, a = ctx.real('spacing', 0, 1), ctx.real('sublevel width', 0, 1)

    def drawn(**kw):
        return [r for r in s.table(lv, strategy, **kw) if r['show']]
    exact = drawn(spacing='realistic', sublevel_width='degeneracy')
    plain = drawn()
    schem = drawn(spacing='schematic', sublevel_width='schematic')
    mixed = drawn(spacing=b, sublevel_width=a)
    ctx.check(len(exact) == len(plain) == len(schem) == len(mixed), 'as many lines')
    hfs = {}
    if strategy == 'z':
        hfs = {id(r['level']): r for r in s.table(lv, 'hf', spacing='schematic') if r['show']}
    last = None
    for e, p, c, m in zip(exact, plain, schem, mixed):
        ctx.check(e['level'] is p['level'] and e['level'] is c['level'] and e['level'] is m['level'], 'the same lines')
        for q in ('p0', 'p1'):
            ctx.eq(p[q][0], e[q][0], 'sublevel widths by degeneracy unless asked otherwise')
            ctx.eq(p[q][1], e[q][1], 'realistic spacing unless asked otherwise')
            ctx.eq(m[q][1], b * e[q][1] + (1 - b) * c[q][1], 'height between realistic and schematic')
            if strategy == 'hf':
                ctx.eq(m[q][0], a * e[q][0] + (1 - a) * c[q][0], 'width between degenerate and schematic')
            else:
                ctx.eq(m[q][0], e[q][0], 'Zeeman lines are not widened')
        if strategy == 'hf' and not offset:
            ctx.eq(c['p1'][0] - c['p0'][0], s.kw['width'], 'schematic lines have the full width')
        if strategy == 'z' and last is not None and last['level'].parent is c['level'].parent:
            ctx.eq(last['p0'][1], c['p0'][1], 'schematic Zeeman lines of one F at the same height')
        if strategy == 'z':
            ctx.eq(c['p0'][1], hfs[id(c['level'].parent)]['p0'][1], 'schematic Zeeman lines at the height of their hyperfine line')
        last = c


@harness('C25', cases=lambda tier: [dict(n=n) for n in range(1, 5 if tier == 'quick' else 7)],
         bounds='boxes around 1 to 4 points (6 in the thorough tier) at every position, every padding')
def box(ctx, n):
    pts = [(ctx.real(f'x{i}'), ctx.real(f'y{i}')) for i in range(n)]
    kw = {}
    if ctx.flag('padding given'):
        kw['pad'] = ctx.real('padding')
        ctx.assume(kw['pad'] >= 0)
    pad = kw.get('pad', 0.05)
    x0, y0, x1, y1 = G.Grotrian.bbox(pts, **kw)
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    h = max(ys) - min(ys)
    ctx.eq(x0, min(xs) - pad, 'left')
    ctx.eq(x1, max(xs) + pad, 'right')
    ctx.eq(y0, min(ys) - pad * h, 'bottom')
    ctx.eq(y1, max(ys) + pad * h, 'top')


STYLES = [dict(), dict(color=(1, 0, 0, 1), linewidth=3), dict(bbox='bracket'), dict(bbox='bracket', bracket_color=(0, 1, 0, 1), bracket_lw=4, bracket_h=0.25),
          dict(bbox='rect'), dict(bbox='rectangle', rect_alpha=0.5, rect_color=(0, 0, 1), rect_fill=False, color=(0, 1, 1, 1))]


@harness('C25', cases=lambda tier: [dict(styles=(a, b, c)) for a in range(6) for b in range(6) for c in ((0, 3) if tier == 'quick' else range(6))],
         bounds='three levels (one of them with its hyperfine structure) with every energy and A coefficient, in every combination of six styles for two of them')
def render(ctx, styles):
    g = G.Grotrian()
    atom = A.Atom('x', I=0.5)
    lvs = []
    for i, n in enumerate('cde'):
        lv = level(n, '2P', (0.5, 1.5, 2.5)[i], ctx.real('E' + n), 1.0, ctx.real('A') if i == 2 else 0.0)
        atom.add_level(lv)
        lvs.append(lv)
    for i, lv in enumerate(lvs):
        g.add_level(lv, strategy='hf' if i == 2 else 'g', **STYLES[styles[i]])
    ax = Axes()
    g.render(ax)
    brackets, lines, boxes = [], [], []
    for i, lv in enumerate(lvs):
        st = STYLES[styles[i]]
        rows = [r for _, r in g.lines_df.iterrows() if getattr(r['level'], 'manifold', None) is lv]
        own = [r for r in rows if r['level'] is lv][0]
        ctx.check(len(rows) == (3 if i == 2 else 1), 'each level tabulated once')
        lines += [((r['p0'], r['p1']), st.get('color', (0, 0, 0, 1)), st.get('linewidth', 2)) for r in rows if r['show']]
        x0, y0, x1, y1 = own['bbox']
        if st.get('bbox') == 'bracket':
            h = st.get('bracket_h', 0.05)
            for a, b in ((x0, x0 + h), (x1, x1 - h)):
                brackets.append((((b, y0), (a, y0), (a, y1), (b, y1)), st.get('bracket_color', (0, 0, 0, .8)), st.get('bracket_lw', 1)))
        elif 'bbox' in st:
            boxes.append(((x0, y0), x1 - x0, y1 - y0, st.get('rect_alpha', 0.2), st.get('rect_color'), st.get('rect_fill', True)))
    same(ctx, [x for x in ax.lines if len(x[0]) == 2], lines, 'level lines')
    same(ctx, [x for x in ax.lines if len(x[0]) != 2], brackets, 'brackets')
    same(ctx, [(b.a[0], b.a[1], b.a[2], b.k.get('alpha'), b.k.get('color'), b.k.get('fill')) for b in ax.patches], boxes, 'boxes')


def same(ctx, got, want, what):
    ctx.check(len(got) == len(want), f'{what}: as many as asked for')
    for a, b in zip(got, want):
        fa, fb = flat(a), flat(b)
        ctx.check(len(fa) == len(fb), f'{what}: shape')
        for x, y in zip(fa, fb):
            if x is None or y is None:
                ctx.check(x is y, f'{what}: style')
            else:
                ctx.eq(x, y, f'{what}: place and style')


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


LAYERS = [('gross', 'gross', 'fine'), ('gross', 'gross', 'hf'), ('gross', 'hf', 'fine'), ('hf', 'gross', 'hf'), ('hf', 'hf', 'z'), ('z', 'hf', 'z'), ('z', 'z', 'hf'),
          ('gross', 'z', 'z'), ('z', 'z', 'fine')]


@harness('C25', cases=lambda tier: [dict(layers=x, transition=t) for x in LAYERS for t in ((False, True) if x[2] == 'fine' else (False,))],
         bounds='two levels with every energy up to 1000 THz and A coefficient, drawn in gross, hyperfine or Zeeman structure; arrows between the levels or between sublevels; every anchor from '
                '1 to 9 (the same pair for both ends in the quick tier) and every fractional offset')
def arrows(ctx, layers, transition):
    s0, s1, kind = layers
    atom = A.Atom('x', I=0.5, B=Q_(2.0, 'G'))
    e0, gap = ctx.real('E', -1000, 1000) * 10 ** 12, ctx.real('gap', 11, 1000) * 10 ** 12      # in THz, like the diagram
    l0 = level('c', '2P', 0.5, e0, 0.75, 10 ** 9 if s0 != 'gross' else 0.0)
    l1 = level('d', '2D*', 1.5, e0 + gap, 0.75, 10 ** 8 if s1 != 'gross' else 0.0)
    swap = ctx.flag('upper level added first')
    for x in ((l1, l0) if swap else (l0, l1)):
        atom.add_level(x)
    t = A.Transition(l1, l0) if swap else A.Transition(l0, l1)
    atom.add_transition(t)
    g = G.Grotrian()
    g.add_level(l0, strategy=s0, width=1, x1=ctx.real('x1'))
    g.add_level(l1, strategy=s1, width=2)
    ends = {'fine': (l0, l1), 'hf': (l0['F=1'], l1['F=2']), 'z': (l0['F=1']['mF=-1'], l1['F=2']['mF=1'])}[kind]
    a = ctx.pick('start anchor', list(range(1, 10)))
    b = (a * 2) % 9 + 1
    offs = {n: ctx.real(n) for n in ('start_x1', 'end_x1', 'start_y1', 'end_y1')} if a % 2 else {}
    kw = dict(start_anchor=a, end_anchor=b, **offs)
    if a == 5 and not ctx.flag('anchor given'):
        del kw['start_anchor']
    back = not transition and kind == 'fine' and ctx.flag('drawn downwards')
    if back:
        ends = ends[::-1]
    g.add_transition(t if transition else ends, lw=7, **kw)
    ax = Axes()
    g.render(ax)
    ctx.check(len(ax.arrows) == 1, 'one arrow')
    arrow = ax.arrows[0]
    ctx.check(arrow.k.get('lw') == 7, 'styles are passed on')
    df = [r for _, r in g.lines_df.iterrows()]
    for lv, anchor, end, which in ((ends[0], a, 'posA', 'start'), (ends[1], b, 'posB', 'end')):
        row = None
        while row is None:
            row = next((r for r in df if r['level'] is lv), None)
            lv = lv.parent
        x0, y0, x1, y1 = row['bbox']
        ex = (x0, (x0 + x1) / 2, x1)[(anchor - 1) % 3] + offs.get(which + '_x1', 0)
        ey = (y1, (y0 + y1) / 2, y0)[(anchor - 1) // 3] + offs.get(which + '_y1', 0)
        ctx.eq(arrow.k[end][0], ex, f'{which} of the arrow (x)')
        ctx.eq(arrow.k[end][1], ey, f'{which} of the arrow (y)')


@harness('C25', cases=lambda tier: [dict(n=n, inner=i) for n in (1, 2, 3) for i in (False, True)],
         bounds='quick diagrams (draw_levels) of up to three levels, every energy and three values of J; every choice of transitions and of internal transitions',
         outside='plot types with sublevels, which have no positions')
def quick_diagram(ctx, n, inner):
    import networkx as nx
    atom = A.Atom('x')
    E = [ctx.real(f'E{i}', 0, 10 ** 6) for i in range(n)]
    J = [ctx.pick(f'J{i}', [0.5, 1.5] if n == 3 else [0.5, 1.5, 20]) for i in range(n)]
    ls = [level(f'c{i}', '2P', J[i], E[i] * 10 ** 12) for i in range(n)]
    for l in ls:
        atom.add_level(l)
    pairs = [(i, j) for i in range(n) for j in range(i) if ctx.flag(f'transition {i} {j}')]
    for i, j in pairs:
        atom.add_transition(A.Transition(ls[i], ls[j]))
    if inner:
        atom.populate_internal_transitions()
    calls, old = [], nx.draw
    nx.draw = lambda g, pos=None, ax=None, **k: calls.append((g, pos, k))
    try:
        G.draw_levels(atom, **(dict(plot_type='norm') if ctx.flag('type given') else {}), node_color='k')
    finally:
        nx.draw = old
    ctx.check(len(calls) == 1 and calls[0][2].get('node_color') == 'k', 'one drawing with the given options')
    g, pos, _ = calls[0]
    ctx.check(sorted(g.nodes()) == sorted(l.name for l in ls), 'every level is drawn')
    for i, l in enumerate(ls):
        ctx.eq(pos[l.name][0], J[i], 'horizontal position')
        ctx.eq(pos[l.name][1], E[i], 'vertical position (THz)')
    ctx.check(sorted(tuple(sorted(e)) for e in g.edges()) == sorted(tuple(sorted((ls[i].name, ls[j].name))) for i, j in pairs), 'a line for every transition between different levels')
    ctx.check(len(atom.transitions) == len(pairs) + (n if inner else 0), 'the atom keeps its transitions')


@harness('C25', bounds='a level drawn by a function given as strategy and one with the default strategy set beforehand, every energy and option')
def own_strategy(ctx):
    s = Setting(ctx, 0.5, 0.5, ('width', 'x1'))
    lv = s.add(ctx.real('A'))
    g = G.Grotrian()
    given = ctx.real('given')
    pts = [(ctx.real('p0x'), ctx.real('p0y')), (ctx.real('p1x'), ctx.real('p1y'))]
    seen = []

    def mine(l, **kw):
        seen.append((l, kw))
        return dict(level=[l], show=[True], p0=[pts[0]], p1=[pts[1]], bbox=[(0, 0, 1, 1)], kwargs=[kw])
    g.add_level(lv, strategy=mine, given=given, **s.kw)
    g.add_level_strategy = other = ctx.pick('default strategy', ['g', 'gross', 'hf', 'hyperfine'])
    g.add_level(s.low, **s.kw)
    ax = Axes()
    g.render_levels(ax)
    ctx.check(len(seen) == 1 and seen[0][0] is lv and set(seen[0][1]) >= {'given', *s.kw}, 'the strategy is called with the level and the options')
    ctx.eq(seen[0][1]['given'], given, 'option')
    rows = [r for _, r in g.lines_df.iterrows()]
    first = [r for r in rows if r['level'] is lv]
    ctx.check(len(first) == 1, 'the lines the strategy gives')
    for q, p in zip(('p0', 'p1'), pts):
        ctx.eq(first[0][q][0], p[0], 'point given by the strategy')
        ctx.eq(first[0][q][1], p[1], 'point given by the strategy')
    rest = [r for r in rows if r['level'] is not lv and r['show']]
    ctx.check(len(rest) == (1 if other[0] == 'g' else len(s.low.sublevels())), 'the default strategy of the diagram')
    ctx.check(len([x for x in ax.lines if len(x[0]) == 2]) == 1 + len(rest), 'lines drawn')
