T='atomtoolkit/transition_strengths.py'; L='atomtoolkit/render/lineshapes.py'; S='atomtoolkit/render/spectra.py'; G='atomtoolkit/render/grotrian.py'
U='atomtoolkit/util.py'; I='atomtoolkit/IO.py'; W='atomtoolkit/wigner.py'; H='atomtoolkit/atom_helpers.py'; M='atomtoolkit/term.py'
EDITS=[
(T,"""    prod = 1
    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                   F1, F0, I) ** 2
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0) ** 2
    return prod
""","""    return tkq_mel(I, k, q, J0, F0, M0, J1, F1, M1) ** 2
"""),
(T,"""    prod = 1
    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                 F1, F0, I)
    prod *= wigner3j(F1, k, F0,
                     -M1, q, M0)
    return prod
""","""    reduced = wigner6j(J0, J1, k, F1, F0, I)
    angular = wigner3j(F1, k, F0, -M1, q, M0)
    return np.sqrt((2 * F0 + 1) * (2 * F1 + 1)) * reduced * angular
"""),
(T,"""    eps = eps / np.linalg.norm(eps)
    tot = 0
    tot += tkq_mel(I, 1, -1, J0, F0, M0, J1, F1, M1) * 0.5 ** 0.5 * (eps[0] + 1j * eps[1])
    tot += tkq_mel(I, 1, 0, J0, F0, M0, J1, F1, M1) * eps[2]
    tot += tkq_mel(I, 1, 1, J0, F0, M0, J1, F1, M1) * 0.5 ** 0.5 * (eps[0] - 1j * eps[1])
    return tot


def E1_transition""","""    ex, ey, ez = eps / np.sqrt(np.dot(eps, eps))
    components = {-1: (ex + 1j * ey) / np.sqrt(2), 0: ez, 1: (ex - 1j * ey) / np.sqrt(2)}
    return sum(tkq_mel(I, 1, q, J0, F0, M0, J1, F1, M1) * c for q, c in components.items())


def E1_transition"""),
(T,"""    tot += tkq_transition_strength(I, 1, -1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    tot += tkq_transition_strength(I, 1, 0, J0, F0, M0, J1, F1, M1) * eps[2] ** 2
    tot += tkq_transition_strength(I, 1, 1, J0, F0, M0, J1, F1, M1) * 0.5 * (eps[0] ** 2 + eps[1] ** 2)
    return tot
""","""    transverse = (eps[0] ** 2 + eps[1] ** 2) / 2
    for q, weight in zip((-1, 0, 1), (transverse, eps[2] ** 2, transverse)):
        tot = tot + weight * tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1)
    return tot
"""),
(T,"""    ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
    ss = np.arange(abs(sc - so), abs(sc + so) + 1)
    outls = np.repeat(ls, len(ss))
    outss = np.tile(ss, len(ls))
    outpercs = np.array([float(wigner9j(lc, sc, Jc,
                                        lo, so, Jo,
                                        outls[i], outss[i], J) *
                               np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * outls[i] + 1) * (2 * outss[i] + 1)))
                         for i in range(len(outls))])
    return np.stack([outls, outss, outpercs])
""","""    rows = []
    for l in np.arange(abs(lc - lo), lc + lo + 1):
        for s in np.arange(abs(sc - so), sc + so + 1):
            norm = np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * l + 1) * (2 * s + 1))
            rows.append((l, s, norm * wigner9j(lc, sc, Jc, lo, so, Jo, l, s, J)))
    return np.array(rows).T
"""),
(T,"""    outpercs = np.array([np.sqrt((2 * K + 1) * (2 * outss[i] + 1)) * wigner6j(L, sc, K,
                                                                              so, J, outss[i]) for i in
                         range(len(outls))])
    return np.stack([outls, outss, outpercs])
""","""    outpercs = [np.sqrt((2 * K + 1) * (2 * s + 1)) * wigner6j(L, sc, K, so, J, s) for s in outss]
    return np.vstack((outls, outss, outpercs))
"""),
(L,"""    return ampl * gamma ** 2 / (4 * (x - x0) ** 2 + gamma ** 2)
""","""    detuning = 2 * (x - x0) / gamma
    return ampl / (1 + detuning ** 2)
"""),
(L,"""    return ampl * np.exp(-(x - x0) ** 2 / (2 * sigma ** 2))
""","""    return ampl * np.exp(-0.5 * ((x - x0) / sigma) ** 2)
"""),
(L,"""    for i in range(1, num_sidebands + 1):
        mod_ampl = ampl * float(jv(i, depth) ** 2)
        tot += lorentzian(x, x0 + i * mod_freq_GHz, gamma, ampl=mod_ampl)
        tot += lorentzian(x, x0 - i * mod_freq_GHz, gamma, ampl=mod_ampl)
    return tot
""","""    for i in range(num_sidebands, 0, -1):
        for sign in (1, -1):
            tot += lorentzian(x, x0 + sign * i * mod_freq_GHz, gamma, ampl=ampl * float(jv(i, depth) ** 2))
    return tot
"""),
(L,"""        ampl = 1.0
        if 'ampl' in kwargs:
            ampl = kwargs['ampl']
        return lorentzian(x, x0, width, ampl=ampl)
""","""        return lorentzian(x, x0, width, kwargs.get('ampl', 1.0))
"""),
(L,"""        width = self.width_func(x0=x0, **kwargs)
        x_values = np.linspace(x0 - width, x0 + width, num_points)
        y_values = self.shape_func(x_values, x0, **kwargs)
        return x_values, y_values
""","""        half = self.width_func(x0=x0, **kwargs)
        x_values = x0 + half * np.linspace(-1, 1, num_points)
        return x_values, self.shape_func(x_values, x0, **kwargs)
"""),
(S,"""        x_values = []
        for x in all_x:
            x_values.append(x)
        x_values = np.sort(np.array(x_values).flatten())
        y_values = np.zeros_like(x_values)
        for curve, x in zip(all_y, all_x):
            y_values += np.interp(x_values, x, curve)
        plt.plot""","""        x_values = np.sort(np.concatenate(all_x))
        y_values = sum(np.interp(x_values, x, curve) for x, curve in zip(all_x, all_y))
        plt.plot"""),
(S,"""        ampl = transition.rel_strength
        if kwargs.get('ampl_dict') is not None:
            ampl *= kwargs.get('ampl_dict')[transition.name]
        x_values""","""        factor = kwargs['ampl_dict'][transition.name] if kwargs.get('ampl_dict') else 1
        ampl = factor * transition.rel_strength
        x_values"""),
(S,"""        F0 = transition.E_lower.term.F_frac
        F1 = transition.E_upper.term.F_frac
        mF0 = transition.E_lower.term.mF_frac
        mF1 = transition.E_upper.term.mF_frac
        return f'F={F0}, mF={mF0} → F={F1}, mF={mF1}'
""","""        def state(level):
            return f'F={level.term.F_frac}, mF={level.term.mF_frac}'
        return ' → '.join(map(state, (transition.E_lower, transition.E_upper)))
"""),
(G,"""        xs = [pt[0] for pt in pts]
        ys = [pt[1] for pt in pts]
        y_pad = (max(ys) - min(ys)) * pad
        return min(xs) - pad, min(ys) - y_pad, max(xs) + pad, max(ys) + y_pad
""","""        xs, ys = zip(*pts)
        x_min, x_max = min(xs), max(xs)
        y_min, y_max = min(ys), max(ys)
        y_pad = pad * (y_max - y_min)
        return x_min - pad, y_min - y_pad, x_max + pad, y_max + y_pad
"""),
(G,"""        filtered_df = self.lines_df[self.lines_df['show']]
        segments = list(zip(filtered_df['p0'].tolist(), filtered_df['p1'].tolist()))
        colors = [d.get('color', (0, 0, 0, 1)) for d in filtered_df['kwargs']]
        linewidths = [d.get('linewidth', 2) for d in filtered_df['kwargs']]
        lines""","""        segments, colors, linewidths = [], [], []
        for _, row in self.lines_df.iterrows():
            if not row['show']:
                continue
            segments.append((row['p0'], row['p1']))
            colors.append(row['kwargs'].get('color', (0, 0, 0, 1)))
            linewidths.append(row['kwargs'].get('linewidth', 2))
        lines"""),
(G,"""        dx = (1 - a) * w_null / 2 + a * wF / 2
        y = y0 + y1 + hf_scale/1e12 * (b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N)
        p0 = (offset * W * i - dx + x1 + x0, y)
        p1 = (offset * W * i + dx + x1 + x0, y)
""","""        dx = (a * wF + (1 - a) * w_null) / 2
        realistic = level.shift_Hz
        schematic = span * (i / N - 0.5)
        y = y0 + y1 + (schematic + b * (realistic - schematic)) * hf_scale / 1e12
        centre = x0 + x1 + i * offset * W
        p0, p1 = (centre - dx, y), (centre + dx, y)
"""),
(G,"""        p0 = ((x0 + x1) + level.term.mF * (sublevel_width + space_width) - sublevel_width / 2, y)
        p1 = ((x0 + x1) + level.term.mF * (sublevel_width + space_width) + sublevel_width / 2, y)
""","""        pitch = sublevel_width + space_width
        left = x0 + x1 + level.term.mF * pitch - sublevel_width / 2
        p0, p1 = (left, y), (left + sublevel_width, y)
"""),
(U,"""    return 'SPDFGHIKLMNOQRTUVWXYZ'.index(let.upper())
""","""    letters = {c: n for n, c in enumerate('SPDFGHIKLMNOQRTUVWXYZ')}
    try:
        return letters[let.upper()]
    except KeyError:
        raise ValueError('substring not found')
"""),
(U,"""    if (2 * f) % 2 == 0:
        return str(int(f))
    else:
        return str(int(f * 2)) + '/2'
""","""    twice = int(2 * f)
    if twice % 2:
        return f'{twice}/2'
    return f'{twice // 2}'
"""),
(U,"""            (f1, f2) = frac.split('/')
            return float(f1) / float(f2)
""","""            numerator, _, denominator = frac.partition('/')
            return float(numerator) / float(denominator)
"""),
(U,"""    [(ss, ls)] = re.findall(r'(\\d+)([A-Z])', term)
    s = (float(ss) - 1) / 2
    l = let_to_l(ls)
    return l, s
""","""    match = re.search('([0-9]+)([A-Z])', term)
    return let_to_l(match.group(2)), (int(match.group(1)) - 1) / 2
"""),
(I,"""            try:
                name, hfA, hfB, hfC = row
                atom.levels[name].hfA = Q_(hfA)
                atom.levels[name].hfB = Q_(hfB)
                atom.levels[name].hfC = Q_(hfC)
            except KeyError:
                pass
""","""            name, *values = row
            try:
                level = atom.levels[name]
            except KeyError:
                continue
            for attr, value in zip(('hfA', 'hfB', 'hfC'), values):
                setattr(level, attr, Q_(value))
"""),
(I,"""    if not blank:
        rows_to_write = [
            [level.name, (level.hfA if level.hfA != Q_(0.0, 'GHz') else def_A), level.hfB, level.hfC]
            for level in list(atom.levels.values())]
    else:
        rows_to_write = [
            [level.name, Q_(0.0, 'GHz'), Q_(0.0, 'GHz'), Q_(0.0, 'GHz')]
            for level in list(atom.levels.values())]
""","""    rows_to_write = []
    for name, level in [(x.name, x) for x in atom.levels.values()]:
        if blank:
            values = [Q_(0.0, 'GHz')] * 3
        else:
            values = [level.hfA if level.hfA_Hz else def_A, level.hfB, level.hfC]
        rows_to_write.append([name] + values)
"""),
(W,"""    def wrapper(*args):
        if PY3NJ_INSTALLED:
            # py3nj takes the arguments doubled, and requires them to be integers
            try:
                return func(*map(lambda x: int(x * 2), args))
            except ValueError:
                return 0.0
            except IndexError:
                return 0.0
        else:
""","""    def wrapper(*args):
        if PY3NJ_INSTALLED:
            # py3nj takes the arguments doubled, and requires them to be integers
            doubled = [int(2 * x) for x in args]
            try:
                return func(*doubled)
            except (ValueError, IndexError):
                return 0.0
        else:
"""),
(H,"""        if isinstance(key, int) or isinstance(key, slice):
            return sorted(nx.get_node_attributes(self.model, 'level').values(), key=lambda x: x.level_Hz)[key]
        if key in self.aliases:
            return self.aliases[key]
""","""        if isinstance(key, (int, slice)):
            ranked = list(self.values())
            ranked.sort(key=lambda x: x.level_Hz)
            return ranked[key]
        alias = self.aliases.get(key)
        if alias is not None:
            return alias
"""),
(H,"""        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
            k_lower, k_upper = key[1], key[0]
        else:
            k_lower, k_upper = key[0], key[1]
        if""","""        k_lower, k_upper = sorted(key, key=lambda k: self.atom.levels[k].level_Hz)
        if"""),
(H,"""        level = self[key]
        self.model.remove_node(level.name)
        self.aliases = {k: l for k, l in self.aliases.items() if l is not level}
""","""        level = self[key]
        for alias in [k for k, l in self.aliases.items() if l is level]:
            self.aliases.pop(alias)
        self.model.remove_node(level.name)
"""),
(M,"""        self.term_name = f'{self.term}{self.J_frac}'
        self.short_name = f'{self.term}{self.J_frac}'
        if self.F is not None:
            self.term_name += f' F={self.F_frac}'
            self.short_name = f'F={self.F_frac}'
        if self.mF is not None:
            self.term_name += f' mF={self.mF_frac}'
            self.short_name = f'mF={self.mF_frac}'
""","""        parts = [self.term + self.J_frac]
        for label, value in (('F', self.F_frac), ('mF', self.mF_frac)):
            if value is not None:
                parts.append('{}={}'.format(label, value))
        self.term_name = ' '.join(parts)
        self.short_name = parts[-1]
"""),
(M,"""        if self.F is not None:
            return Term(self.conf, self.term, self.J, F=self.F, mF=mF, quantum_nums=self.quantum_nums,
                        percentage=self.percentage)
        return Term(self.conf, self.term, self.J, F=F, mF=mF, quantum_nums=self.quantum_nums,
                    percentage=self.percentage)
""","""        return Term(self.conf, self.term, self.J, self.F if self.F is not None else F, mF,
                    self.percentage, self.quantum_nums)
"""),
(M,"""        self.terms = sorted(terms, key=lambda t: t.percentage, reverse=True)
""","""        self.terms = list(terms)
        self.terms.sort(key=lambda t: -t.percentage)
"""),
]
