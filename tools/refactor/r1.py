# behaviour-preserving refactorings
F='atomtoolkit/atom.py'
EDITS=[
(F,"""            for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                t = self.term.make_term_copy(F=f)
                e = HFLevel(term=t, parent=self)
                self[f'F={util.float_to_frac(f)}'] = e
""","""            J, I = self.term.J, self.atom.I
            lowest = max(J - I, I - J)
            count = int(2 * min(I, J)) + 1
            for n in range(count):
                f = lowest + n
                level = HFLevel(parent=self, term=self.term.make_term_copy(F=f))
                self.__setitem__('F=' + util.float_to_frac(f), level)
"""),
(F,"""            for mf in np.arange(-self.term.F, self.term.F + 1):
                t = self.term.make_term_copy(mF=mf)
                e = ZLevel(term=t, parent=self)
                self[f'mF={util.float_to_frac(mf)}'] = e
""","""            F = self.term.F
            for mf in [k - F for k in range(int(2 * F + 1))]:
                self['mF=' + util.float_to_frac(mf)] = self._make_sublevel(mf)
"""),
(F,"""    def compute_hf_shift(self) -> float:
""","""    def _make_sublevel(self, mf):
        return ZLevel(self.term.make_term_copy(None, mf), self)

    @staticmethod
    def _casimir(x):
        return x * x + x

    def compute_hf_shift(self) -> float:
"""),
(F,"""        IdotJ = 0.5 * (F * (F + 1) - J * (J + 1) - I * (I + 1))

        FM1 = IdotJ

        if J <= 0.5 or I <= 0.5:
            FE2 = 0
        else:
            FE2 = (3 * IdotJ ** 2 + 1.5 * IdotJ - I * (I + 1) * J * (J + 1)) / \\
                  (2.0 * I * (2.0 * I - 1.0) * J * (2.0 * J - 1.0))

        if J <= 1 or I <= 1:
            FM3 = 0
        else:
            FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                    -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
        return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
""","""        i2, j2, f2 = map(self._casimir, (I, J, F))
        IdotJ = (f2 - j2 - i2) / 2
        factors = [IdotJ, 0.0, 0.0]
        if min(I, J) > 0.5:
            factors[1] = (3 * IdotJ ** 2 + 3 * IdotJ / 2 - i2 * j2) / (2 * I * J * (2 * I - 1) * (2 * J - 1))
        if min(I, J) > 1:
            numerator = 10 * IdotJ ** 3 + 20 * IdotJ ** 2
            numerator += 2 * IdotJ * (i2 + j2 + 3 - 3 * i2 * j2)
            numerator -= 5 * i2 * j2
            factors[2] = numerator / (i2 - 2 * I) / (2 * I - 1) / (j2 - 2 * J) / (2 * J - 1)
        coefficients = (self.manifold.hfA_Hz, self.manifold.hfB_Hz, self.manifold.hfC_Hz)
        return sum(c * x for c, x in zip(coefficients, factors))
"""),
(F,"""        shift = value - self.level
        self.parent.level += shift
""","""        parent = self.parent
        parent.level = parent.level + (value - self.level)
"""),
(F,"""        if F != 0:
            return self.manifold.lande * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))
        return 0.0
""","""        if F == 0:
            return 0.0
        f2, j2, i2 = (self._casimir(x) for x in (F, J, I))
        projection = (f2 + j2 - i2) / (2 * f2)
        return projection * self.manifold.lande
"""),
(F,"""        return self.gF * self.term.mF * mu_B.to(Hz/G).magnitude * self.atom.B_gauss \\
            + self.quadratic_zeeman * self.atom.B_gauss ** 2
""","""        b = self.atom.B.to(G).magnitude
        linear = mu_B.to(Hz / G).magnitude * self.gF * self.term.mF
        return b * (linear + b * self.quadratic_zeeman)
"""),
(F,"""        if self.E_2.level > self.E_1.level:
            self.E_upper = self.E_2
            self.E_lower = self.E_1
        else:
            self.E_upper = self.E_1
            self.E_lower = self.E_2
""","""        first_on_top = not self.E_1.level_Hz < self.E_2.level_Hz
        self.E_upper, self.E_lower = (self.E_1, self.E_2) if first_on_top else (self.E_2, self.E_1)
"""),
(F,"""        return abs(self.E_1.level_Hz - self.E_2.level_Hz)
""","""        a, b = self.E_1.level_Hz, self.E_2.level_Hz
        return a - b if a > b else b - a
"""),
(F,"""        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
""","""        max_delta = 1
        if self.allowed_types[2] and not self.allowed_types[1]:
            max_delta = 2
        pairs = []
        for l1 in self.E_1.sublevels():
            for l2 in self.E_2.sublevels():
                if -max_delta <= getattr(l1.term, attr) - getattr(l2.term, attr) <= max_delta:
                    pairs.append((l1, l2))
        return pairs
"""),
(F,"""        try:
            return self._subtransitions[item]
        except KeyError:
            return self._subtransitions[(item[1], item[0])]
""","""        if item in self._subtransitions:
            return self._subtransitions[item]
        return self._subtransitions[tuple(reversed(item))]
"""),
(F,"""        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
""","""        def couples(k):
            return max(J0, J1) - min(J0, J1) <= k and J0 + J1 >= k
        same = p0 * p1 > 0
        dipole = couples(1)
        return (dipole and not same), (dipole and same), (same and self.E_1 is not self.E_2 and couples(2))
"""),
(F,"""            t = HFTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
            else:
                del t
""","""            t = HFTransition(a, b, parent=self)
            if not any(t.allowed_types):
                continue
            key = tuple(x.term.short_name for x in (t.E_lower, t.E_upper))
            self._subtransitions[key] = t
"""),
(F,"""            t = ZTransition(a, b, parent=self)
            if np.any(np.array(t.allowed_types)):
""","""            t = ZTransition(E1=a, E2=b, parent=self)
            e1, m1, e2 = t.allowed_types
            if e1 or m1 or e2:
"""),
(F,"""        if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 1) ** 2
        elif self.parent.allowed_types[2]:
            factor = ((2 * F1 + 1) * (2 * F2 + 1)) * wigner6j(J2, F2, I, F1, J1, 2) ** 2
        else:
            factor = 0.0
        return self.parent.A * factor, float(factor)
""","""        e1, m1, e2 = self.parent.allowed_types
        rank = 1 if (e1 or m1) else 2 if e2 else None
        if rank is None:
            factor = 0.0
        else:
            factor = (2 * F1 + 1) * wigner6j(J1, F1, I, F2, J2, rank) ** 2 * (2 * F2 + 1)
        return factor * self.parent.A, float(factor)
"""),
(F,"""            factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
        elif self.parent.allowed_types[2]:
            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
""","""            factor = self._squares(F1, F2, mF1, mF2, 1)
        elif self.parent.allowed_types[2]:
            factor = self._squares(F1, F2, mF1, mF2, 2)
"""),
(F,"""    def transition_allowed(self) -> Tuple[bool, bool, bool]:
        \"\"\"Check whether allowed. Currently only uses a geometric average\"\"\"
""","""    @staticmethod
    def _squares(F1, F2, mF1, mF2, k):
        total = 0.0
        for q in range(-k, k + 1):
            total += wigner3j(F2, k, F1, -mF2, q, mF1) ** 2
        return total

    def transition_allowed(self) -> Tuple[bool, bool, bool]:
        \"\"\"Check whether allowed. Currently only uses a geometric average\"\"\"
"""),
(F,"""        ret = (
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[0],
            sum([wigner3j(F1, 1, F0, -mF1, q, mF0) for q in [-1, 0, 1]]) != 0.0 and init[1],
            sum([wigner3j(F1, 2, F0, -mF1, q, mF0) for q in [-2, -1, 0, 1, 2]]) != 0.0 and init[2]
        )
        return ret
""","""        ranks = (1, 1, 2)
        return tuple(bool(flag and self._squares(F0, F1, mF0, mF1, k) != 0) for k, flag in zip(ranks, init))
"""),
(F,"""        ts = self.linked_levels(key).values()
        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
        if total_A == 0:
            return np.inf * ureg.s
        return (1 / (total_A / (2 * np.pi))).to(ureg.s)
""","""        level = self.levels[key]
        rates = [t.A for t in self.linked_levels(key).values() if t.E_upper is level]
        total = 0.0
        for rate in rates:
            total = total + rate.to(Hz).magnitude
        return (2 * np.pi / total if total != 0 else np.inf) * ureg.s
"""),
(F,"""            # find the lowest lying level in the subgraph
            nodes = subgraph.nodes(data='level')
            lowest, key_lowest = None, None
            for key, node in nodes:
                if lowest is None:
                    lowest, key_lowest = node, key
                elif node.level_Hz < lowest.level_Hz:
                    lowest, key_lowest = node, key
            # perform a depth first search starting from the lowest energy node in the subgraph,
            # setting subsequent levels one at a time
            search = nx.dfs_edges(subgraph, source=key_lowest)
""","""            # find the lowest lying level in the subgraph
            key_lowest, lowest = min(subgraph.nodes(data='level'), key=lambda item: item[1].level_Hz)
            # breadth first search starting from the lowest energy node in the subgraph
            search = list(nx.bfs_edges(subgraph, source=key_lowest))
"""),
(F,"""        diff = freq - self.freq
        self.parent.set_frequency(self.parent.freq + diff)


class ZTransition""","""        self.parent.freq = freq + (self.parent.freq - self.freq)


class ZTransition"""),
(F,"""        max_to_try = 20
        # since""","""        max_to_try = 20
        allowed = tuple(bool(x) for x in allowed)
        # since"""),
(F,"""                    if np.any(np.array(t.allowed_types) & np.array(allowed)):
""","""                    if any(x and y for x, y in zip(t.allowed_types, allowed)):
"""),
(F,"""        if not filename.endswith(".atom"):
            filename = filename + ".atom"
        with open(filename, "wb") as file:
            pickle.dump(self, file)
""","""        suffix = '.atom'
        filename = filename if filename[-len(suffix):] == suffix else f'{filename}{suffix}'
        data = pickle.dumps(self)
        with open(filename, "wb") as file:
            file.write(data)
"""),
]
