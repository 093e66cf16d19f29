From 2bed5310453216680bd62626aaaff2dbf417be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 01/47] fix: magnetic-octupole hyperfine shift lacked the
 factor 1/(2I-1)

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3b9e954..a25daed 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -431,7 +431,7 @@ class HFLevel(BaseLevel):
         else:
             FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                     -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
-                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * J * (J - 1) * (2 * J - 1))
+                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
         return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
 
     @property
-- 
2.43.0


From 32704996abcae04cac8f0c29a3560b509048dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 02/47] fix: Wigner wrappers return a float (sympy exact zero
 compared unequal to 0.0)

---
 atomtoolkit/wigner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index 936c710..89e5ce1 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -39,7 +39,7 @@ def wignerPicker(func):
         else:
             # sympy throws an error when selection rules are violated, but it needs to return 0
             try:
-                return N(func(*args))
+                return float(N(func(*args)))
             except ValueError:
                 return 0.0
 
-- 
2.43.0


From 5044f0ca7d4da5a75fd02957f6f968690dd1e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 03/47] fix: E2 Zeeman component strength used the same F twice

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a25daed..ff15236 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -817,7 +817,7 @@ class ZTransition(BaseTransition):
         if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
             factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
         elif self.parent.allowed_types[2]:
-            factor = sum([wigner3j(F1, 2, F1, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
+            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
         else:
             factor = 0.0
         return self.parent.A * factor, float(factor)
-- 
2.43.0


From 651a2448026b14b6c01bae65e0117c6265378a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 04/47] fix: fine-structure selection rules lacked the triangle
 condition J + J' >= k

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ff15236..fb019d7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -716,9 +716,9 @@ class Transition(BaseTransition):
             return False, False, False
         # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
         # Correct me if I'm wrong!
-        return ((np.abs(J1 - J0) <= 1.0 and p0 != p1),
-                (np.abs(J1 - J0) <= 1.0 and p0 == p1),
-                (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (self.E_1 is self.E_2)))
+        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
+                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
+                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
 
     def _assign_models(self):
         """A Transition lives as an edge in the atom's levelsModel graph"""
-- 
2.43.0


From 33950eeff0fcda55034f667647cbd7204647c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 05/47] fix: re-adding a transition with components iterated
 over their keys

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index fb019d7..de1c0b4 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -646,7 +646,7 @@ class BaseTransition(ABC):
         self._assign_models()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
-            for subtransition in self._subtransitions:
+            for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
-- 
2.43.0


From 3872060a27d24adf8fbd6e1fe0822a004feeab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 06/47] fix: Atom.save appended ".atom" to names that already
 had it after another dot

---
 atomtoolkit/atom.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index de1c0b4..dd76f1a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -974,10 +974,7 @@ class Atom:
         """
         if filename is None:
             filename = self.name
-        try:
-            if filename.split(".", -1)[1] != "atom":
-                filename = filename + ".atom"
-        except IndexError:
+        if not filename.endswith(".atom"):
             filename = filename + ".atom"
         with open(filename, "wb") as file:
             pickle.dump(self, file)
-- 
2.43.0


From 6bc7344e93e286554bbf929891cff34161efd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:26 +0000
Subject: [PATCH 07/47] fix: branching ratios with a missing A coefficient
 raise the intended ValueError

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index dd76f1a..56edb3d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1118,7 +1118,7 @@ class Atom:
                 A_coeffs[n] = t.A
         try:
             totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-        except TypeError:
+        except AttributeError:
             # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
             raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
 
-- 
2.43.0


From e2808abac3246ccc8db6406207574f8f1b1faabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 08/47] fix: transition lookup depended on the order in which
 the levels were added

---
 atomtoolkit/atom_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index db877de..4dd41b7 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -123,21 +123,21 @@ class TransitionStructure:
         if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
             main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
             main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)][(z_0, z_1)]
+            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)][(z_0, z_1)]
         elif 'mJ=' in key[0]:
             main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
             main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
             l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
             l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][
+            return self.model.edges[main_0, main_1]['transition'][
                 (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
                 (f'mF={z_0}', f'mF={z_1}')]
         elif 'F=' in key[0]:  # match [conf] [term] F=[f]
             main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
             main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)]
+            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)]
         else:  # match [conf] [term]
-            return nx.get_edge_attributes(self.model, 'transition')[(k_lower, k_upper)]
+            return self.model.edges[k_lower, k_upper]['transition']
 
     def __setitem__(self, value: Transition):
         self.atom.add_transition(value)
-- 
2.43.0


From e5bceca049d906fdf8de62f9860df1b1935800fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 09/47] fix: transition lookup by a pair of energy ranks raised
 TypeError

---
 atomtoolkit/atom_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 4dd41b7..ce7b066 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -115,6 +115,8 @@ class TransitionStructure:
         """
         if key in self.aliases.keys():
             return self.aliases[key]
+        # Energy ranks stand for the names of the levels they refer to
+        key = tuple(self.atom.levels[k].name if isinstance(k, int) else k for k in key)
         # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
         if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
             k_lower, k_upper = key[1], key[0]
-- 
2.43.0


From fa3113f48104a488dc1242724ccbac6798c6cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 10/47] fix: item assignment and deletion on
 TransitionStructure had unusable signatures

---
 atomtoolkit/atom_helpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index ce7b066..00453f5 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -141,11 +141,15 @@ class TransitionStructure:
         else:  # match [conf] [term]
             return self.model.edges[k_lower, k_upper]['transition']
 
-    def __setitem__(self, value: Transition):
+    def __setitem__(self, key: Tuple[str, str] or str, value: Transition):
         self.atom.add_transition(value)
+        if isinstance(key, str):
+            value.alias = key
 
-    def __delitem__(self, level1: str, level2: str):
-        self.model.remove_edge(level1, level2)
+    def __delitem__(self, key: Tuple[str, str]):
+        transition = self[key]
+        self.model.remove_edge(transition.E_1.name, transition.E_2.name)
+        self.aliases = {k: t for k, t in self.aliases.items() if t is not transition}
 
     def __len__(self) -> int:
         return len(nx.get_edge_attributes(self.model, 'transition'))
-- 
2.43.0


From 139d399716dcc3c720ab130503fea6b61783352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 11/47] fix: a deleted level stayed reachable under its aliases

---
 atomtoolkit/atom_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 00453f5..c439acb 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -60,7 +60,9 @@ class LevelStructure:
         self.atom.add_level(value, alias=key)
 
     def __delitem__(self, key: str):
-        self.model.remove_node(key)
+        level = self[key]
+        self.model.remove_node(level.name)
+        self.aliases = {k: l for k, l in self.aliases.items() if l is not level}
 
     def __len__(self) -> int:
         return len(nx.get_node_attributes(self.model, 'level'))
-- 
2.43.0


From f0acd98da126263033aa485afac338c3ed9cc786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 12/47] fix: component lookup returned the mirrored component
 when both exist

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 56edb3d..dc3281c 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -670,9 +670,9 @@ class BaseTransition(ABC):
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
-            return self._subtransitions[(item[1], item[0])]
-        except KeyError:
             return self._subtransitions[item]
+        except KeyError:
+            return self._subtransitions[(item[1], item[0])]
 
     def __setitem__(self, key: Tuple[str, str], value: BaseTransition):
         self._subtransitions[key] = value
-- 
2.43.0


From ea760d2d335a1eaec7bb33744df60ee8fc1b8769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 13/47] fix: populate_transitions raised KeyError on the first
 missing pair, kept forbidden ones and skipped E2-only pairs

---
 atomtoolkit/atom.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index dc3281c..c683b2a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1026,11 +1026,8 @@ class Atom:
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
         max_to_try = 20
-        allowed_deltas = []
         # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
-        for i in range(len(allowed)):
-            if allowed[i // 2] or allowed[i // 2 + 1]:
-                allowed_deltas.append(i)
+        allowed_deltas = range(max((i // 2 + 2 for i in range(len(allowed)) if allowed[i]), default=0))
 
         # The keys of js are J values, and the values are lists of levels with that J value
         js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
@@ -1042,13 +1039,13 @@ class Atom:
             j_pairs = zip(set0, set1)
             level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
             for pair in level_pairs:
-                if self.transitions[(pair[0].name, pair[1].name)] is None:
+                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                     t = Transition(pair[0], pair[1])
                     if np.any(np.array(t.allowed_types) & np.array(allowed)):
                         level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                         self.add_transition(t)
                     else:
-                        del t
+                        self._levelsModel.remove_edge(pair[0].name, pair[1].name)
 
     def populate_internal_transitions(self):
         """
-- 
2.43.0


From 57b8ff4fc8c3a973ea1f76c58e594e62b0d25ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 14/47] fix: re-assigning a frequency left other assigned
 transitions unsatisfied and loops unreported

---
 atomtoolkit/atom.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index c683b2a..c2df69a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1154,10 +1154,14 @@ class Atom:
             for edge in search:
                 t = subgraph.edges()[edge]['transition']
                 e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
-                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
-                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
-                elif e_u.fixed:
+                # edge is (level already in place, level to be placed)
+                if e_l.name == edge[1]:
                     e_l.level_Hz = e_u.level_Hz - freq
                 else:
                     e_u.level_Hz = e_l.level_Hz + freq
                 e_u.fixed = e_l.fixed = True
+            # edges that close a loop were not traversed, and may contradict the others
+            for u, v, t in subgraph.edges(data='transition'):
+                freq = t.set_freq.to(Hz).magnitude
+                if abs(t.freq_Hz - freq) > 1e-9 * abs(freq):
+                    warnings.warn(f'Constraint problem encountered when checking {(u, v)}. Loop of fixed transitions?')
-- 
2.43.0


From b1461a0e8ee80bebca07f0ef3131a906c30724d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 15/47] fix: estimated Lande factor scaled with the percentages
 and used amplitudes of the wrong term as weights

---
 atomtoolkit/atom.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index c2df69a..b273269 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -338,26 +338,33 @@ class EnergyLevel(BaseLevel):
         """
         from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
         total = 0
-        for pct, term in self.term.terms_dict.items():
+        weight = 0
+        for term in self.term:
             if term.coupling == 'LS':
-                terms = np.array([[self.term.l], [self.term.s], [1.0]])
+                args = (term.l, term.s)
             elif term.coupling == 'JJ':
-                terms = JJ_to_LS(self.term.J, self.term.jc, self.term.jo, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                args = (term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'JK':
-                terms = JK_to_LS(self.term.J, self.term.jc, self.term.k, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                args = (term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'LK':
-                terms = LK_to_LS(self.term.J, self.term.l, self.term.k, self.term.sc, self.term.so)
+                args = (term.J, term.l, term.k, term.sc, term.so)
             else:
                 return 0.0
+            if None in args:  # the term symbol doesn't determine the quantum numbers
+                return 0.0
+            if term.coupling == 'LS':
+                terms = np.array([[term.l], [term.s], [1.0]])
+            else:
+                terms = {'JJ': JJ_to_LS, 'JK': JK_to_LS, 'LK': LK_to_LS}[term.coupling](*args)
 
             J = term.J
-            ls, ss, percents = terms
+            ls, ss, amplitudes = terms
 
-            total += pct * sum(percents * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
-                                           / (2 * J * (J + 1))))
-        return total
+            weight += term.percentage
+            if J != 0:
+                total += term.percentage * sum(amplitudes ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
+                                                                  / (2 * J * (J + 1))))
+        return total / weight
 
     @classmethod
     def from_dataframe(cls, df, i=0) -> EnergyLevel:
-- 
2.43.0


From c215e87d03641d824d0a36e5532ccffc4a884aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 16/47] fix: levels imported without a Lande factor got NaN
 instead of the estimate

---
 atomtoolkit/atom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index b273269..73d9967 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -375,7 +375,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=df["Lande"][i])
+        lande = df["Lande"][i]
+        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
 
 
 class HFLevel(BaseLevel):
-- 
2.43.0


From f2133f1d30c975d8dca6a31232b1200e287d2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 17/47] fix: tensor strengths and matrix elements used 2F+2 as
 the degeneracy of the final level

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8fa5275..267af99 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -15,7 +15,7 @@ from .wigner import wigner3j, wigner6j, wigner9j
 def tkq_transition_strength(I: float, k: int, q: int,
                             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) * (2 * F1 + 2) * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                    F1, F0, I) ** 2
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0) ** 2
@@ -26,7 +26,7 @@ def tkq_transition_strength(I: float, k: int, q: int,
 def tkq_mel(I: float, k: int, q: int,
             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 2) ** 0.5 * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                  F1, F0, I)
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0)
-- 
2.43.0


From c27c4ea2cf45073268cddc5237d9f86f9b6399f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 18/47] fix: E2 matrix elements: coefficients of the rank-2
 tensor of polarization and propagation direction

---
 atomtoolkit/transition_strengths.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 267af99..9c7f16a 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -99,15 +99,15 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
         warnings.warn("k-vector and polarization are not orthogonal")
     tot = 0
     tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (-6 ** 0.5 * k[0] * eps[0] + 6 ** 0.5 * k[1] * eps[1] + (2. / 3.) * 6 ** 0.5 * k[2] * eps[2])
+           (2. / 3.) ** 0.5 * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
     tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     return tot
 
 
-- 
2.43.0


From e3c34e3167160eedf9b03ead25fca6f6dc40f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 19/47] fix: E2 strengths disagreed with the squared matrix
 elements

---
 atomtoolkit/transition_strengths.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 9c7f16a..e7d9285 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -122,11 +122,11 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[2] + eps[2] * k[1]) ** 2)
     tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (2. / 3.) * (3 * k[0] * eps[0] + 3 * k[1] * eps[1] + 2 * k[2] * eps[2]) ** 2
+           (2. / 3.) * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1]) ** 2
     tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[2] + eps[2] * k[1]) ** 2)
     tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     return tot
-- 
2.43.0


From dfa0eba3917e215f311c3d7687b2841c11b32d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 20/47] fix: geometric strengths take arrays, which cannot be
 cached by value

---
 atomtoolkit/transition_strengths.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index e7d9285..90b7535 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -34,7 +34,6 @@ def tkq_mel(I: float, k: int, q: int,
 
 
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
-@functools.lru_cache(maxsize=None)
 def E1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -45,7 +44,6 @@ def E1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -61,7 +59,6 @@ def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def M1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -72,7 +69,6 @@ def M1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def M1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -90,7 +86,6 @@ def M1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def E2_mel_geom(eps: np.array, k: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -111,7 +106,6 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
-- 
2.43.0


From 33a9475a42616417f335f81fd0f19bd7a1423354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 21/47] fix: hyperfine lines and Zeeman ladders of half-integer
 F did not have the requested width

---
 atomtoolkit/render/grotrian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index bfb441f..6154c1d 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -282,9 +282,9 @@ class Grotrian:
         y1 = kwargs.get('y1', 0)
         offset = kwargs.get('offset', 0.0)
 
-        squeeze = kwargs.get('squeeze', int((level.term.J + level.atom.I)))
+        squeeze = kwargs.get('squeeze', level.term.J + level.atom.I)
         if squeeze is True:
-            squeeze = int((level.term.J + level.atom.I))
+            squeeze = level.term.J + level.atom.I
         elif squeeze is False:
             squeeze = max(l.term.F for l in level.atom.levels[0].values())
         squeeze = int(2 * squeeze + 1)
@@ -365,7 +365,7 @@ class Grotrian:
         i = level.term.F - min(Fs)
 
         w_null = W - (N - 1) * offset * W
-        wF = W * (2 * level.term.F + 1) / (2 * squeeze + 1)
+        wF = W * (2 * level.term.F + 1) / squeeze
         dx = (1 - a) * w_null / 2 + a * wF / 2
         y = y0 + y1 + hf_scale/1e12 * (b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N)
         p0 = (offset * W * i - dx + x1 + x0, y)
-- 
2.43.0


From 7fb31b2938800afeb109125456ba2fca5fdcfc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 22/47] fix: Zeeman layout of a single state divided by zero

---
 atomtoolkit/render/grotrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 6154c1d..e62e547 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -335,7 +335,7 @@ class Grotrian:
         fill_factor = kwargs.pop('fill_factor', 0.9)
 
         sublevel_width = fill_factor * W / squeeze
-        space_width = (1 - fill_factor) * W / (squeeze - 1)
+        space_width = (1 - fill_factor) * W / (squeeze - 1) if squeeze > 1 else 0.0
 
         Fs = [s.term.F for s in level.manifold.sublevels()]
         N = len(Fs)
-- 
2.43.0


From b18fcfcd29d2646fb2b6972b1dd441f90dc9620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 23/47] fix: composite transition names reach the right
 component after energies swapped

---
 atomtoolkit/atom_helpers.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index c439acb..58708c3 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -127,22 +127,39 @@ class TransitionStructure:
         if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
             main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
             main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)][(z_0, z_1)]
+            return self._component(main_0, main_1, (hf_0, hf_1), (z_0, z_1))
         elif 'mJ=' in key[0]:
             main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
             main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
             l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
             l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return self.model.edges[main_0, main_1]['transition'][
-                (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
-                (f'mF={z_0}', f'mF={z_1}')]
+            return self._component(main_0, main_1, (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}'),
+                                   (f'mF={z_0}', f'mF={z_1}'))
         elif 'F=' in key[0]:  # match [conf] [term] F=[f]
             main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
             main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return self.model.edges[main_0, main_1]['transition'][(hf_0, hf_1)]
+            return self._component(main_0, main_1, (hf_0, hf_1))
         else:  # match [conf] [term]
             return self.model.edges[k_lower, k_upper]['transition']
 
+    def _component(self, main_0: str, main_1: str, *keys: Tuple[str, str]) -> BaseTransition:
+        """
+        Descends from the transition between two levels to one of its components.
+        Components are keyed by the order their levels had when they were generated, which may have changed since
+        """
+        transition = self.model.edges[main_0, main_1]['transition']
+        names = (main_0, main_1)
+        for key in keys:
+            names = tuple(f'{name} {k}' for name, k in zip(names, key))
+            for k in (key, key[::-1]):
+                sub = transition[k]
+                if {sub.E_1.name, sub.E_2.name} == set(names):
+                    break
+            else:
+                raise KeyError(names)
+            transition = sub
+        return transition
+
     def __setitem__(self, key: Tuple[str, str] or str, value: Transition):
         self.atom.add_transition(value)
         if isinstance(key, str):
-- 
2.43.0


From 7cbb2de04cb52f2bc62720b74d6430baa38e29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 24/47] fix: adding a transition did not add its levels to the
 atom

---
 atomtoolkit/atom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 73d9967..7515677 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -959,6 +959,9 @@ class Atom:
             elif isinstance(transition[0], BaseLevel):
                 transition = Transition(transition[0], transition[1], **kwargs)
 
+        for level in (transition.E_1, transition.E_2):
+            if isinstance(level, EnergyLevel) and level.name not in self.levels:
+                self.add_level(level)
         transition.add_to_atom(self)
         if transition.alias is not None:
             self.transitions.aliases[transition.alias] = transition
-- 
2.43.0


From 561d0ac6f311d9324f4581e9f3b31f8fea1b694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 25/47] fix: a transition with an alias could not be created
 before its levels are in an atom

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 7515677..1a6342c 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -586,7 +586,7 @@ class BaseTransition(ABC):
         self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
         self.set_freq = freq
-        if alias is not None:
+        if alias is not None and self.atom is not None:
             self.atom.transitions.aliases[alias] = self
 
     def __str__(self):
-- 
2.43.0


From bb218a15365b862d1f0f7aca92dcb9487f0a662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 26/47] fix: building from a table whose index is not 0, 1, 2,
 ... lost its levels

---
 atomtoolkit/atom.py | 6 +++---
 atomtoolkit/term.py | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 1a6342c..8400ade 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -375,8 +375,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        lande = df["Lande"][i]
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
+        lande = df["Lande"].iloc[i]
+        return EnergyLevel(t, df["Level (cm-1)"].iloc[i], lande=None if pd.isna(lande) else lande)
 
 
 class HFLevel(BaseLevel):
@@ -1018,7 +1018,7 @@ class Atom:
         if num_levels is None:
             num_levels = len(df)
         a = Atom(name, I=I, B=B)
-        rows = tqdm(range(num_levels))
+        rows = tqdm(range(min(num_levels, len(df))))
         for i in rows:
             try:
                 e = EnergyLevel.from_dataframe(df, i)
diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 91374d6..68e539d 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -95,7 +95,8 @@ class Term:
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> Term:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Leading percentages"])
+        return Term(df["Configuration"].iloc[i], df["Term"].iloc[i], df["J"].iloc[i],
+                    percentage=df["Leading percentages"].iloc[i])
 
 
 class MultiTerm(collections.abc.Sequence):
@@ -158,6 +159,7 @@ class MultiTerm(collections.abc.Sequence):
         pcts = [c for c in df.columns if 'Percentage' in c]
         term_objs = []
         for j in range(len(confs)):
-            if type(df[confs[j]][i]) == str:
-                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
+            if type(df[confs[j]].iloc[i]) == str:
+                term_objs.append(Term(df[confs[j]].iloc[i], df[terms[j]].iloc[i], df['J'].iloc[i],
+                                      percentage=df[pcts[j]].iloc[i]))
         return MultiTerm(*term_objs)
-- 
2.43.0


From 4342b239d9fa677e05f32db1cddd7b75cc2e9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 27/47] fix: transition tables that give J as a fraction could
 not be loaded

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 8400ade..2542423 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1075,8 +1075,8 @@ class Atom:
         """
         rows = tqdm(list(df.iterrows()))
         for _, row in rows:
-            j_l = util.float_to_frac(float(row['j_l']))
-            j_u = util.float_to_frac(float(row['j_u']))
+            j_l = util.float_to_frac(util.frac_to_float(row['j_l']))
+            j_u = util.float_to_frac(util.frac_to_float(row['j_u']))
             try:
                 e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                 e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
-- 
2.43.0


From de24bf1f190f9513cac7bb80688bd9916b44ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 28/47] fix: cells left empty in a transition table were taken
 as frequencies and A coefficients

---
 atomtoolkit/atom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 2542423..cecd7a3 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1080,8 +1080,9 @@ class Atom:
             try:
                 e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                 e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
-                freq = row["freq"]
-                A = row["A"]
+                # cells left empty in the table are read as nan
+                freq = None if pd.isna(row["freq"]) else row["freq"]
+                A = None if pd.isna(row["A"]) else row["A"]
                 t = Transition(e1, e2, freq=freq, A=A)
                 rows.set_description(f'adding transition {t.name:104}')
                 self.add_transition(t)
-- 
2.43.0


From b5bf84f5395af2a2b4f3b7b0dd4e3098ab88875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 29/47] fix: energies of zero given as wavenumbers divided by
 zero

---
 atomtoolkit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/__init__.py b/atomtoolkit/__init__.py
index 0eb8241..1494640 100644
--- a/atomtoolkit/__init__.py
+++ b/atomtoolkit/__init__.py
@@ -14,7 +14,7 @@ _c.add_transformation('[wavenumber]', '[frequency]',
                       lambda ureg, x: x * ureg.speed_of_light)
 _c.add_transformation('[frequency]', '[wavenumber]',
                       lambda ureg, x: x / ureg.speed_of_light)
-ureg.enable_contexts('spectroscopy')
+ureg.enable_contexts('spectroscopy', _c)
 
 c = ureg.speed_of_light
 Hz = ureg.Hz
-- 
2.43.0


From a5a2e5fb875d111fd618b6db4fa4d27e14c1db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 30/47] fix: recoupling a JK state given with integers raised
 an error

---
 atomtoolkit/transition_strengths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 90b7535..bd26889 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -157,7 +157,7 @@ def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so:
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
     outls = np.repeat(ls, len(ss))
     outss = np.tile(ss, len(ls))
-    outpercs = np.array([float((-1) ** (-lc - lo - 2 * sc - so - K - outls[i] - J) * \
+    outpercs = np.array([float((-1.0) ** (-lc - lo - 2 * sc - so - K - outls[i] - J) * \
                                np.sqrt((2 * Jc + 1) * (2 * outls[i] + 1) * (2 * K + 1) * (2 * outss[i] + 1)) * \
                                wigner6j(sc, lc, Jc,
                                         lo, K, outls[i]) * \
-- 
2.43.0


From e84f6df8bcf4d9f2b9a9563116dac7a21956dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 31/47] fix: brackets around several levels were drawn in each
 other's colours and widths

---
 atomtoolkit/render/grotrian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index e62e547..ea0d5c0 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -178,7 +178,7 @@ class Grotrian:
                                       ignore_index=True)
         # make bounding boxes and brackets, if desired
         rects_list = []
-        bracket_list = []
+        bracket_list, bracket_colors, bracket_lws = [], [], []
         for i, row in self.lines_df.iterrows():
             bbox_setting = row['kwargs'].get('bbox', None)
             if bbox_setting is not None:
@@ -193,10 +193,11 @@ class Grotrian:
                 elif bbox_setting == 'bracket':
                     bracket_list += (brackets(x_min, y_min, x_max, y_max,
                                               h=row['kwargs'].get('bracket_h', 0.05)))
+                    # a level is bracketed by two separate lines
+                    bracket_colors += [row['kwargs'].get('bracket_color', (0, 0, 0, .8))] * 2
+                    bracket_lws += [row['kwargs'].get('bracket_lw', 1)] * 2
 
         # draw the brackets
-        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
-        bracket_lws = [d.get('bracket_lw', 1) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
         brackets = matplotlib.collections.LineCollection(bracket_list, colors=bracket_colors, linewidths=bracket_lws)
         axes.add_collection(brackets)
 
-- 
2.43.0


From 19602ea32b3dca511fea58dfbb2c1727556dd12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 32/47] fix: the requested padding was ignored for boxes around
 hyperfine and Zeeman structure

---
 atomtoolkit/render/grotrian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index ea0d5c0..0770991 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -421,7 +421,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0'])+list(table['p1']))),
+                                                          (list(table['p0'])+list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)], ignore_index=True)
         elif isinstance(level, HFLevel):
@@ -454,7 +455,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0']) + list(table['p1']))),
+                                                          (list(table['p0']) + list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)],
                               ignore_index=True)
@@ -468,7 +470,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_hflevel_row(level,
                                                          bbox_override=self.bbox(
-                                                            (list(table['p0']) + list(table['p1']))),
+                                                            (list(table['p0']) + list(table['p1'])),
+                                                            pad=kwargs.get('bbox_pad', 0.05)),
                                                          show=False,
                                                          **kwargs)],
                               ignore_index=True)
-- 
2.43.0


From b0d0ba5704919e9467bc3ebfc885a9c7c5108183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 33/47] fix: plotting a single transition tried to plot the
 names of its components

---
 atomtoolkit/render/spectra.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d3cf32c..f8c8920 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -23,6 +23,9 @@ def plot_transitions(transitions: BaseTransition or List[BaseTransition],
     total = kwargs.pop('total', True)
     unit = kwargs.pop('unit', 'GHz')
 
+    if isinstance(transitions, BaseTransition):
+        transitions = [transitions]
+
     all_x, all_y = [], []
     for transition in transitions:
 
@@ -164,7 +167,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     def color_func(t): pass
     if type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
-    elif type(transitions[0]) == HFTransition:
+    elif type(lines[0]) == HFTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.F,
@@ -177,7 +180,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
         def color_func(t): return color_dict[t]
-    elif type(transitions[0]) == ZTransition:
+    elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.mF,
@@ -196,4 +199,4 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
         def color_func(t): return color_dict[t]
 
-    plot_transitions(transitions, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
+    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
-- 
2.43.0


From 9cc5953af56abb9a8280d87fdc0cc56c4a422666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 34/47] fix: options for hyperfine spectra such as the unit and
 the number of points were ignored

---
 atomtoolkit/render/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index f8c8920..b610572 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -52,7 +52,7 @@ def plot_transitions(transitions: BaseTransition or List[BaseTransition],
             y_values += np.interp(x_values, x, curve)
         plt.plot(x_values, y_values, "k:", label="Total", alpha=0.5)
     plt.ylim(0, None)
-    plt.xlabel("Frequency (GHz)")
+    plt.xlabel(f"Frequency ({unit})")
     plt.legend()
 
 
@@ -199,4 +199,4 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
         def color_func(t): return color_dict[t]
 
-    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
+    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict, **kwargs)
-- 
2.43.0


From fcb611f9d22022cf8e6517f38476191bae9c749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 35/47] fix: spectra of components could not be plotted with a
 colour function or without colouring

---
 atomtoolkit/render/spectra.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index b610572..58fab27 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -15,7 +15,7 @@ from .lineshapes import *
 
 def plot_transitions(transitions: BaseTransition or List[BaseTransition],
                      lineshape: LineShape, **kwargs):
-    if 'color_func' not in kwargs:
+    if kwargs.get('color_func') is None:
         def color_func(t): return 0, 0, 0, 1
     else:
         color_func = kwargs['color_func']
@@ -164,8 +164,11 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
         lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to(GHz).magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
+    color_dict = {}
     def color_func(t): pass
-    if type(lines[0]) == Transition:
+    if isinstance(coloring, Callable):
+        color_func = coloring
+    elif type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
     elif type(lines[0]) == HFTransition:
         if coloring == 'l':
@@ -179,7 +182,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    property_shade=lambda t: t.E_lower.term.F,
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
-        def color_func(t): return color_dict[t]
+        def color_func(t): return color_dict.get(t)
     elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
@@ -197,6 +200,6 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    property_shade=lambda t: t.E_lower.term.mF,
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
-        def color_func(t): return color_dict[t]
+        def color_func(t): return color_dict.get(t)
 
     plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict, **kwargs)
-- 
2.43.0


From cdafb5765357b6e2cdca8c0ccc6ed0d927347dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 36/47] fix: Zeeman components were labelled without their
 hyperfine quantum numbers

---
 atomtoolkit/render/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 58fab27..4489e78 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -85,6 +85,8 @@ def plot_zeeman_spectrum(transitions: BaseTransition or List[BaseTransition],
         mF1 = transition.E_upper.term.mF_frac
         return f'F={F0}, mF={mF0} → F={F1}, mF={mF1}'
 
+    kwargs.setdefault('label_func', label_func)
+
     if coloring == 'l':
         color_dict = color_table_from_property(lines,
                                                property_color=lambda t: t.E_lower.term.mF,
-- 
2.43.0


From e8a4941eafb96003e6ec1823273fb50dcd98fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 37/47] fix: laser linewidths in spectra were taken in Hz on a
 frequency axis in GHz

---
 atomtoolkit/render/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 4489e78..debaec5 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -160,10 +160,10 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     if lineshape is not None:
         lineshape_func = lineshape
     elif temp.magnitude == 0:
-        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
     else:
         assert mass is not None, "thermal lineshape requires mass to be given"
-        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
     color_dict = {}
-- 
2.43.0


From d4bcf87a0f633045884ce5411685696e43d1ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 38/47] fix: the width of thermal lines kept unevaluated units,
 so that Voigt lines raised an error

---
 atomtoolkit/render/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 98e8882..87a046a 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -138,7 +138,7 @@ class GaussianLineShape(LineShape):
 class ThermalGaussianLineShape(LineShape):
     def __init__(self, T, m):
         super().__init__()
-        self.sigma = (8*ureg.k*T/(m*c**2))**0.5
+        self.sigma = ((8*ureg.k*T/(m*c**2))**0.5).to('dimensionless').magnitude
         self.fwhm = self.sigma * 2.355
 
     def shape_func(self, x, x0, **kwargs):
@@ -154,7 +154,7 @@ class ThermalLineShape(LineShape):
 
     def __init__(self, T, m, gamma):
         super().__init__()
-        self.sigma = (8 * ureg.k * T / (m * c ** 2)) ** 0.5
+        self.sigma = ((8 * ureg.k * T / (m * c ** 2)) ** 0.5).to('dimensionless').magnitude
         self.fwhm = self.sigma * 2.355
         self.gamma = gamma
 
-- 
2.43.0


From a435b053873f435cbc114144c2bdb53b95b06b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 39/47] fix: the standard deviation of Doppler-broadened lines
 was too large by a factor sqrt(8)

---
 atomtoolkit/render/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 87a046a..f4308d5 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -138,7 +138,7 @@ class GaussianLineShape(LineShape):
 class ThermalGaussianLineShape(LineShape):
     def __init__(self, T, m):
         super().__init__()
-        self.sigma = ((8*ureg.k*T/(m*c**2))**0.5).to('dimensionless').magnitude
+        self.sigma = ((ureg.k*T/(m*c**2))**0.5).to('dimensionless').magnitude
         self.fwhm = self.sigma * 2.355
 
     def shape_func(self, x, x0, **kwargs):
@@ -154,7 +154,7 @@ class ThermalLineShape(LineShape):
 
     def __init__(self, T, m, gamma):
         super().__init__()
-        self.sigma = ((8 * ureg.k * T / (m * c ** 2)) ** 0.5).to('dimensionless').magnitude
+        self.sigma = ((ureg.k * T / (m * c ** 2)) ** 0.5).to('dimensionless').magnitude
         self.fwhm = self.sigma * 2.355
         self.gamma = gamma
 
-- 
2.43.0


From 85a1acb43bc3a8a53b899275303b5b5265226839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 40/47] fix: the sampling window of Doppler-broadened lines did
 not scale with their frequency

---
 atomtoolkit/render/lineshapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index f4308d5..f8907f4 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -52,7 +52,7 @@ class LineShape(ABC):
         raise NotImplementedError
 
     def compute(self, x0, num_points: int = 1000, **kwargs):
-        width = self.width_func(**kwargs)
+        width = self.width_func(x0=x0, **kwargs)
         x_values = np.linspace(x0 - width, x0 + width, num_points)
         y_values = self.shape_func(x_values, x0, **kwargs)
         return x_values, y_values
@@ -145,8 +145,8 @@ class ThermalGaussianLineShape(LineShape):
         ampl = kwargs.get('ampl', 1.0)
         return gaussian(x, x0, self.sigma*x0, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
+    def width_func(self, x0=1.0, padding=20.0, **kwargs):
+        return padding * self.sigma * x0
 
 
 class ThermalLineShape(LineShape):
@@ -166,5 +166,5 @@ class ThermalLineShape(LineShape):
             return gaussian(x, x0, self.sigma*x0, ampl=ampl)
         return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
\ No newline at end of file
+    def width_func(self, x0=1.0, padding=20.0, **kwargs):
+        return padding * max(self.sigma * x0, self.gamma)
\ No newline at end of file
-- 
2.43.0


From 60911032f7f86cead280dd13919e19c878e77759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 41/47] fix: Voigt lines had neither the amplitude nor the
 width they were given

---
 atomtoolkit/render/lineshapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index f8907f4..ce7f0e4 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -25,7 +25,8 @@ def gaussian(x, x0, sigma: float, ampl: float = 1.0):
 
 
 def voigt(x, x0, sigma: float, gamma: float, ampl: float = 1.0):
-    return ampl * voigt_profile(x - x0, sigma, gamma)
+    # gamma is the full width at half maximum, as for a Lorentzian; ampl is the height at the centre
+    return ampl * voigt_profile(x - x0, sigma, gamma / 2) / voigt_profile(0, sigma, gamma / 2)
 
 
 def mod_lorentzian(x, x0: float, gamma: float, ampl: float = 1.0, depth: float = 0.0, num_sidebands: int = None,
-- 
2.43.0


From b952736d7949f16748ee053ffd9d05656547ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 42/47] fix: thermal lines without laser linewidth, the default
 for spectra, divided by zero

---
 atomtoolkit/render/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index ce7f0e4..b2b52c9 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -161,9 +161,9 @@ class ThermalLineShape(LineShape):
 
     def shape_func(self, x, x0, **kwargs):
         ampl = kwargs.get('ampl', 1.0)
-        if self.gamma/(self.sigma*x0) > self.cutoff:
+        if self.gamma > self.cutoff * self.sigma * x0:
             return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
-        elif (self.sigma*x0)/self.gamma > self.cutoff:
+        elif self.sigma * x0 > self.cutoff * self.gamma:
             return gaussian(x, x0, self.sigma*x0, ampl=ampl)
         return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
 
-- 
2.43.0


From 43176ae057f97c9056d32efabcb2697f8fa0497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 43/47] fix: light fields accepted polarisation vectors shorter
 than one

---
 atomtoolkit/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/environment.py b/atomtoolkit/environment.py
index effcc89..5e119f3 100644
--- a/atomtoolkit/environment.py
+++ b/atomtoolkit/environment.py
@@ -16,7 +16,7 @@ class LightField:
             right circular = 2**(-0.5) * [1, 1j, 0]
         """
         self.k = k
-        assert np.linalg.norm(pol) - 1 < 1e-6, "polarization must be a unit vector"
+        assert abs(np.linalg.norm(pol) - 1) < 1e-6, "polarization must be a unit vector"
         self.pol = pol
         self.intensity = i
 
-- 
2.43.0


From 56c8c1c07ca13dc61c7fe36f312f43a793818211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 44/47] fix: NIST importer lost all JJ terms of second
 components when one component has no j values

---
 atomtoolkit/IO.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index e1fb661..a6ce364 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -73,13 +73,9 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     #       54                :    19                                 (2F*<5/2>)(3F*<2>)
     df_clean.loc[df_clean["Term_2"].isnull(), 'Term_2_int'] = df_clean['Configuration_2'].str.findall(r'\<(.+?)\>')
     #    take the j values from Term_2_int and create a JJ term symbol from them
-    try:
-        df_clean.loc[~df_clean["Term_2_int"].isnull(), 'Term_2'] = \
-            df_clean["Term_2_int"].map(lambda k: '({}, {})'.format(*k), na_action='ignore')
-    except IndexError:
-        # FIXME sometimes some values in Term_2_int aren't JJ coupled (so far only seen in Na I, above ionization).
-        #   I do not have time for this right now, and if any Rydberg people wanna get mad at me later they can fix it
-        pass
+    #    (second configurations that don't contain two j values aren't JJ coupled, and have no term to recover)
+    df_clean.loc[~df_clean["Term_2_int"].isnull(), 'Term_2'] = \
+        df_clean["Term_2_int"].map(lambda k: '({}, {})'.format(*k) if len(k) >= 2 else None, na_action='ignore')
     df_clean = df_clean.drop("Term_2_int", axis=1)
     df_clean['Term'] = df_clean['Term'].fillna('')
     df_clean['Term_2'] = df_clean['Term_2'].fillna('')
-- 
2.43.0


From a93e0d6920a59eacebb6497bc3074ea410dbc404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 45/47] fix: NIST tables without a numeric ionisation limit
 came out empty or kept the levels above it

---
 atomtoolkit/IO.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index a6ce364..5038905 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -102,6 +102,9 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean['Percentage'] = df_clean['Percentage'].fillna(value=100.0)
     df_clean = df_clean.drop('Leading percentages', axis=1)
 
+    # remove any terms above ionization, and the ionization row. The limit itself may have no defined level
+    df_clean = df_clean[(df_clean['Term'] != 'Limit').cummin()]
+
     # drop rows that don't have a defined level
     df_clean = df_clean.dropna(subset=['Level (cm-1)'])
 
@@ -109,8 +112,6 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean['Level (cm-1)'] = df_clean['Level (cm-1)'].astype('pint[cm**-1]')
     df_clean['Level (Hz)'] = df_clean['Level (cm-1)'].pint.to('Hz')
 
-    # remove any terms above ionization, and the ionization row
-    df_clean = df_clean.loc[:(df_clean['Term'] == 'Limit').idxmax() - 1]
     # split up levels with multiple J
     df_clean.J = df_clean.J.str.replace(" or", ",")
     df_clean.J = df_clean.J.str.split(",")
-- 
2.43.0


From f93417a843b5ecd40d65021638b8367adad73849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 46/47] fix: generating an atom without transition table failed
 when the types of transitions were given

---
 atomtoolkit/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 5038905..fd68956 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -307,6 +307,6 @@ def generate_full_from_dataframe(df, name, I=0.0, **kwargs):
         else:
             a.populate_transitions(**kwargs)
     else:
-        a.populate_transitions(allowed=(True, False, False), **kwargs)
+        a.populate_transitions(**{'allowed': (True, False, False), **kwargs})
     a.populate_internal_transitions()
     return a
-- 
2.43.0


From 45a0e7d6817afbfcb60cff98033e4386a95024d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 47/47] fix: transitions could not be accessed by their levels,
 as the README does

---
 atomtoolkit/atom_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 58708c3..a7764e6 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -106,6 +106,7 @@ class TransitionStructure:
         Parses the key to return the associated transition. Supports various kinds of access. Access by:
             - Tuple[int, int]:
                  (n, m) returns the transition between the nth-lowest-lying level and the mth-lowest-lying level
+            - (level, level): returns the transition between the levels
             - alias
             - ([conf] [term] F=[F] mF=[mF], [conf] [term] F=[F] mF=[mF])
             - ([conf] [term] mJ=[mJ], [conf] [term] mJ=[mj])
@@ -117,8 +118,8 @@ class TransitionStructure:
         """
         if key in self.aliases.keys():
             return self.aliases[key]
-        # Energy ranks stand for the names of the levels they refer to
-        key = tuple(self.atom.levels[k].name if isinstance(k, int) else k for k in key)
+        # Energy ranks and levels stand for the names of the levels they refer to
+        key = tuple(self.atom.levels[k].name if isinstance(k, int) else getattr(k, 'name', k) for k in key)
         # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
         if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
             k_lower, k_upper = key[1], key[0]
-- 
2.43.0

