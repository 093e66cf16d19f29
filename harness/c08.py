"""C08  hyperfine and Zeeman components of a transition"""
from symx.registry import harness
from . import angular as G
from .common import A, Q_, hz, level, second, steps, ff
from .c01 import ff2
from .c07 import want


def ranks(J1, J2, odd):
    """(leading rank or None, allowed ranks) of the fine-structure transition between distinct levels, for numbers"""
    ks = []
    if abs(J1 - J2) <= 1 <= J1 + J2:
        ks.append(1)
    if not odd and abs(J1 - J2) <= 2 <= J1 + J2:
        ks.append(2)
    return (ks[0] if ks else None), ks


def hf_cases(tier):
    out = []
    for I2 in range(6 if tier == 'quick' else 10, -1, -1):
        for odd in (False, True):
            for dJ in (0, 1, 2, -1, -2, 3):
                if tier == 'quick' and (dJ == 3 and I2 > 1 or odd and dJ in (2, -2) and I2 > 2):
                    continue
                out.append(dict(I2=I2, dJ=dJ, odd=odd))
    return out


@harness('C08', cases=hf_cases, quick=dict(top=40), thorough=dict(top=200),
         bounds="every J up to the bound (40 quick, 200 thorough) as one symbolic value, for every I <= 3 (quick; 5 "
                "thorough), J' = J + dJ for dJ = -2..3, with and without parity change, A given or not; all pairs (F, F') "
                "against Racah's sum",
         outside='angular momenta above the bounds; levels whose sublevels interleave in energy')
def hyperfine(ctx, I2, dJ, odd, top):
    I = I2 / 2
    J = ctx.half('J', 0, top)
    ctx.assume(J + dJ >= 0)
    J2 = J + dJ
    first = ctx.flag('first is lower')
    e1, e2 = (0.0, 1e14) if first else (1e14, 0.0)
    atom = A.Atom('x', I=I)
    l1 = atom.add_level(level('c', '2P', J, e1))
    l2 = atom.add_level(level(*second(first, odd, dJ), J2, e2))
    t = A.Transition(l1, l2, A=hz(3.0) if ctx.flag('A given') else None)
    atom.add_transition(t)
    xs = t.subtransitions()
    ctx.check(len(t) == len(xs) and len(list(t)) == len(xs), 'number of components')
    low, high = (l1, l2) if first else (l2, l1)
    seen = set()
    for x in xs:
        a, b = (x.E_1, x.E_2) if x.E_1.parent is l1 else (x.E_2, x.E_1)
        ctx.check(a.parent is l1 and b.parent is l2, 'a component connects the two levels')
        ctx.check(any(a is y for y in l1.sublevels()) and any(b is y for y in l2.sublevels()),
                  'a component connects existing sublevels')
        ctx.check((id(a), id(b)) not in seen, 'a component appears once')
        seen.add((id(a), id(b)))
        ctx.check(x.parent is t, 'a component points to its parent')
        ctx.check(x.atom is atom, 'a component is in the atom')
        lo, hi = (a, b) if first else (b, a)
        ctx.check(x.E_lower is lo and x.E_upper is hi, 'lower and upper sublevel')
        k1, k2 = 'F=' + lo.term.F_frac, 'F=' + hi.term.F_frac
        ctx.check(t[(k1, k2)] is x, 'a component is reached under its key')
        ctx.check((k1, k2) in t.keys(), 'key of a component')
        if (k2, k1) not in t.keys():
            ctx.check(t[(k2, k1)] is x, 'a component is reached under its reversed key')
    for a in l1.sublevels():
        for b in l2.sublevels():
            F1, F2 = a.term.F, b.term.F
            n, dF = F1 - J + I, F2 - F1
            n, dF = ctx.fork(n), ctx.fork(dF)
            lead, ks = sym_ranks(ctx, J, J2, dJ, odd)
            ok = [allowed(ctx, J, I, n, dJ, dF, k) for k in ks]
            present = (id(a), id(b)) in seen
            if lead is not None and ok[0]:
                ctx.check(present, 'a permitted component is there')
            if not any(ok):
                ctx.check(not present, 'a forbidden component is not there')


def sym_ranks(ctx, J, J2, dJ, odd):
    ks = []
    if abs(dJ) <= 1 and J + J2 >= 1:
        ks.append(1)
    if not odd and abs(dJ) <= 2 and J + J2 >= 2:
        ks.append(2)
    return (ks[0] if ks else None), ks


def allowed(ctx, J, I, n, dJ, dF, k):
    """does {J F I; F' J' k} not vanish (decided on this path)"""
    if abs(dF) > k or abs(dJ) > k:
        return False
    F = J - I + n
    if not ctx.holds(2 * F + dF >= k) or not ctx.holds(2 * J + dJ >= k):
        return False
    s = G.six_sum(J, I, n, dJ, dF, k)
    return not zero(s)


def zero(s):
    if isinstance(s, float):
        return abs(s) < 1e-9
    return s == 0


def z_cases(tier):
    return [dict(k=k, dF=dF, s=s) for k in (1, 2) for dF in range(-k, k + 1)
            for s in list(range(0, 3 if tier == 'quick' else 8)) + ['any']]


@harness('C08', cases=z_cases, quick=dict(top=30, anytop=4), thorough=dict(top=150, anytop=12),
         bounds="Zeeman pairs of a hyperfine component: F up to the bound (30 quick, 150 thorough) as one symbolic value, "
                "m = F - s for s < 3 (8 thorough) and every m for F <= 4 (12 thorough), every m'; dipole and quadrupole",
         outside='m further from F for large F')
def zeeman_pair(ctx, k, dF, s, top, anytop):
    if s == 'any':
        F = ctx.fork(ctx.half('F', 0, anytop))
        s = ctx.fork(ctx.int('F-m', 0, 2 * anytop))
    else:
        F = ctx.half('F', 0, top)
    ctx.assume(s <= 2 * F)
    ctx.assume(2 * F + dF >= k)
    m = F - s
    q = ctx.fork(ctx.int('q', -k - 1, k + 1))
    m2 = m - q
    F2 = F + dF
    ctx.assume(m2 <= F2)
    ctx.assume(m2 >= -F2)
    # I = 0, so that F = J
    odd = k == 1 and ctx.flag('parity changes')
    atom = A.Atom('x', I=0)
    l1 = atom.add_level(level('c', '2P', F, 0.0))
    l2 = atom.add_level(level(*second(s == 1, odd, dF), F2, 1e14))
    t = A.Transition(l1, l2, A=hz(3.0))
    h1 = A.HFLevel(l1.term.make_term_copy(F=F), parent=l1)
    h2 = A.HFLevel(l2.term.make_term_copy(F=F2), parent=l2)
    x = A.HFTransition(h1, h2, parent=t)
    z1 = A.ZLevel(h1.term.make_term_copy(mF=m), parent=h1)
    z2 = A.ZLevel(h2.term.make_term_copy(mF=m2), parent=h2)
    for a, b, w in ((z1, z2, ''), (z2, z1, 'reversed: ')):
        y = A.ZTransition(a, b, parent=x)
        al = y.allowed_types
        for kk, names in ((1, (0, 1)), (2, (2,))):
            good = abs(q) <= kk and abs(dF) <= kk and ctx.holds(2 * F + dF >= kk) \
                and not zero(G.three_sum(F, s, kk, dF, q))
            for i in names:
                ctx.check(bool(al[i]) == bool(good and x.allowed_types[i]),
                          w + 'a Zeeman component is allowed exactly where its coefficient does not vanish')


@harness('C08', cases=lambda tier: [dict(odd=o, dJ=d, I2=i) for i in range(4 if tier == 'quick' else 6, -1, -1) for o in (False, True) for d in (0, 1, -1, 2, -2)],
         quick=dict(top=2), thorough=dict(top=4),
         bounds='both layers as generated in an atom: every I <= 2 (quick; 3 thorough), J <= 2 (4 thorough); every field of '
                'at most 10000 G')
def generated(ctx, odd, dJ, I2, top):
    I = I2 / 2
    J = ctx.fork(ctx.half('J', 0, top))
    J2 = J + dJ
    ctx.assume(J2 >= 0)
    first = ctx.flag('first is lower')
    e1, e2 = (0.0, 1e14) if first else (1e14, 0.0)
    B = ctx.real('B', -10000, 10000)
    atom = A.Atom('x', I=I, B=Q_(B, 'G'))
    l1 = level('c', '2P', J, e1, A_=1e9)
    l2 = level(*second(first, odd, dJ), J2, e2, A_=1e8)
    atom.add_level(l1)
    atom.add_level(l2)
    t = atom.add_transition(A.Transition(l1, l2) if ctx.flag('lower named first') == first else A.Transition(l2, l1))
    lead, ks = ranks(J, J2, odd)
    exact(ctx, t, l1, l2, first, lead, ks,
          lambda a, b, k: G.sixj(J, a.term.F, I, b.term.F, J2, k)[0] != 0, lambda h: 'F=' + ff(h.term.F), 'hyperfine: ')
    for x in t.subtransitions():
        a, b = (x.E_1, x.E_2) if x.E_1.parent is l1 else (x.E_2, x.E_1)
        F1, F2 = a.term.F, b.term.F
        hk = [k for k in ks if G.sixj(J, F1, I, F2, J2, k)[0] != 0]
        ctx.check([bool(v) for v in x.allowed_types] == [odd and 1 in hk, not odd and 1 in hk, 2 in hk],
                  'allowed multipoles of a hyperfine component')
        exact(ctx, x, a, b, first, hk[0] if hk else None, hk,
              lambda p, q, k: G.threej(F1, k, F2, -p.term.mF, p.term.mF - q.term.mF, q.term.mF)[0] != 0,
              lambda z: 'mF=' + ff2(z.term.mF), 'Zeeman: ')


def exact(ctx, t, l1, l2, first, lead, ks, nonzero, key, what):
    seen = {}
    for x in t.subtransitions():
        a, b = (x.E_1, x.E_2) if x.E_1.parent is l1 else (x.E_2, x.E_1)
        ctx.check(any(a is y for y in l1.sublevels()) and any(b is y for y in l2.sublevels()),
                  what + 'a component connects existing sublevels')
        ctx.check((id(a), id(b)) not in seen, what + 'a component appears once')
        seen[id(a), id(b)] = x
        ctx.check(x.parent is t and x.atom is t.atom, what + 'a component points to its parent')
    ctx.check(len(t) == len(seen), what + 'number of components')
    for a in l1.sublevels():
        for b in l2.sublevels():
            x = seen.get((id(a), id(b)))
            if lead is not None and nonzero(a, b, lead):
                ctx.check(x is not None, what + 'a permitted component is there')
            if not any(nonzero(a, b, k) for k in ks):
                ctx.check(x is None, what + 'a forbidden component is not there')
            if x is not None:
                lo, hi = (a, b) if first else (b, a)
                ctx.check(t[(key(lo), key(hi))] is x, what + 'a component is reached under its key')
                if seen_key(t, key(hi), key(lo)):
                    continue
                ctx.check(t[(key(hi), key(lo))] is x, what + 'a component is reached under its reversed key')


def seen_key(t, a, b):
    return (a, b) in t.keys()
