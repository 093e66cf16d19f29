"""Text with symbolic characters.

Text stays an ordinary str; a symbolic character is one private-use code point standing for "one of these characters,
chosen by a solver variable", and a symbolic number formatted into text is a three-character token (engine.token).
Only operations that inspect text (comparison, membership, str methods, regular expressions, parsing numbers) are
intercepted; they decide what they need to know about the characters, forking the path if it is not determined."""
import builtins
import re
from fractions import Fraction
import sys
import types

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:      # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from . import engine as E
from .engine import z3, SymReal, SymBool, RF, Poly, Unsupported, TOK0, TOK1

BASE = 0xF0000
DIGITS = '0123456789'


class Ch:
    """a symbolic character: options[i] where i is the value of the solver variable var"""
    __slots__ = ('var', 'options', 'code')

    def __init__(self, var, options, code):
        self.var, self.options, self.code = var, options, code


class Num:
    __slots__ = ('text', 'value')

    def __init__(self, text, value):
        self.text, self.value = text, value


def chars():
    if not hasattr(E.P, 'chars'):
        E.P.chars = []
        E.P.char_by_key = {}
    return E.P.chars


def intern_char(var, options):
    cs = chars()
    key = (var, options)
    c = E.P.char_by_key.get(key)
    if c is None:
        c = Ch(var, options, chr(BASE + len(cs)))
        cs.append(c)
        E.P.char_by_key[key] = c
    return c.code


def new_char(ctx, name, options):
    """a fresh symbolic character (used by harnesses through SymCtx.char)"""
    i = ctx.path.new_var(name, 'Int')
    x = ctx.path.z3vars[i]
    ctx.path.add(z3.And(x >= 0, x < len(options)))
    ctx.path.domain[i] = (0, len(options) - 1)
    ctx._reg(name, 'char', SymReal(RF(Poly.var(i)), 'int'))
    if len(options) == 1:
        return options[0]
    return intern_char(i, tuple(options))


def has(s):
    for c in s:
        o = ord(c)
        if o >= BASE or 0xe000 <= o <= 0xefff:
            return True
    return False


def items(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        o = ord(c)
        if o >= BASE:
            out.append(chars()[o - BASE])
        elif c == TOK0 and i + 2 < n and s[i + 2] == TOK1:
            out.append(Num(s[i:i + 3], E.P.token_list[ord(s[i + 1]) - 0xe100][0]))
            i += 2
        else:
            out.append(c)
        i += 1
    return out


def text(its):
    return ''.join(x if builtins.type(x) is str else x.code if builtins.type(x) is Ch else x.text for x in its)


def member(it, pred):
    """does the character satisfy pred (a predicate on concrete characters)?  forks"""
    if builtins.type(it) is str:
        return bool(pred(it))
    if builtins.type(it) is Ch:
        x = E.P.z3vars[it.var]
        good = [i for i, c in enumerate(it.options) if pred(c)]
        if not good:
            return False
        if len(good) == len(it.options):
            return True
        return bool(SymBool(f=z3.Or(*[x == i for i in good])))
    # number token: digits only if it is a non-negative integer
    v = it.value
    if not any(pred(c) for c in '0123456789.+-eE'):
        return False
    if v.kind == 'int' and bool(v >= 0):
        d = [bool(pred(c)) for c in DIGITS]
        if all(d):
            return True
        if not any(d):
            return False
    elif v.kind != 'int' and bool(v >= Fraction(1, 10 ** 4)) and bool(v < 10 ** 16):      # written without exponent
        d = [bool(pred(c)) for c in DIGITS + '.']
        if all(d):
            return True
        if not any(d):
            return False
    raise Unsupported('character of a symbolic number')


def pin_char(it):
    v = SymReal(RF(Poly.var(it.var)), 'int').concretize()
    return it.options[builtins.int(v)]


def number_text(v):
    c = v.concretize(short=True)            # few digits, so that characters written behind them matter
    return builtins.str(builtins.int(c)) if v.kind == 'int' else builtins.str(c)


def resolve(s):
    """the concrete text (forks over everything symbolic in it)"""
    if not has(s):
        return s
    return ''.join(x if builtins.type(x) is str else pin_char(x) if builtins.type(x) is Ch else number_text(x.value)
                   for x in items(s))


def parse_number(s, want_int):
    if not has(s):
        return None
    t = s.strip()
    v = E.untoken(t)
    if v is not None:
        if want_int and v.kind != 'int':
            raise ValueError('invalid literal for int()')
        return SymReal(v.rf, 'int' if want_int else 'float')
    its = items(t)
    if any(builtins.type(x) is str and x.isascii() and x.lower() not in DIGITS + '+-._einfaty' for x in its):
        raise ValueError('could not convert string to float: ' + t)
    sign = 1
    if its and builtins.type(its[0]) is str and its[0] in '+-':
        sign = -1 if its[0] == '-' else 1
        its = its[1:]
    if its and all(builtins.type(x) is Ch or (builtins.type(x) is str and x in DIGITS) for x in its):
        if all(member(x, lambda c: c in DIGITS) for x in its):
            total = RF.const(0)
            for x in its:
                total = total * RF.const(10) + digit_value(x)
            return SymReal(total * RF.const(sign), 'int' if want_int else 'float')
    if not want_int and its and its.count('.') == 1 and len(its) > 1 and \
            all(builtins.type(x) is Ch or (builtins.type(x) is str and x in DIGITS + '.') for x in its):
        k = its.index('.')
        digits = its[:k] + its[k + 1:]
        if all(member(x, lambda c: c in DIGITS) for x in digits):
            total = RF.const(0)
            for x in digits:
                total = total * RF.const(10) + digit_value(x)
            return SymReal(total * RF.const(Fraction(sign, 10 ** (len(its) - k - 1))))
    return None


def digit_value(x):
    if builtins.type(x) is str:
        return RF.const(builtins.int(x))
    var = RF(Poly.var(x.var))
    if E.P.sub:
        var = var.subst(E.P.sub)
    idx = [i for i, c in enumerate(x.options) if c in DIGITS]
    off = {builtins.int(x.options[i]) - i for i in idx}
    if len(off) == 1:
        return var + RF.const(off.pop())
    return mapped(x.var, {i: builtins.int(x.options[i]) for i in idx})


def mapped(var, table):
    """integer table[var] as a fresh variable"""
    key = ('map', var, tuple(sorted(table.items())))
    v = E.P.uf_vars.get(key)
    if v is None:
        off = {b - a for a, b in table.items()}
        if len(off) == 1:
            r = RF(Poly.var(var)) + RF.const(off.pop())
            return r.subst(E.P.sub)
        v = E.P.new_var(E.P.fresh_name('idx'), 'Int')
        E.P.uf_vars[key] = v
        E.P.domain[v] = (min(table.values()), max(table.values()))
        E.P.add(z3.Or(*[z3.And(E.P.z3vars[var] == a, E.P.z3vars[v] == b) for a, b in table.items()]))
        E.P.model = None
    r = RF(Poly.var(v))
    return r.subst(E.P.sub) if E.P.sub else r


def same(a, b):
    """two items are the same character"""
    ta, tb = builtins.type(a), builtins.type(b)
    if ta is str and tb is str:
        return a == b
    if ta is Num or tb is Num:
        if ta is Num and tb is Num:
            return bool(a.value == b.value)
        if ta is Num:
            a, b = b, a
        # a single character against a number
        if builtins.type(a) is str and a not in DIGITS + '-.':
            return False
        if builtins.type(a) is str and a in DIGITS:
            return bool(b.value == builtins.int(a))
        if builtins.type(a) is Ch and not any(c in DIGITS + '-.' for c in a.options):
            return False
        raise Unsupported('number against character')
    if ta is str:
        a, b = b, a
        ta, tb = tb, ta
    if tb is str:
        return member(a, lambda c: c == b)
    if a.var == b.var and a.options == b.options:
        return True
    x, y = E.P.z3vars[a.var], E.P.z3vars[b.var]
    pairs = [z3.And(x == i, y == j) for i, c in enumerate(a.options) for j, d in enumerate(b.options) if c == d]
    if not pairs:
        return False
    return bool(SymBool(f=z3.Or(*pairs)))


def collapse(its, other):
    """digit runs opposite a number token are read as numbers"""
    return its


def equal(a, b):
    if a == b:
        return True
    ia, ib = items(a), items(b)
    return equal_items(ia, ib)


def equal_items(ia, ib):
    ta = any(builtins.type(x) is Num for x in ia)
    tb = any(builtins.type(x) is Num for x in ib)
    if not ta and not tb:
        return len(ia) == len(ib) and all(same(x, y) for x, y in zip(ia, ib))
    i = j = 0
    while i < len(ia) and j < len(ib):
        x, y = ia[i], ib[j]
        if builtins.type(x) is Num and builtins.type(y) is not Num:
            n, j2 = run(ib, j)
            if n is None:
                return False
            if not bool(x.value == n):
                return False
            i, j = i + 1, j2
        elif builtins.type(y) is Num and builtins.type(x) is not Num:
            n, i2 = run(ia, i)
            if n is None:
                return False
            if not bool(y.value == n):
                return False
            i, j = i2, j + 1
        else:
            if not same(x, y):
                return False
            i, j = i + 1, j + 1
    return i == len(ia) and j == len(ib)


def run(its, j):
    k = j
    s = ''
    while k < len(its) and builtins.type(its[k]) is str and (its[k] in DIGITS or (its[k] == '-' and k == j)):
        s += its[k]
        k += 1
    if k < len(its) and builtins.type(its[k]) is not str:
        raise Unsupported('mixed digits')
    if not s or s == '-' or (len(s.lstrip('-')) > 1 and s.lstrip('-')[0] == '0'):
        return None, k
    return builtins.int(s), k


def contains(hay, needle):
    if not has(hay) and not has(needle):
        return needle in hay
    return find(items(hay), items(needle)) >= 0


def find(hi, ni, start=0):
    if len(ni) == 1 and builtins.type(ni[0]) is Ch and all(builtins.type(h) is str for h in hi):
        if not member(ni[0], lambda c: c in hi):
            return -1
        # position: which occurrence -- decided one by one
    for i in range(start, len(hi) - len(ni) + 1):
        if all(same(hi[i + k], ni[k]) for k in range(len(ni))):
            return i
    return -1


def method(s, name, a, k):
    its = items(s)
    if name in ('index', 'find') and len(a) == 1 and not k:
        ni = items(a[0])
        if len(ni) == 1 and builtins.type(ni[0]) is Ch and all(builtins.type(h) is str for h in its) \
                and len(set(its)) == len(its):
            if member(ni[0], lambda c: c in its):
                pos = {h: i for i, h in enumerate(its)}
                return SymReal(mapped(ni[0].var, {i: pos[c] for i, c in enumerate(ni[0].options) if c in pos}), 'int')
            p = -1
        else:
            p = find(its, ni)
        if p < 0 and name == 'index':
            raise ValueError('substring not found')
        return len(text(its[:p])) if p >= 0 else -1
    if name in ('upper', 'lower', 'casefold', 'swapcase') and not a:
        out = []
        for x in its:
            if builtins.type(x) is Ch:
                out.append(intern_char(x.var, tuple(getattr(c, name)() for c in x.options)))
            elif builtins.type(x) is str:
                out.append(getattr(x, name)())
            else:
                out.append(x.text)
        return ''.join(out)
    if name in ('isupper', 'islower') and not a:
        good = False
        other = 'islower' if name == 'isupper' else 'isupper'
        for x in its:
            if builtins.type(x) is Num:
                continue
            if member(x, lambda c: getattr(c, other)()):
                return False
            if member(x, lambda c: getattr(c, name)()):
                good = True
        return good
    if name in ('isdigit', 'isalpha', 'isnumeric', 'isdecimal', 'isalnum', 'isspace') and not a:
        return bool(its) and all(member(x, lambda c: getattr(c, name)()) for x in its)
    if name in ('split', 'rsplit') and a and a[0] is not None and builtins.type(a[0]) is str and len(items(a[0])) == 1:
        sep = items(a[0])[0]
        limit = a[1] if len(a) > 1 else k.get('maxsplit', -1)
        return split(its, sep, limit, name == 'rsplit')
    if name == 'startswith' and len(a) == 1 and builtins.type(a[0]) is str:
        ni = items(a[0])
        return len(ni) <= len(its) and all(same(x, y) for x, y in zip(its, ni))
    if name == 'endswith' and len(a) == 1 and builtins.type(a[0]) is str:
        ni = items(a[0])
        return len(ni) <= len(its) and all(same(x, y) for x, y in zip(its[len(its) - len(ni):], ni))
    if name == 'count' and len(a) == 1 and len(items(a[0])) == 1:
        n = items(a[0])[0]
        return sum(1 for x in its if same(x, n))
    if name == 'replace' and len(a) == 2 and len(items(a[0])) == 1:
        n = items(a[0])[0]
        return ''.join(a[1] if same(x, n) else text([x]) for x in its)
    if name in ('strip', 'lstrip', 'rstrip') and len(a) <= 1:
        pred = (lambda c: c.isspace()) if not a or a[0] is None else (lambda c: c in a[0])
        lo, hi = 0, len(its)
        if name != 'rstrip':
            while lo < hi and member(its[lo], pred):
                lo += 1
        if name != 'lstrip':
            while hi > lo and member(its[hi - 1], pred):
                hi -= 1
        return text(its[lo:hi])
    if name in ('partition', 'rpartition') and len(items(a[0])) == 1:
        n = items(a[0])[0]
        order = range(len(its)) if name == 'partition' else range(len(its) - 1, -1, -1)
        for i in order:
            if same(its[i], n):
                return text(its[:i]), text([its[i]]), text(its[i + 1:])
        return (s, '', '') if name == 'partition' else ('', '', s)
    if name in ('removeprefix', 'removesuffix'):
        ni = items(a[0])
        if name == 'removeprefix':
            return text(its[len(ni):]) if len(ni) <= len(its) and all(same(x, y) for x, y in zip(its, ni)) else s
        cut = len(its) - len(ni)
        return text(its[:cut]) if cut >= 0 and all(same(x, y) for x, y in zip(its[cut:], ni)) else s
    return getattr(resolve(s), name)(*[resolve(x) if builtins.type(x) is str else x for x in a], **k)


def split(its, sep, limit, right):
    if not right:
        out, cur = [], []
        for x in its:
            if (limit < 0 or len(out) < limit) and same(x, sep):
                out.append(text(cur))
                cur = []
            else:
                cur.append(x)
        return out + [text(cur)]
    out, cur = [], []
    for x in reversed(its):
        if (limit < 0 or len(out) < limit) and same(x, sep):
            out.append(text(cur[::-1]))
            cur = []
        else:
            cur.append(x)
    return (out + [text(cur[::-1])])[::-1]


# ---- regular expressions --------------------------------------------------------------------------------------------

CATS = {
    sre_c.CATEGORY_DIGIT: lambda c: c.isdigit(), sre_c.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
    sre_c.CATEGORY_SPACE: lambda c: c.isspace(), sre_c.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sre_c.CATEGORY_WORD: lambda c: c.isalnum() or c == '_',
    sre_c.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
}


def in_pred(av, flags):
    neg = False
    parts = []
    for op, a in av:
        if op is sre_c.NEGATE:
            neg = True
        elif op is sre_c.LITERAL:
            parts.append(lambda c, a=a: ord(c) == a)
        elif op is sre_c.RANGE:
            parts.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif op is sre_c.CATEGORY:
            parts.append(CATS[a])
        else:
            raise Unsupported('regex class')

    def pred(c):
        r = any(p(c) for p in parts)
        if not r and flags & re.IGNORECASE:
            r = any(p(c.lower()) or p(c.upper()) for p in parts)
        return r != neg
    return pred


class Matcher:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups
        self.groupdict = self.tree.state.groupdict

    def match_at(self, its, pos):
        for end, g in self.seq(list(self.tree), 0, its, pos, {}):
            return end, g
        return None

    def seq(self, nodes, k, its, pos, g):
        if k == len(nodes):
            yield pos, g
            return
        for p, h in self.node(nodes[k], its, pos, g):
            yield from self.seq(nodes, k + 1, its, p, h)

    def single(self, pred, its, pos, g):
        if pos < len(its):
            it = its[pos]
            if builtins.type(it) is Num:
                v = it.value
                if v.kind == 'int' and bool(v >= 0) and bool(v <= 9):
                    if member(it, pred):
                        yield pos + 1, g
                    return
                raise Unsupported('one character of a symbolic number')
            if member(it, pred):
                yield pos + 1, g

    def pred_of(self, node):
        op, av = node
        if op is sre_c.LITERAL:
            if self.flags & re.IGNORECASE:
                return lambda c: c.lower() == chr(av).lower()
            return lambda c: ord(c) == av
        if op is sre_c.NOT_LITERAL:
            return lambda c: ord(c) != av
        if op is sre_c.ANY:
            return lambda c: c != '\n'
        if op is sre_c.IN:
            return in_pred(av, self.flags)
        return None

    def node(self, node, its, pos, g):
        op, av = node
        pred = self.pred_of(node)
        if pred is not None:
            yield from self.single(pred, its, pos, g)
            return
        if op is sre_c.SUBPATTERN:
            gid, _, _, sub = av
            for p, h in self.seq(list(sub), 0, its, pos, g):
                if gid is not None:
                    h = dict(h)
                    h[gid] = (pos, p)
                yield p, h
            return
        if op is sre_c.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, its, pos, g)
            return
        if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
            lo, hi, sub = av
            yield from self.repeat(list(sub), lo, hi, op is sre_c.MAX_REPEAT, its, pos, g, 0)
            return
        if op is sre_c.AT:
            if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
                if pos == 0:
                    yield pos, g
                return
            if av in (sre_c.AT_END, sre_c.AT_END_STRING):
                if pos == len(its):
                    yield pos, g
                return
            if av in (sre_c.AT_BOUNDARY, sre_c.AT_NON_BOUNDARY):
                w = CATS[sre_c.CATEGORY_WORD]
                a = pos > 0 and member(its[pos - 1], w)
                b = pos < len(its) and member(its[pos], w)
                if (a != b) == (av is sre_c.AT_BOUNDARY):
                    yield pos, g
                return
        if op in (sre_c.ASSERT, sre_c.ASSERT_NOT) and av[0] > 0:
            hit = None
            for hit in self.seq(list(av[1]), 0, its, pos, g):
                break
            if (hit is not None) == (op is sre_c.ASSERT):
                yield pos, (hit[1] if hit and op is sre_c.ASSERT else g)
            return
        raise Unsupported(f'regex {op}')

    def repeat(self, sub, lo, hi, greedy, its, pos, g, n):
        def once():
            # a whole number token counts as "one or more digits" in a repetition of a character class
            if len(sub) == 1 and pos < len(its) and builtins.type(its[pos]) is Num and self.pred_of(sub[0]):
                if lo > 1 or hi != sre_c.MAXREPEAT:
                    raise Unsupported('counted repetition of a symbolic number')
                if member(its[pos], self.pred_of(sub[0])):
                    yield pos + 1, g
                return
            yield from self.seq(sub, 0, its, pos, g)
        if greedy:
            if n < hi:
                for p, h in once():
                    if p == pos:
                        continue
                    yield from self.repeat(sub, lo, hi, greedy, its, p, h, n + 1)
            if n >= lo:
                yield pos, g
        else:
            if n >= lo:
                yield pos, g
            if n < hi:
                for p, h in once():
                    if p == pos:
                        continue
                    yield from self.repeat(sub, lo, hi, greedy, its, p, h, n + 1)


class Match:
    def __init__(self, m, its, start, end, g):
        self.m, self.its, self._s, self._e, self.g = m, its, start, end, g
        self.re = m
        self.string = text(its)

    def _one(self, k):
        if k == 0:
            return text(self.its[self._s:self._e])
        if builtins.type(k) is str:
            k = self.m.groupdict[k]
        if k >= self.m.groups:
            raise IndexError('no such group')
        s = self.g.get(k)
        return None if s is None else text(self.its[s[0]:s[1]])

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._one(k) is None else self._one(k) for k in range(1, self.m.groups))

    def groupdict(self, default=None):
        return {n: default if self._one(k) is None else self._one(k) for n, k in self.m.groupdict.items()}

    def span(self, k=0):
        s = (self._s, self._e) if k == 0 else self.g.get(k, (-1, -1))
        return len(text(self.its[:s[0]])), len(text(self.its[:s[1]]))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]


def finditer(pattern, string, flags=0):
    m = Matcher(pattern, flags)
    its = items(string)
    pos = 0
    while pos <= len(its):
        r = m.match_at(its, pos)
        if r is None:
            pos += 1
            continue
        end, g = r
        yield Match(m, its, pos, end, g)
        pos = end if end > pos else pos + 1


def _pat(p):
    return (p.pattern, p.flags & ~re.UNICODE) if isinstance(p, re.Pattern) else (p.pat, p.fl) \
        if builtins.type(p) is SymPattern else (p, 0)


def use(string):
    return builtins.type(string) is str and E.P is not None and has(string)


def r_findall(p, string, flags=0):
    pat, f0 = _pat(p)
    if not use(string):
        return re.findall(pat, string, flags | f0)
    out = []
    for m in finditer(pat, string, flags | f0):
        g = m.groups('')
        out.append(m.group() if len(g) == 0 else g[0] if len(g) == 1 else g)
    return out


def r_match(p, string, flags=0):
    pat, f0 = _pat(p)
    if not use(string):
        return re.match(pat, string, flags | f0)
    m = Matcher(pat, flags | f0)
    its = items(string)
    r = m.match_at(its, 0)
    return None if r is None else Match(m, its, 0, *r)


def r_fullmatch(p, string, flags=0):
    pat, f0 = _pat(p)
    if not use(string):
        return re.fullmatch(pat, string, flags | f0)
    return r_match(f'(?:{pat})\\Z', string, flags | f0)


def r_search(p, string, flags=0):
    pat, f0 = _pat(p)
    if not use(string):
        return re.search(pat, string, flags | f0)
    for m in finditer(pat, string, flags | f0):
        return m
    return None


def r_finditer(p, string, flags=0):
    pat, f0 = _pat(p)
    if not use(string):
        return re.finditer(pat, string, flags | f0)
    return finditer(pat, string, flags | f0)


def r_sub(p, repl, string, count=0, flags=0):
    pat, f0 = _pat(p)
    if not use(string):
        return re.sub(pat, repl, string, count, flags | f0)
    its = items(string)
    out = []
    at = 0
    n = 0
    for m in finditer(pat, string, flags | f0):
        if count and n >= count:
            break
        out.append(text(its[at:m._s]))
        if callable(repl):
            out.append(repl(m))
        else:
            if '\\' in repl:
                out.append(re.sub(r'\\(\d)', lambda k: m.group(builtins.int(k.group(1))) or '', repl))
            else:
                out.append(repl)
        at = m._e
        n += 1
    out.append(text(its[at:]))
    return ''.join(out)


def r_split(p, string, maxsplit=0, flags=0):
    pat, f0 = _pat(p)
    if not use(string):
        return re.split(pat, string, maxsplit, flags | f0)
    its = items(string)
    out = []
    at = 0
    for m in finditer(pat, string, flags | f0):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(text(its[at:m._s]))
        out.extend(m.groups())
        at = m._e
    return out + [text(its[at:])]


class SymPattern:
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, (re.Pattern, SymPattern)):
            pattern, flags = pattern.pattern, flags | (pattern.flags & ~re.UNICODE)
        c = re.compile(pattern, flags)
        self.pat, self.fl, self.pattern, self.flags = pattern, flags, pattern, flags
        self.groups, self.groupindex = c.groups, c.groupindex

    def findall(self, string):
        return r_findall(self, string)

    def match(self, string):
        return r_match(self, string)

    def fullmatch(self, string):
        return r_fullmatch(self, string)

    def search(self, string):
        return r_search(self, string)

    def finditer(self, string):
        return r_finditer(self, string)

    def sub(self, repl, string, count=0):
        return r_sub(self, repl, string, count)

    def split(self, string, maxsplit=0):
        return r_split(self, string, maxsplit)


class _PatternMeta(builtins.type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (re.Pattern, SymPattern))


class PatternType(metaclass=_PatternMeta):
    pass


class ReProxy(types.ModuleType):
    def __getattr__(self, n):
        return getattr(re, n)


re_proxy = ReProxy('re')
re_proxy.__dict__.update(findall=r_findall, match=r_match, fullmatch=r_fullmatch, search=r_search,
                         finditer=r_finditer, sub=r_sub, split=r_split, compile=SymPattern, Pattern=PatternType)
