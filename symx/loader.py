"""Loads /repo's current source with the hooks symbolic execution needs, and records which of its functions ran.

The source is used as it is; only these operations are redirected so that they see symbolic operands: int(), float(),
str(), type(), round(), range(), `in`, string methods and `re` on text with symbolic characters, functools.lru_cache,
math.*, a few numpy entry points (below) and the angular-momentum library."""
import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import math
import os
import re
import sys
import types

import numpy as np

from . import engine as E
from . import wig, strs
from .engine import SymReal, SymBool, SymComplex, Unsupported

REPO = os.environ.get('SYMX_REPO', '/repo')
SYM = (SymReal, SymBool, SymComplex)


def is_sym(x):
    return builtins.type(x) in SYM


# ---- builtins -------------------------------------------------------------------------------------------------------

def sx_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = builtins.type(x)
        if t is SymReal:
            return x.trunc() if not x.rf.is_const() else builtins.int(x.rf.const_value())
        if t is str and E.P is not None:
            r = strs.parse_number(x, True)
            if r is not None:
                return r
            x = strs.resolve(x)
            return builtins.int(x)
        if t is np.ndarray and x.dtype == object and x.shape == ():
            return sx_int(x.item())
    return builtins.int(*a, **k)


def sx_float(*a):
    if len(a) == 1:
        x = a[0]
        t = builtins.type(x)
        if t is SymReal:
            return SymReal(x.rf) if not x.rf.is_const() else builtins.float(x.rf.const_value())
        if t is str and E.P is not None:
            r = strs.parse_number(x, False)
            if r is not None:
                return r
            x = strs.resolve(x)
            return builtins.float(x)
        if t is np.ndarray and x.dtype == object and x.shape == ():
            return sx_float(x.item())
    return builtins.float(*a)


def sx_str(*a, **k):
    return builtins.str(*a, **k)


def sx_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = builtins.type(x)
        if t is SymReal:
            return x.__class__
        if t is SymBool:
            return bool
        if t is SymComplex:
            return complex
        return t
    return builtins.type(*a, **k)


def sx_round(x, *n):
    if builtins.type(x) is SymReal:
        return x.__round__(*n)
    return builtins.round(x, *n)


def sx_range(*a):
    if any(builtins.type(x) is SymReal for x in a):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return SymRange(start, stop, step)
    return builtins.range(*a)


class SymRange:
    """range with symbolic ends: iteration asks whether there is a next element (forks)"""
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        x = self.start
        n = 0
        while (x < self.stop) if self.step > 0 else (x > self.stop):
            yield x
            x = x + self.step
            n += 1
            if n > 200:
                raise Unsupported('range too long')

    def __len__(self):
        return len(list(iter(self)))

    def __getitem__(self, i):
        return list(self)[i]

    def __reversed__(self):
        return reversed(list(self))


def sx_in(a, b):
    if E.P is not None:
        if builtins.type(b) is str and builtins.type(a) is str:
            return strs.contains(b, a)
        if builtins.type(a) is str and builtins.type(b) in (list, tuple, set, frozenset, dict, KEYS) and strs.has(a):
            return a in b or any(strs.equal(a, x) if builtins.type(x) is str else a == x for x in b)
        if builtins.type(b) is set or builtins.type(b) is frozenset or builtins.type(b) is dict:
            if builtins.type(a) is SymReal and not a.rf.is_const():
                return any(builtins.bool(a == x) for x in b if is_num(x))
    return a in b


KEYS = builtins.type({}.keys())
MISSING = object()


def lookup(d, key):
    """an entry of a dictionary under a text with symbolic characters or a symbolic number"""
    if key in d:
        return d[key]
    if builtins.type(key) is SymReal:
        for k in list(d):
            if is_num(k) and builtins.bool(key == k):
                return d[k]
        return MISSING
    its = strs.items(key)
    if len(its) == 1 and builtins.type(its[0]) is strs.Ch and all(builtins.type(v) is builtins.int for v in d.values()):
        ch = its[0]
        if not strs.member(ch, lambda c: c in d):
            return MISSING
        table = {i: d[c] for i, c in enumerate(ch.options) if c in d}
        if len(table) > 1:
            return SymReal(strs.mapped(ch.var, table), 'int')
    for k in list(d):
        if builtins.type(k) is str and strs.equal(key, k):
            return d[k]
    return MISSING


def symbolic_key(d, key):
    return E.P is not None and builtins.type(d) is dict and \
        (strs.has(key) if builtins.type(key) is str else builtins.type(key) is SymReal and not key.rf.is_const())


def sx_item(obj, key):
    if builtins.type(obj) is dict and symbolic_key(obj, key):
        r = lookup(obj, key)
        if r is MISSING:
            raise KeyError(key)
        return r
    return obj[key]


def is_num(x):
    return builtins.type(x) is SymReal or isinstance(x, E.NUM)


def sx_eq(a, b):
    if builtins.type(a) is str and builtins.type(b) is str and E.P is not None and (strs.has(a) or strs.has(b)):
        return strs.equal(a, b)
    return a == b


def sx_ne(a, b):
    if builtins.type(a) is str and builtins.type(b) is str and E.P is not None and (strs.has(a) or strs.has(b)):
        return not strs.equal(a, b)
    return a != b


PERCENT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d*)((?:\.\d+)?)([a-zA-Z%])')


def sx_mod(a, b):
    """a % b, where text is formatted with symbolic numbers"""
    if builtins.type(a) is not str or E.P is None or \
            not any(is_sym(x) for x in (b if isinstance(b, tuple) else b.values() if isinstance(b, dict) else [b])):
        return a % b
    args = iter(b if isinstance(b, tuple) else [b])

    def sub(m):
        key, flags, width, prec, kind = m.groups()
        if kind == '%':
            return '%'
        x = b[key] if key else next(args)
        if not is_sym(x):
            return ('%' + flags + width + prec + kind) % (x,)
        if flags or width or kind not in 'srdifeg':
            raise Unsupported(f'{m.group()} of a symbolic number')
        if kind in 'sr':
            return builtins.str(x)
        if kind in 'di':
            return builtins.str(x.trunc())
        return format(x, prec + kind)
    return PERCENT.sub(sub, a)


def sx_meth(obj, name, *a, **k):
    if builtins.type(obj) is str and E.P is not None and \
            (strs.has(obj) or any(builtins.type(x) is str and strs.has(x) for x in a)):
        return strs.method(obj, name, a, k)
    if builtins.type(obj) is dict and name == 'get' and a and not k and symbolic_key(obj, a[0]):
        r = lookup(obj, a[0])
        return (a[1] if len(a) > 1 else None) if r is MISSING else r
    if builtins.type(obj) in (list, tuple) and name in ('index', 'count') and len(a) == 1 and E.P is not None and \
            builtins.type(a[0]) is str and strs.has(a[0]):
        hits = (i for i, x in enumerate(obj) if builtins.type(x) is str and strs.equal(a[0], x))
        if name == 'count':
            return len(list(hits))
        for i in hits:
            return i
        raise ValueError('not in list')
    return getattr(obj, name)(*a, **k)


def sx_part(obj, name):
    """numpy takes object arrays for real"""
    x = obj
    if E.P is not None and builtins.type(x) is not np.ndarray and not is_sym(x):
        x = getattr(x, 'magnitude', None)
    if builtins.type(x) is np.ndarray and x.dtype == object and E.P is not None:
        r = np.empty(x.shape, dtype=object)
        for i, v in np.ndenumerate(x):
            r[i] = getattr(v, name)
        return r if x is obj else obj.__class__(r, obj.units)
    return getattr(obj, name)


STR_METHODS = {'index', 'find', 'rfind', 'rindex', 'startswith', 'endswith', 'split', 'rsplit', 'count', 'replace',
               'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'isupper', 'islower',
               'isdigit', 'isalpha', 'isnumeric', 'isdecimal', 'title', 'capitalize', 'casefold', 'swapcase',
               'removeprefix', 'removesuffix', 'get', 'isalnum', 'isspace', 'ljust', 'rjust', 'translate'}
CALLS = {'int': 'sx_int', 'float': 'sx_float', 'str': 'sx_str', 'type': 'sx_type', 'round': 'sx_round',
         'range': 'sx_range'}


class Rewrite(ast.NodeTransformer):
    def __init__(self, bound):
        self.bound = bound

    def name(self, n, at):
        return ast.copy_location(ast.Name(n, ast.Load()), at)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in self.bound:
            if f.id == 'type' and (len(node.args) != 1 or node.keywords):
                return node
            node.func = self.name('__' + CALLS[f.id] + '__', f)
        elif isinstance(f, ast.Name) and f.id == 'map' and node.args and isinstance(node.args[0], ast.Name) and \
                node.args[0].id in CALLS:
            node.args[0] = self.name('__' + CALLS[node.args[0].id] + '__', node.args[0])
        elif isinstance(f, ast.Attribute) and f.attr in STR_METHODS and \
                not any(isinstance(a, ast.Starred) for a in node.args):
            # super().x(...) and module.x(...) are left alone unless the receiver is text at run time
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return node
            return ast.copy_location(ast.Call(self.name('__sx_meth__', f), [f.value, ast.copy_location(
                ast.Constant(f.attr), f)] + node.args, node.keywords), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(self.name('__sx_mod__', node), [node.left, node.right], []), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in ('real', 'imag'):
            return ast.copy_location(ast.Call(self.name('__sx_part__', node), [
                node.value, ast.copy_location(ast.Constant(node.attr), node)], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not any(isinstance(x, (ast.Slice, ast.Starred)) for x in
                                                      (node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice])):
            return ast.copy_location(ast.Call(self.name('__sx_item__', node), [node.value, node.slice], []), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            fn = {ast.In: '__sx_in__', ast.NotIn: '__sx_in__', ast.Eq: '__sx_eq__', ast.NotEq: '__sx_ne__'}.get(type(op))
            if fn:
                call = ast.copy_location(ast.Call(self.name(fn, node), [node.left, node.comparators[0]], []), node)
                if isinstance(op, ast.NotIn):
                    return ast.copy_location(ast.UnaryOp(ast.Not(), call), node)
                return call
        return node


NAMES = {'__sx_part__': sx_part, '__sx_item__': sx_item, '__sx_int__': sx_int, '__sx_float__': sx_float, '__sx_str__': sx_str, '__sx_type__': sx_type, '__sx_round__': sx_round,
         '__sx_range__': sx_range, '__sx_in__': sx_in, '__sx_mod__': sx_mod, '__sx_eq__': sx_eq, '__sx_ne__': sx_ne, '__sx_meth__': sx_meth}


# ---- module proxies -------------------------------------------------------------------------------------------------

class Proxy(types.ModuleType):
    def __init__(self, mod, over):
        super().__init__(mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_mod'], n)


def any_sym(*xs):
    for x in xs:
        t = builtins.type(x)
        if t in SYM:
            return True
        if t in (list, tuple):
            if any_sym(*x):
                return True
        elif t is np.ndarray and x.dtype == object:
            return True
    return False


def m_sqrt(x):
    if builtins.type(x) is SymReal:
        if x < 0:
            raise ValueError('math domain error')
        return x.sqrt()
    return math.sqrt(x)


def m_floor(x):
    return x.__floor__() if builtins.type(x) is SymReal else math.floor(x)


def m_ceil(x):
    return x.__ceil__() if builtins.type(x) is SymReal else math.ceil(x)


def m_trunc(x):
    return x.trunc() if builtins.type(x) is SymReal else math.trunc(x)


def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if any_sym(a, b):
        return a == b
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def m_exp(x):
    return x.exp() if builtins.type(x) is SymReal else math.exp(x)


def m_pow(a, b):
    return a ** b if any_sym(a, b) else math.pow(a, b)


def m_isnan(x):
    return False if is_sym(x) else math.isnan(x)


def m_isinf(x):
    return False if is_sym(x) else math.isinf(x)


def m_isfinite(x):
    return True if is_sym(x) else math.isfinite(x)


def m_hypot(*a):
    return m_sqrt(sum(x * x for x in a)) if any_sym(*a) else math.hypot(*a)


def m_fabs(x):
    return abs(x) if is_sym(x) else math.fabs(x)


def m_fsum(xs):
    xs = list(xs)
    return sum(xs) if any_sym(xs) else math.fsum(xs)


def m_prod(xs, start=1):
    xs = list(xs)
    if any_sym(xs, start):
        for x in xs:
            start = start * x
        return start
    return math.prod(xs, start=start)


def m_copysign(a, b):
    if any_sym(a, b):
        return abs(a) if b >= 0 else -abs(a)
    return math.copysign(a, b)


def m_fmod(a, b):
    if any_sym(a, b):
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    return math.fmod(a, b)


math_proxy = Proxy(math, dict(sqrt=m_sqrt, floor=m_floor, ceil=m_ceil, trunc=m_trunc, isclose=m_isclose, exp=m_exp,
                              pow=m_pow, isnan=m_isnan, isinf=m_isinf, isfinite=m_isfinite, hypot=m_hypot,
                              fabs=m_fabs, fsum=m_fsum, prod=m_prod, copysign=m_copysign, fmod=m_fmod))


def obj(xs):
    xs = list(xs)
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def n_arange(*a, **k):
    k.pop('dtype', None) if any_sym(*a, *k.values()) else None
    if not any_sym(*a, *k.values()):
        return np.arange(*a, **k)
    start = k.get('start', 0)
    step = k.get('step', 1)
    if len(a) == 1:
        stop = k.get('stop', a[0]) if 'stop' in k else a[0]
        if 'stop' in k:
            start = a[0]
    else:
        start, stop = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    # numpy: ceil((stop - start)/step) elements start + i*step
    if builtins.type(step) is SymReal:
        step = step.concretize()
    out = []
    x = start
    n = 0
    while (x < stop) if step > 0 else (x > stop):
        out.append(x)
        x = x + step
        n += 1
        if n > 400:
            raise Unsupported('arange too long')
    return obj(out)


def n_linspace(start, stop, num=50, endpoint=True, **k):
    if not any_sym(start, stop, num):
        return np.linspace(start, stop, num, endpoint=endpoint, **k)
    if builtins.type(num) is SymReal:
        num = builtins.int(num)
    if num == 1:
        return obj([start])
    d = num - 1 if endpoint else num
    out = [start + (stop - start) * i / d for i in builtins.range(num)]
    if endpoint:
        out[-1] = stop
    return obj(out)


def elementwise(real, fn):
    def f(x, *a, **k):
        t = builtins.type(x)
        if t in SYM:
            return fn(x)
        if t in (list, tuple) and any_sym(x):
            x = np.array(x, dtype=object)
            t = np.ndarray
        if t is np.ndarray and x.dtype == object:
            if x.shape == ():
                v = x.item()
                return fn(v) if is_sym(v) else real(builtins.float(v) if not isinstance(v, complex) else v)
            flat = [fn(v) if is_sym(v) else real(v) for v in x.ravel()]
            return obj(flat).reshape(x.shape)
        return real(x, *a, **k)
    f.__name__ = getattr(real, '__name__', 'f')
    return f


def n_norm(x, *a, **k):
    if any_sym(x) and not a and not k:
        flat = np.array(x, dtype=object).ravel()
        tot = 0
        for v in flat:
            tot = tot + (v.abs2() if builtins.type(v) is SymComplex else v.real ** 2 + v.imag ** 2
                         if isinstance(v, complex) and not is_sym(v) else v * v)
        return tot.sqrt() if builtins.type(tot) is SymReal else math.sqrt(tot)
    return np.linalg.norm(x, *a, **k)


def n_isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if any_sym(a, b):
        if any(builtins.type(x) in (list, tuple, np.ndarray) and np.ndim(x) for x in (a, b)):
            a, b = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
            return np.array([n_isclose(x, y) for x, y in zip(a.ravel(), b.ravel())]).reshape(a.shape)
        return builtins.bool(a == b)
    if isinstance(a, np.ndarray) and a.dtype == object:
        a = a.astype(float)
    if isinstance(b, np.ndarray) and b.dtype == object:
        b = b.astype(float)
    return np.isclose(a, b, rtol=rtol, atol=atol, **k)


def n_allclose(a, b, **k):
    return builtins.bool(np.all(n_isclose(a, b, **k)))


def floaty(dtype):
    return dtype in (float, 'float', 'float64', np.float64, complex, 'complex', np.complex128)


def symbolic_now():
    return E.P is not None


def maker(real, fill=None):
    """np.zeros & co: object arrays while executing symbolically, so that symbolic numbers can be stored"""
    def f(*a, **k):
        r = real(*a, **k)
        if symbolic_now() and r.dtype.kind in 'fc':
            return r.astype(object)
        return r
    return f


def n_array(real):
    def f(x, *a, **k):
        dt = k.get('dtype', a[0] if a else None)
        if symbolic_now() and dt is not None and floaty(dt) and any_sym(x):
            k.pop('dtype', None)
            return real(x, dtype=object)
        return real(x, *a, **k)
    return f


def n_like(real):
    def f(x, *a, **k):
        r = real(x, *a, **k)
        return r.astype(object) if symbolic_now() and r.dtype.kind in 'fc' else r
    return f


def n_interp(x, xp, fp, **k):
    if any_sym(x, xp, fp):
        xs = np.array(x, dtype=object)
        out = []
        for v in xs.ravel():
            if v <= xp[0]:
                out.append(fp[0])
            elif v >= xp[len(xp) - 1]:
                out.append(fp[len(xp) - 1])
            else:
                for i in builtins.range(len(xp) - 1):
                    if v <= xp[i + 1]:
                        out.append(fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i]))
                        break
        return obj(out).reshape(xs.shape) if xs.shape else out[0]
    return np.interp(x, xp, fp, **k)


def n_power(a, b, *r, **k):
    if any_sym(a, b):
        return np.asarray(a, dtype=object) ** b if np.ndim(a) else a ** b
    return np.power(a, b, *r, **k)


def c_(name):
    return lambda v: getattr(v, name)()


linalg_proxy = Proxy(np.linalg, dict(norm=n_norm))
np_over = dict(
    arange=n_arange, linspace=n_linspace, linalg=linalg_proxy, isclose=n_isclose, allclose=n_allclose,
    interp=n_interp, math=math_proxy, power=n_power,
    sqrt=elementwise(np.sqrt, c_('sqrt')), exp=elementwise(np.exp, c_('exp')),
    floor=elementwise(np.floor, c_('floor')), ceil=elementwise(np.ceil, c_('ceil')),
    rint=elementwise(np.rint, c_('rint')), round=lambda x, *a, **k: sx_round(x, *a) if is_sym(x)
    else np.round(x, *a, **k),
    abs=elementwise(np.abs, abs), absolute=elementwise(np.abs, abs), fabs=elementwise(np.fabs, abs),
    isnan=elementwise(np.isnan, lambda v: False), isinf=elementwise(np.isinf, lambda v: False),
    isfinite=elementwise(np.isfinite, lambda v: True),
    conj=elementwise(np.conj, c_('conjugate')), conjugate=elementwise(np.conj, c_('conjugate')),
    real=elementwise(np.real, lambda v: v.real), imag=elementwise(np.imag, lambda v: v.imag),
    sign=elementwise(np.sign, lambda v: 1.0 if v > 0 else (-1.0 if v < 0 else 0.0)),
    square=elementwise(np.square, lambda v: v * v),
    zeros=maker(np.zeros), ones=maker(np.ones), empty=maker(np.empty), full=maker(np.full),
    zeros_like=n_like(np.zeros_like), ones_like=n_like(np.ones_like),
    array=n_array(np.array), asarray=n_array(np.asarray),
    float64=sx_float,
)
del np_over['float64']
np_proxy = Proxy(np, np_over)


# functools.lru_cache --------------------------------------------------------------------------------------------------

CACHES = []


def sx_lru_cache(maxsize=128, typed=False):
    def deco(fn):
        real = functools.lru_cache(None if callable(maxsize) else maxsize, typed)(fn)
        CACHES.append(real)

        @functools.wraps(fn)
        def wrapper(*a, **k):
            if any_sym(*a, *k.values()):
                for x in list(a) + list(k.values()):
                    if not is_sym(x):
                        hash_check(x)
                return fn(*a, **k)
            return real(*a, **k)
        wrapper.cache_clear = real.cache_clear
        wrapper.cache_info = real.cache_info
        return wrapper
    if callable(maxsize):
        return deco(maxsize)
    return deco


def hash_check(x):
    if builtins.type(x) is tuple:
        for y in x:
            hash_check(y)
    elif not is_sym(x):
        hash(x)


functools_proxy = Proxy(functools, dict(lru_cache=sx_lru_cache, cache=lambda f: sx_lru_cache(None)(f)))


def wrap_wigner(name):
    real = wig.REAL[name]

    @functools.wraps(real)
    def f(*a, **k):
        if any_sym(*a):
            return getattr(wig, 'wigner_' + name)(*a)
        if k:
            return real(*a, **k)
        return wig.concrete(name, a)
    return f


def sx_to_numeric(arg, errors='raise', **k):
    import pandas as pd
    if E.P is None or not any(is_sym(x) or builtins.type(x) is str and strs.has(x) for x in arg):
        return PD_TO_NUMERIC(arg, errors=errors, **k)
    out = []
    for x in arg:
        if builtins.type(x) is str:
            try:
                x = sx_float(x)
            except ValueError:
                if errors != 'coerce':
                    raise
                x = np.nan
        out.append(np.nan if x is None else x)
    return pd.Series(out, index=arg.index, name=arg.name, dtype=object) if isinstance(arg, pd.Series) else \
        np.array(out, dtype=object)


def sx_read_csv(*a, **k):
    """columns of texts that all are numbers are read as numbers, as pandas does"""
    import pandas as pd
    df = pd.read_csv(*a, **k)
    if E.P is None:
        return df
    for c in df.columns:
        cells = list(df[c])
        if any(builtins.type(x) is str and any(builtins.type(t) is strs.Num for t in strs.items(x)) for x in cells):
            try:
                out = [sx_float(x) if builtins.type(x) is str else x for x in cells]
            except ValueError:
                continue
            df[c] = pd.Series(out, index=df.index, dtype=object)
    return df


def astype_nansafe(real):
    """pandas casts to float (numpy reads the texts of numbers itself)"""
    def f(arr, dtype, copy=True, skipna=False):
        if E.P is not None and isinstance(dtype, np.dtype) and dtype.kind == 'f' and arr.dtype == object and \
                any(is_sym(x) or builtins.type(x) is str and strs.has(x) for x in arr.flat):
            out = np.empty(arr.shape, dtype=object)
            for i, x in np.ndenumerate(arr):
                out[i] = sx_float(x)
            return out
        return real(arr, dtype, copy, skipna)
    return f


def sx_N(x, *a, **k):
    if is_sym(x):
        return x
    import sympy
    return sympy.N(x, *a, **k)


# ---- import ---------------------------------------------------------------------------------------------------------

REPLACE = {}      # id(object) -> replacement, for module globals imported by name


def setup_replacements():
    import sympy
    import sympy.physics.wigner as sw
    import scipy.special
    for n in '369':
        f = getattr(sw, f'wigner_{n}j')
        wig.REAL[n + 'j'] = f
        REPLACE[id(f)] = wrap_wigner(n + 'j')
    REPLACE[id(sympy.N)] = sx_N
    REPLACE[id(functools.lru_cache)] = sx_lru_cache
    REPLACE[id(functools.cache)] = functools_proxy.cache
    REPLACE[id(functools)] = functools_proxy
    REPLACE[id(math)] = math_proxy
    REPLACE[id(np)] = np_proxy
    import re
    REPLACE[id(re)] = strs.re_proxy
    import pandas as pd
    global PD_TO_NUMERIC
    PD_TO_NUMERIC = pd.to_numeric
    import pandas.core.strings.object_array as oa
    import pandas.core.strings.accessor as ac
    oa.re = ac.re = strs.re_proxy               # Series.str methods on texts with symbolic characters
    import pandas.core.dtypes.astype as pa
    pa._astype_nansafe = astype_nansafe(pa._astype_nansafe)
    REPLACE[id(pd)] = Proxy(pd, dict(to_numeric=sx_to_numeric, read_csv=sx_read_csv))
    REPLACE[id(pd.to_numeric)] = sx_to_numeric
    for n, f in np_over.items():
        g = getattr(np, n, None)
        if g is not None:
            REPLACE[id(g)] = f
    for n, f in math_proxy.__dict__.items():
        if not n.startswith('_'):
            g = getattr(math, n, None)
            if g is not None:
                REPLACE[id(g)] = f
    sw_over = {f'wigner_{n}j': REPLACE[id(wig.REAL[n + 'j'])] for n in '369'}
    REPLACE[id(sw)] = Proxy(sw, sw_over)
    from . import bessel
    REPLACE[id(scipy.special.jv)] = bessel.wrap('jv', scipy.special.jv)
    REPLACE[id(scipy.special.voigt_profile)] = bessel.wrap('voigt', scipy.special.voigt_profile)


def sx_replace(x):
    return REPLACE.get(id(x), x)


class AfterImport(ast.NodeTransformer):
    """after each import statement, exchange the imported names for their symbolic-aware versions"""
    def visit_Import(self, node):
        return self.after(node, [a.asname or a.name.split('.')[0] for a in node.names])

    def visit_ImportFrom(self, node):
        if node.module == '__future__' or any(a.name == '*' for a in node.names):
            return node
        return self.after(node, [a.asname or a.name for a in node.names])

    def after(self, node, names):
        out = [node]
        for n in names:
            out.append(ast.copy_location(ast.Assign(
                [ast.Name(n, ast.Store())],
                ast.Call(ast.Name('__sx_replace__', ast.Load()), [ast.Name(n, ast.Load())], [])), node))
        return out


class Loader(importlib.abc.SourceLoader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def get_code(self, fullname):
        src = self.get_data(self.path)
        tree = ast.parse(src, self.path)
        bound = {n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        tree = Rewrite(bound & set(CALLS)).visit(tree)
        tree = AfterImport().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(NAMES)
        module.__dict__['__sx_replace__'] = sx_replace
        super().exec_module(module)
        for n, v in list(module.__dict__.items()):      # names that came in through "from x import *"
            if not n.startswith('__') and id(v) in REPLACE:
                module.__dict__[n] = REPLACE[id(v)]


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in ('atomtoolkit', 'species'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.machinery.ModuleSpec(fullname, Loader(fullname, p), origin=p, is_package=True) \
                if False else importlib.util.spec_from_file_location(fullname, p, loader=Loader(fullname, p),
                                                                     submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py', loader=Loader(fullname, base + '.py'))
        return None


import importlib.util  # noqa: E402

FUNCTIONS = set()


def watch():
    """record the qualified names of /repo functions that run"""
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO):
            FUNCTIONS.add(f'{os.path.relpath(fn, REPO)}:{code.co_qualname}')
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


SNAP = []


def snapshot():
    """module level and default-argument containers, restored before every path"""
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] != 'atomtoolkit':
            continue
        for n, v in list(mod.__dict__.items()):
            if n.startswith('__'):
                continue
            if builtins.type(v) in (dict, list, set):
                SNAP.append((v, builtins.type(v)(v)))
            fns = [v] if isinstance(v, types.FunctionType) else \
                [x for x in v.__dict__.values()] if isinstance(v, builtins.type) and \
                v.__module__.startswith('atomtoolkit') else []
            for f in fns:
                f = getattr(f, '__wrapped__', f)
                for d in list(getattr(f, '__defaults__', None) or ()) + \
                        list((getattr(f, '__kwdefaults__', None) or {}).values()):
                    if builtins.type(d) in (dict, list, set):
                        SNAP.append((d, builtins.type(d)(d)))
            if isinstance(v, builtins.type) and v.__module__.startswith('atomtoolkit'):
                for d in list(v.__dict__.values()):
                    if builtins.type(d) in (dict, list, set):
                        SNAP.append((d, builtins.type(d)(d)))


def reset():
    for c in CACHES:
        c.cache_clear()
    E.REG.clear()
    for live, saved in SNAP:
        if live != saved or builtins.type(live) is not builtins.type(saved):
            live.clear()
            live.update(saved) if not isinstance(live, list) else live.extend(saved)


class _NumberMeta(builtins.type):
    def __instancecheck__(cls, x):
        import numbers
        return builtins.type(x) not in SYM and isinstance(x, numbers.Number)


class _Number(metaclass=_NumberMeta):
    pass


def install():
    os.environ.setdefault('TQDM_DISABLE', '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    setup_replacements()
    import pint.facets.plain.unit as pu
    pu.Number = _Number      # Unit * number has a shortcut for the number 1 with the same result: do not fork on it
    patch_pint_text()
    sys.meta_path.insert(0, Finder())
    watch()


def patch_pint_text():
    """text made of one symbolic number and a unit is parsed to that number times that unit"""
    import pint.facets.plain.registry as pr
    cls = pr.GenericPlainRegistry
    real = cls.parse_expression

    def parse_expression(self, input_string, *a, **k):
        if builtins.type(input_string) is str and strs.has(input_string):
            its = strs.items(input_string.strip())
            if its and builtins.type(its[0]) is strs.Num and not any(builtins.type(x) is strs.Num for x in its[1:]):
                unit = strs.resolve(strs.text(its[1:])).strip()
                return self.Quantity(SymReal(its[0].value.rf), unit)
            input_string = strs.resolve(input_string)
        return real(self, input_string, *a, **k)
    cls.parse_expression = parse_expression
