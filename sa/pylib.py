"""Further library operations, modelled by their reference semantics.

An application without a normal form becomes  lib(name, rank, args...): an uninterpreted value
for the rewriting, and the operation's own meaning (LIB) for the comparison at valuations.
"""
import itertools
import math
import re
from collections import Counter
import numpy as np
from .terms import *
from . import terms as tm
from . import npmodel as nm_
from .npmodel import REG, elems, arrlike, gather_any, run_map, b_zip, axis_of, dtname, fill_like
from .interp import (Arr, View, Lst, Dct, PyTuple, IterV, GenV, Builtin, Ext, SliceV, Spread, AbsRaise, STR, Term, flat,
                     AnalysisError)

LIB = {}


class Bad(Exception):
    pass


def ev(name):
    def d(f):
        LIB[name] = f
        return f
    return d


def call_lib(name, args, kw):
    base = name.split(':', 1)
    f = LIB.get(base[0])
    if f is None:
        raise Bad(name)
    if len(base) > 1:
        return f(base[1], *args, **kw)
    return f(*args, **kw)


def plain(x):
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        x = float(x)
        return x
    return x


def lib(name, rank, *ts, **kw):
    return T('lib', name, rank, *ts, *[T('kw', k, v) for k, v in sorted(kw.items())])


def terms_of(I, args):
    return [a.term if isinstance(a, Spread) else seqt(I, a) for a in args]


def seqt(I, a):
    """term of an argument that may be an iterable"""
    if isinstance(a, (IterV, GenV, Dct)):
        vals, t = elems(I, a)
        return t if t is not None else tup(*[I.t(x) for x in vals])
    return I.t(a)


def wrap(I, kind, t, dt=None):
    if kind == 'arr':
        return I.mkval(t, dt) if ndim(t) else t
    if kind == 'list':
        return I.lst_term(t)
    if kind == 'iter':
        return IterV(t)
    return t


def mod(name, kind, rank, f, dt=None, names=()):
    """a module function; rank: number, or a function of the argument terms and keywords"""
    key = name.split('.', 1)[1] if name.startswith('numpy.') else name
    LIB[name] = f

    def g(I, args, kw):
        ts = terms_of(I, args)
        if any(isinstance(a, Spread) for a in args):
            ts = [cat(*[a.term if isinstance(a, Spread) else tup(t) for a, t in zip(args, ts)])]
            nme = 'spread:' + name
            r = None if callable(rank) else rank
            return wrap(I, kind, lib(nme, r), dt) if False else wrap(I, kind, T('lib', nme, r, *ts), dt)
        kt = {k: seqt(I, v) for k, v in kw.items()}
        r = rank(ts, kt) if callable(rank) else rank
        d = I.dtype(args[0]) if dt == 0 and args else dt
        return wrap(I, kind, lib(name, r, *ts, **kt), d)
    for n in (name,) + tuple(names):
        if n not in REG or n in OVER:
            REG[n] = g


OVER = {'numpy.tile', 'itertools.combinations', 'itertools.count', 'numpy.diag', 'numpy.lexsort', 'numpy.ndindex'}


@ev('spread')
def _(name, xs):
    return LIB[name](*xs)


def rk(i=0, plus=0):
    return lambda ts, kw: (ndim(ts[i]) + plus if i < len(ts) and ndim(ts[i]) is not None else None)


def fl(ax, i, n):
    return lambda ts, kw: ndim(ts[0]) if ('axis' in kw and kw['axis'] is not NONE or len(ts) > i) else n


A = lambda x: np.array(x)
same_ = rk(0)


def npf(name, rank, kind='arr', dt='int64', f=None, meth=False):
    fn = f
    if fn is None:
        fn = np
        for part in name.split('.'):
            fn = getattr(fn, part)
    mod('numpy.' + name, kind, rank, lambda *a, **k: plain(fn(*a, **k)), dt)
    if meth:
        METH[name] = ('numpy.' + name,)


METH = {}

npf('roll', same_, dt=0)
npf('insert', fl('axis', 3, 1), dt=0)
npf('triu', same_, dt=0)
npf('tril', same_, dt=0)
npf('bincount', 1, f=lambda x, weights=None, minlength=0: np.bincount(np.array(x, dtype=int), weights, minlength))
npf('packbits', fl('axis', 1, 1), dt='uint8')
npf('unpackbits', fl('axis', 1, 1), dt='uint8', f=lambda a, **k: np.unpackbits(np.array(a, dtype=np.uint8), **k))
npf('tile', lambda ts, kw: None if ndim(ts[0]) is None else max(ndim(ts[0]), len(ts[1].args) if ts[1].op == 'tuple' else 1), dt=0)
for _n in ('split', 'array_split', 'hsplit', 'vsplit'):
    npf(_n, rk(0, 1), kind='list', f=(lambda g: lambda a, *r, **k: g(np.array(a), *r, **k))(getattr(np, _n)))
npf('searchsorted', rk(1), meth=True)
npf('union1d', 1)
npf('intersect1d', 1)
npf('setxor1d', 1)
npf('lexsort', 1)
npf('kron', same_)
npf('cumprod', fl('axis', 1, 1), meth=True)
npf('bitwise_and', same_)
npf('bitwise_or', same_)
npf('bitwise_xor', same_)
npf('right_shift', same_)
npf('logical_xor', same_, dt='bool')
npf('gcd', same_)
npf('lcm', same_)
npf('ptp', lambda ts, kw: 0 if len(ts) == 1 and 'axis' not in kw else None, f=lambda x, *a, **k: np.max(x, *a, **k) - np.min(x, *a, **k))
npf('rot90', same_, dt=0)
npf('squeeze', lambda ts, kw: None)
npf('expand_dims', rk(0, 1), dt=0)
npf('broadcast_to', lambda ts, kw: len(ts[1].args) if ts[1].op == 'tuple' else 1, dt=0)
npf('take_along_axis', same_, dt=0)
npf('median', 0, kind='scalar')
npf('choose', lambda ts, kw: ndim(ts[0]))
npf('extract', 1)
npf('partition', same_, dt=0)
npf('argpartition', same_)
npf('trim_zeros', 1)
npf('convolve', 1)
npf('interp', rk(0), dt='float')
npf('digitize', rk(0))
npf('vdot', 0, kind='scalar')
npf('linalg.matrix_rank', 0, kind='scalar')
npf('linalg.det', 0, kind='scalar', f=lambda x: round(float(np.linalg.det(x)), 6))
npf('linalg.norm', 0, kind='scalar')
npf('binary_repr', 0, kind='scalar', f=lambda n, width=None: np.binary_repr(int(n), width))
npf('add.reduceat', rk(0))
npf('mean', lambda ts, kw: (ndim(ts[0]) or 1) - 1 if ('axis' in kw or len(ts) > 1) else 0, dt='float', meth=True)
npf('average', lambda ts, kw: (ndim(ts[0]) or 1) - 1 if ('axis' in kw or len(ts) > 1) else 0, dt='float')
npf('std', 0, kind='scalar')
npf('var', 0, kind='scalar')
npf('logical_or.reduce', lambda ts, kw: (ndim(ts[0]) or 1) - 1, dt='bool')
npf('logical_and.reduce', lambda ts, kw: (ndim(ts[0]) or 1) - 1, dt='bool')
npf('bitwise_or.reduce', lambda ts, kw: (ndim(ts[0]) or 1) - 1)
npf('bitwise_and.reduce', lambda ts, kw: (ndim(ts[0]) or 1) - 1)
npf('bitwise_xor.reduce', lambda ts, kw: (ndim(ts[0]) or 1) - 1)
npf('multiply.reduce', lambda ts, kw: (ndim(ts[0]) or 1) - 1)
npf('add.accumulate', rk(0))
npf('maximum.accumulate', rk(0))
npf('minimum.accumulate', rk(0))
npf('maximum.reduce', lambda ts, kw: (ndim(ts[0]) or 1) - 1)
npf('add.outer', lambda ts, kw: 2)
npf('subtract.outer', lambda ts, kw: 2)
npf('multiply.outer', lambda ts, kw: 2)
npf('equal.outer', lambda ts, kw: 2, dt='bool')
npf('not_equal.outer', lambda ts, kw: 2, dt='bool')
npf('tensordot', lambda ts, kw: None)
npf('cross', same_)
npf('nanmax', 0, kind='scalar')
npf('nanmin', 0, kind='scalar')
npf('floor_divide.at', 0)
npf('isfinite', same_, dt='bool')
npf('isnan', same_, dt='bool')
npf('log2', lambda ts, kw: ndim(ts[0]), dt='float')
npf('log', lambda ts, kw: ndim(ts[0]), dt='float')
npf('exp', lambda ts, kw: ndim(ts[0]), dt='float')
npf('ceil', lambda ts, kw: ndim(ts[0]), dt='float')
npf('trunc', lambda ts, kw: ndim(ts[0]), dt='float')
npf('true_divide', lambda ts, kw: ndim(ts[0]), dt='float')
npf('divide', lambda ts, kw: ndim(ts[0]), dt='float')
npf('float_power', lambda ts, kw: ndim(ts[0]), dt='float')
npf('diag', lambda ts, kw: None if ndim(ts[0]) is None else 3 - ndim(ts[0]), dt=0)
npf('diagflat', 2)
npf('histogram', 2, kind='list', f=lambda x, *a, **k: list(np.histogram(x, *a, **k)))
npf('shape', 1, kind='list')
npf('size', 0, kind='scalar')
npf('ndim', 0, kind='scalar')
npf('array_repr', 0, kind='scalar')
npf('unravel_index', 1, kind='list')
npf('ravel_multi_index', lambda ts, kw: None)
npf('resize', lambda ts, kw: len(ts[1].args) if ts[1].op == 'tuple' else 1)
npf('linspace', 1)
npf('tri', 2)
npf('moveaxis', same_)
npf('rollaxis', same_)
npf('may_share_memory', 0, kind='scalar', f=None)
for _n in ('int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'uint64'):
    LIB['numpy.' + _n] = lambda x, _n=_n: int(np.array([int(x)], dtype=object).astype(np.int64 if abs(int(x)) < 2 ** 63 else object).astype(_n)[0])
for _n in ('float16', 'float32'):
    LIB['numpy.' + _n] = lambda x, _n=_n: float(getattr(np, _n)(float(x)))
for _n in ('may_share_memory', 'floor_divide.at'):
    REG.pop('numpy.' + _n, None)


@ev('nth')
def _(x, k):
    return x[k]


def nth(t, k, rank):
    return T('lib', 'nth', rank, t, num(k))


@ev('unique')
def l_unique(flags, x, axis=None):
    r = np.unique(np.array(x), axis=axis, return_index='i' in flags, return_inverse='v' in flags, return_counts='c' in flags)
    if not flags:
        return plain(r)
    r = list(r)
    if 'v' in flags:
        k = 1 + ('i' in flags)
        r[k] = r[k].reshape(-1)
    return [plain(y) for y in r]


def r_unique(I, args, kw):
    x = seqt(I, args[0])
    flags = ''
    for i, (c, k) in enumerate((('i', 'return_index'), ('v', 'return_inverse'), ('c', 'return_counts'))):
        a = kw.get(k, args[1 + i] if len(args) > 1 + i else None)
        if a is not None and I.t(a) is TRUE:
            flags += c
    ax = kw.get('axis', args[4] if len(args) > 4 else None)
    k = {} if ax is None or ax is NONE else {'axis': I.t(ax)}
    d0 = ndim(x) if k else 1
    t = lib('unique:' + flags, d0 if not flags else None, x, **k)
    if not flags:
        return I.arr(t, I.dtype(args[0]))
    out = [I.arr(nth(t, 0, d0), I.dtype(args[0]))]
    for i in range(len(flags)):
        out.append(I.arr(nth(t, i + 1, 1), 'int64'))
    return PyTuple(out)


REG['numpy.unique'] = r_unique


@ev('einsum')
def _(*a):
    return plain(np.einsum(*a))


def r_einsum(I, args, kw):
    s = I.t(args[0])
    ts = terms_of(I, args)
    r = len(s.args[0].replace(' ', '').split('->')[1]) if s.op == 'str' and '->' in s.args[0] else None
    t = lib('einsum', r, *ts)
    return I.arr(t, 'int64') if r else t


REG['numpy.einsum'] = r_einsum


def r_block(I, args, kw):
    vals = I.as_values(args[0])
    if vals is None:
        raise AnalysisError('block')
    if any(isinstance(x, (Lst, PyTuple)) for x in vals):
        return REG['numpy.vstack'](I, [I.lst([REG['numpy.hstack'](I, [x], {}) for x in vals])], {})
    return REG['numpy.hstack'](I, [I.lst(vals)], {})


REG['numpy.block'] = r_block


def r_fromiter(I, args, kw):
    vals, t = elems(I, args[0])
    t = t if t is not None else tup(*[I.t(x) for x in vals])
    dt = dtname(I, kw.get('dtype', args[1] if len(args) > 1 else None))
    if dt == 'bool':
        t = I.map1(t, truth)
    c = kw.get('count', args[2] if len(args) > 2 else None)
    if c is not None and I.t(c).op != 'num':
        t = slice_(t, ZERO, I.t(c))
    elif c is not None and I.t(c).args[0] >= 0:
        t = slice_(t, ZERO, I.t(c))
    return I.arr(t, dt)


REG['numpy.fromiter'] = r_fromiter


def r_apply(I, args, kw):
    f, ax, arr = args[0], I.t(args[1]), args[2]
    t = I.t(arr)
    if ax.op != 'num':
        raise AnalysisError('apply_along_axis with a computed axis')
    if ndim(t) == 2 and ax.args[0] in (0, -2):
        t = transpose(t)
        arr = I.arr(t, I.dtype(arr))
        r = I.t(run_map(I, lambda x: I.call(f, [x] + list(args[3:]), kw), arr))
        return I.arr(transpose(r) if ndim(r) == 2 else r)
    if ndim(t) == 1:
        return I.call(f, [arr] + list(args[3:]), kw)
    return I.arr(I.t(run_map(I, lambda x: I.call(f, [x] + list(args[3:]), kw), arr)))


REG['numpy.apply_along_axis'] = r_apply


def r_fromfunction(I, args, kw):
    f = args[0]
    sh = I.as_values(args[1])
    if sh is None or len(sh) not in (1, 2):
        raise AnalysisError('fromfunction')
    n = I.t(sh[0])
    v = fresh('f')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    if len(sh) == 1:
        return I.call(f, [I.arr(seq(n, v, TRUE, v))], {})
    m = I.t(sh[1])
    w = fresh('f')
    tm.RANGE[w] = (ZERO, sub(m, ONE))
    return I.call(f, [I.arr(seq(n, v, TRUE, seq(m, w, TRUE, v))), I.arr(seq(n, v, TRUE, seq(m, w, TRUE, w)))], {})


REG['numpy.fromfunction'] = r_fromfunction


def r_indices(I, args, kw):
    sh = I.as_values(args[0])
    if sh is None or len(sh) != 2:
        raise AnalysisError('indices')
    n, m = (I.t(x) for x in sh)
    v, w = fresh('f'), fresh('f')
    tm.RANGE[v], tm.RANGE[w] = (ZERO, sub(n, ONE)), (ZERO, sub(m, ONE))
    return PyTuple([I.arr(seq(n, v, TRUE, seq(m, w, TRUE, v))), I.arr(seq(n, v, TRUE, seq(m, w, TRUE, w)))])


REG['numpy.indices'] = r_indices


def r_meshgrid(I, args, kw):
    a, b = I.t(args[0]), I.t(args[1])
    ij = 'indexing' in kw and I.t(kw['indexing']) is STR('ij')
    if len(args) != 2:
        raise AnalysisError('meshgrid')
    if ij:
        return PyTuple([I.arr(seqmap(a, lambda x: seqmap(b, lambda y: x))), I.arr(seqmap(a, lambda x: b))])
    return PyTuple([I.arr(seqmap(b, lambda y: a)), I.arr(seqmap(b, lambda y: seqmap(a, lambda x: y)))])


REG['numpy.meshgrid'] = r_meshgrid


@ev('ndindex')
def _(*a):
    if len(a) == 1 and isinstance(a[0], list):
        a = a[0]
    return [list(x) for x in np.ndindex(*a)]


REG['numpy.ndindex'] = lambda I, args, kw: IterV(lib('ndindex', 2, *[a.term if isinstance(a, Spread) else I.t(a) for a in args]))


@ev('ndenumerate')
def _(a):
    return [[list(i), plain(x)] for i, x in np.ndenumerate(np.array(a))]


REG['numpy.ndenumerate'] = lambda I, args, kw: IterV(lib('ndenumerate', None, I.t(args[0])))


def inplace(name, f, keep=None):
    LIB[name] = lambda *a, **k: plain(f(*a, **k))

    def g(I, args, kw):
        a = args[0]
        t = I.t(a)
        if not isinstance(a, (Arr, View)):
            raise AnalysisError('%s on something that is no array' % name)
        new = T('lib', name, ndim(t), *[I.t(x) for x in args], *[T('kw', k, I.t(v)) for k, v in sorted(kw.items())])
        I.write_whole(a, new, name)
        return NONE
    REG['numpy.' + name] = g


def _inp(f):
    def g(a, *r, **k):
        x = np.array(a)
        f(x, *[np.array(y) if isinstance(y, list) else y for y in r], **k)
        return x
    return g


inplace('putmask', _inp(np.putmask))
inplace('place', _inp(lambda a, m, v: np.place(a, m.astype(bool), v)))
inplace('put', _inp(np.put))


def _copyto(a, src, where=True):
    x = np.array(a)
    np.copyto(x, np.array(src), where=np.array(where, dtype=bool))
    return x


inplace('copyto', _copyto)
inplace('put_along_axis', _inp(np.put_along_axis))
inplace('subtract.at', _inp(lambda a, i, v: np.subtract.at(a, tuple(i) if False else i, v)))
inplace('maximum.at', _inp(lambda a, i, v: np.maximum.at(a, i, v)))
inplace('bitwise_or.at', _inp(lambda a, i, v: np.bitwise_or.at(a, i, v)))
inplace('random.shuffle', lambda a: 1 / 0)
REG.pop('numpy.random.shuffle', None)


# ---------------------------------------------------------------- subscripts without a normal form
def slice_key(I, k):
    f = lambda x: NONE if x is None else I.t(x)
    return T('lib', 'slice', None, f(k.lo), f(k.hi), f(k.st))


@ev('slice')
def _(a, b, c):
    return slice(a, b, c)


def key_terms(I, ks, kinds):
    out = []
    for k, kd in zip(ks, kinds):
        if kd == 'slice':
            out.append(slice_key(I, k))
        elif kd == 'newaxis':
            out.append(NONE)
        else:
            out.append(I.t(k))
    return out


def np_keys(kinds, ks):
    return tuple(k if kd in ('slice',) else None if kd == 'newaxis' else np.array(k, dtype=bool) if kd == 'mask' else
                 np.array(k, dtype=int) if isinstance(k, list) else k for kd, k in zip(kinds.split(','), ks))


@ev('setitem')
def _(kinds, t, v, *ks):
    x = np.array(t) if isinstance(t, list) and t else np.array(t, dtype=int)
    x[np_keys(kinds, ks)] = np.array(v) if isinstance(v, list) else v
    return plain(x)


@ev('getitem')
def _(kinds, t, *ks):
    return plain((np.array(t) if t else np.array(t, dtype=int))[np_keys(kinds, ks)])


def lib_set(I, t, ks, kinds, vt):
    if not set(kinds) <= {'int', 'slice', 'mask', 'list'} or not ndim(t):
        return None
    return T('lib', 'setitem:' + ','.join(kinds), ndim(t), t, vt, *key_terms(I, ks, kinds))


def lib_get(I, t, ks, kinds):
    d = ndim(t)
    if not set(kinds) <= {'int', 'slice', 'mask', 'list', 'newaxis'} or not d:
        return None
    kt = key_terms(I, ks, kinds)
    r = d
    adv = 0
    for k, kd in zip(kt, kinds):
        if kd == 'int':
            r -= 1
        elif kd == 'newaxis':
            r += 1
        elif kd in ('list', 'mask'):
            n = ndim(k)
            if n is None:
                return None
            r -= n if kd == 'mask' else 1
            adv = max(adv, 1 if kd == 'mask' else n)
    return T('lib', 'getitem:' + ','.join(kinds), r + adv, t, *kt)


# c_ and r_
def index_trick(I, name, ks):
    parts = []
    for k in ks:
        if isinstance(k, SliceV):
            lo = I.t(k.lo) if k.lo is not None else ZERO
            parts.append(REG['numpy.arange'](I, [lo, k.hi] + ([k.st] if k.st is not None else []), {}))
        else:
            parts.append(k)
    if name == 'numpy.c_':
        return REG['numpy.column_stack'](I, [I.lst(parts)], {})
    ps = []
    for p in parts:
        t = I.t(p)
        ps.append(I.arr(tup(t)) if ndim(t) == 0 else p)
    return REG['numpy.concatenate'](I, [I.lst(ps)], {})


# ---------------------------------------------------------------- keys
def keys_of(I, f, t):
    """the values of a key function over the elements of t"""
    if isinstance(f, nm_.CmpKey):
        return None
    x = I.lst_term(t)
    n0 = len(I.unknown) if hasattr(I, 'unknown') else 0
    r = I.t(run_map(I, lambda e: I.call(f, [e], {}), x))
    return r


@ev('argmaxby')
def _(ks):
    return max(range(len(ks)), key=lambda i: ks[i])


@ev('argminby')
def _(ks):
    return min(range(len(ks)), key=lambda i: ks[i])


def mm(name):
    old = REG[name]

    def g(I, args, kw):
        key = kw.get('key')
        if len(args) > 1 and any(isinstance(a, Spread) for a in args):
            t = cat(*[a.term if isinstance(a, Spread) else tup(I.t(a)) for a in args])
            args = [I.lst_term(t)]
        if key is None or key is NONE:
            return old(I, args, {k: v for k, v in kw.items() if k != 'key'})
        if len(args) > 1:
            vals, t = list(args), tup(*[I.t(a) for a in args])
        else:
            vals, t = elems(I, args[0])
            if t is None:
                t = tup(*[I.t(x) for x in vals])
        if vals is not None and not vals:
            if 'default' in kw:
                return kw['default']
            raise AbsRaise('ValueError', I.cur, I.fname())
        if vals is None and 'default' in kw and not I.choose(ge(length(t), ONE)):
            return kw['default']
        if vals is not None:
            ks = tup(*[I.t(I.call(key, [x], {})) for x in vals])
        else:
            ks = keys_of(I, key, t)
        j = lib('arg%sby' % name, 0, ks)
        return I.from_term(T('idx', t, j) if t.op == 'tuple' else idx(t, j))
    REG[name] = g


mm('max')
mm('min')


@ev('argsortby')
def _(ks, rev):
    return sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(rev))


def sort_term(I, t, key, rv):
    """the elements of t ordered by key"""
    if key is None or key is NONE:
        if rv is FALSE:
            return T('sorted', t)
        if rv is TRUE:
            return T('sortedrev', t)
        return ite(rv, T('sortedrev', t), T('sorted', t))
    I.emit('sortkey', key, t, rv, I.cur, I.fname())
    if isinstance(key, nm_.CmpKey):
        return T('sortedby', t, nm_.key_term(I, key), rv)
    ks = keys_of(I, key, t)
    return T('sortedon', t, ks, rv)


def r_sorted(I, args, kw):
    vals, t = elems(I, args[0])
    if t is None:
        t = tup(*[I.t(x) for x in vals])
    rev = kw.get('reverse')
    return I.lst_term(sort_term(I, t, kw.get('key'), I.truth(rev) if rev is not None else FALSE))


REG['sorted'] = r_sorted


# ---------------------------------------------------------------- itertools
def seq_arg(I, a):
    vals, t = elems(I, a)
    return t if t is not None else tup(*[I.t(x) for x in vals])


@ev('groupby')
def _(xs, ks):
    out = []
    for x, k in zip(xs, ks):
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append([k, [x]])
    return out


@ev('head')
def _(xs):
    if not xs:
        raise Bad('next of nothing')
    return xs[0]


def r_groupby(I, args, kw):
    t = seq_arg(I, args[0])
    key = kw.get('key', args[1] if len(args) > 1 else None)
    ks = t if key is None or key is NONE else keys_of(I, key, t)
    return IterV(lib('groupby', None, t, ks))


REG['itertools.groupby'] = r_groupby


@ev('accumulate')
def _(xs, initial=None):
    return plain(list(itertools.accumulate(xs, initial=initial)))


def r_accumulate(I, args, kw):
    if len(args) > 1 or 'func' in kw:
        f = kw.get('func', args[1] if len(args) > 1 else None)
        if f is not NONE:
            nme = f.name if isinstance(f, Builtin) else ''
            if nme in ('operator.mul', 'operator.add', 'max', 'min', 'operator.or_', 'operator.and_', 'operator.xor'):
                return IterV(lib('accum:' + nme, 1, seq_arg(I, args[0])))
            out = I.lst([])
            raise AnalysisError('accumulate with a function')
    k = {'initial': I.t(kw['initial'])} if 'initial' in kw else {}
    return IterV(lib('accumulate', 1, seq_arg(I, args[0]), **k))


@ev('accum')
def _(op, xs):
    import operator
    f = {'operator.mul': operator.mul, 'operator.add': operator.add, 'max': max, 'min': min, 'operator.or_': operator.or_,
         'operator.and_': operator.and_, 'operator.xor': operator.xor}[op]
    return list(itertools.accumulate(xs, f))


REG['itertools.accumulate'] = r_accumulate


def r_islice(I, args, kw):
    t = seq_arg(I, args[0])
    a = [NONE if x is NONE else I.t(x) for x in args[1:]]
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    elif len(a) == 2:
        a = [a[0], a[1], NONE]
    k = SliceV(*[None if x is NONE else x for x in a])
    r = IterV(I.t(nm_.getitem(I, I.lst_term(t), [k], False)))
    if isinstance(args[0], (IterV, GenV)):
        # it takes elements away from the iterator it reads
        rest = IterV(None, []) if a[1] is NONE else IterV(I.t(nm_.getitem(I, I.lst_term(t), [SliceV(a[1], None, None)], False)))
        I.advance(args[0], rest)
    return r


REG['itertools.islice'] = r_islice


def itf(name, rank, f, kind='iter'):
    mod('itertools.' + name, kind, rank, lambda *a, **k: [list(x) if isinstance(x, tuple) else x for x in f(*a, **k)])
    REG['itertools.' + name] = REG['itertools.' + name]


REG.pop('itertools.combinations', None)
itf('permutations', 2, itertools.permutations)
itf('combinations', 2, itertools.combinations)
itf('combinations_with_replacement', 2, itertools.combinations_with_replacement)
itf('zip_longest', None, itertools.zip_longest)
itf('pairwise', None, itertools.pairwise)
itf('compress', None, itertools.compress)
LIB['product'] = lambda *a, repeat=1: [list(x) for x in itertools.product(*a, repeat=repeat)]
_prod = REG['itertools.product']


def r_product(I, args, kw):
    if any(isinstance(a, Spread) for a in args):
        return IterV(lib('spread:product', 2, cat(*[a.term if isinstance(a, Spread) else tup(seq_arg(I, a)) for a in args])))
    if len(args) == 2 and not kw:
        return _prod(I, args, kw)
    k = {x: I.t(v) for x, v in kw.items()}
    return IterV(lib('product', 2, *[seq_arg(I, a) for a in args], **k))


REG['itertools.product'] = r_product


def r_repeat(I, args, kw):
    times = kw.get('times', args[1] if len(args) > 1 else None)
    if times is None:
        return IterV(T('call', 'itertools.repeat', I.t(args[0])))
    x = args[0]
    n = I.t(times)
    if n.op == 'num':
        return IterV(None, [x] * max(0, n.args[0]))
    v = fresh('r')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return IterV(seq(n, v, TRUE, I.t(x)))


REG['itertools.repeat'] = r_repeat


def r_dropwhile(I, args, kw):
    t = seq_arg(I, args[1])
    return IterV(lib('dropwhile', None, t, keys_of(I, args[0], t)))


LIB['dropwhile'] = lambda xs, ks: list(xs)[next((i for i, k in enumerate(ks) if not k), len(xs)):]
REG['itertools.dropwhile'] = r_dropwhile


def r_filterfalse(I, args, kw):
    f = args[0]
    r = run_map(I, lambda x: x, args[1], (lambda x: nott(I.truth(x))) if f is NONE else (lambda x: nott(I.truth(I.call(f, [x], {})))))
    vals = I.as_values(r)
    return IterV(None, vals) if vals is not None else IterV(I.t(r))


REG['itertools.filterfalse'] = r_filterfalse


# ---------------------------------------------------------------- numbers, strings
def sc(name, f=None):
    if f is None:
        m, n = name.split('.')
        f = getattr(__import__(m), n)
    mod(name, 'scalar', 0, f)


for _n in ('comb', 'factorial', 'gcd', 'lcm', 'ceil', 'log', 'log2', 'log10', 'exp', 'trunc', 'perm', 'hypot', 'fabs', 'fsum', 'isclose',
           'copysign', 'fmod', 'dist', 'sumprod'):
    if hasattr(math, _n):
        sc('math.' + _n)
for _n in ('bin', 'oct', 'hex', 'chr', 'ord'):
    sc(_n, getattr(__import__('builtins'), _n))


def txt(x):
    return nm_text(x)


LIB['intbase'] = lambda s, base: int(''.join(s) if isinstance(s, list) else s, base)
_int = REG['int']


def r_int(I, args, kw):
    base = kw.get('base', args[1] if len(args) > 1 else None)
    if base is None:
        return _int(I, args, kw)
    return lib('intbase', 0, I.t(args[0]), I.t(base))


REG['int'] = r_int
LIB['format'] = lambda x, spec='': format(x, spec)


def r_format(I, args, kw):
    if len(args) == 1:
        return I.to_str(I.t(args[0]))
    return lib('format', 0, *[I.t(a) for a in args])


REG['format'] = r_format
LIB['percent'] = lambda s, *a: s % tuple(a)

STRM = {}
for _n, _r in (('zfill', 0), ('removeprefix', 0), ('removesuffix', 0), ('strip', 0), ('lstrip', 0), ('rstrip', 0), ('lower', 0), ('upper', 0),
               ('replace', 0), ('partition', 1), ('rpartition', 1), ('split', 1), ('rsplit', 1), ('splitlines', 1), ('find', 0), ('rfind', 0),
               ('index', 0), ('count', 0), ('ljust', 0), ('rjust', 0), ('center', 0), ('title', 0), ('capitalize', 0), ('isdigit', 0),
               ('isnumeric', 0), ('isdecimal', 0), ('isalpha', 0), ('isspace', 0), ('isalnum', 0), ('swapcase', 0), ('translate', 0), ('expandtabs', 0),
               ('casefold', 0), ('startswith', 0), ('endswith', 0), ('join', 0), ('encode', 0), ('islower', 0), ('isupper', 0)):
    def _mk(n):
        def f(s, *a, **k):
            if isinstance(s, list) and all(isinstance(x, str) for x in s):
                s = ''.join(s)
            if not isinstance(s, str):
                raise Bad('text')
            if n == 'join':
                r = s.join(a[0])
            else:
                r = getattr(s, n)(*[tuple(x) if isinstance(x, list) else x for x in a], **k)
            return list(r) if isinstance(r, tuple) else r
        return f
    STRM[_n] = _r
    LIB['str.' + _n] = _mk(_n)


def str_lib(I, t, m, args, kw):
    if m not in STRM:
        return None
    ts = [seqt(I, a) for a in args]
    r = T('lib', 'str.' + m, STRM[m], t, *ts, *[T('kw', k, I.t(v)) for k, v in sorted(kw.items())])
    return I.lst_term(r) if STRM[m] else truthlike(r, m)


def truthlike(r, m):
    if m.startswith('is') or m in ('startswith', 'endswith'):
        return T('bool', 'lib', r)
    return r


for _n in ('bit_length', 'bit_count'):
    LIB['int.' + _n] = (lambda n: lambda x: getattr(int(x), n)())(_n)
LIB['float.is_integer'] = lambda x: float(x).is_integer()


def num_lib(I, t, m, args, kw):
    if m in ('bit_length', 'bit_count') and not args:
        return T('lib', 'int.' + m, 0, t)
    if m == 'is_integer':
        return T('bool', 'lib', T('lib', 'float.is_integer', 0, t))
    return None


LIB['index'] = lambda xs, x, *r: list(xs).index(x, *r)
LIB['count'] = lambda xs, x: list(xs).count(x) if not isinstance(xs, str) else xs.count(x)


def seq_lib(I, v, m, args, kw):
    t = seqt(I, v)
    if m == 'count':
        return lib('count', 0, t, I.t(args[0]))
    if m == 'index':
        ts = [I.t(a) for a in args]
        if len(ts) == 1 and not I.choose(I.contains(args[0], v)):
            raise AbsRaise('ValueError', I.cur, I.fname())
        return lib('index', 0, t, *ts)
    return None


# ---------------------------------------------------------------- collections
def hk(k):
    return tuple(hk(x) for x in k) if isinstance(k, list) else k


def unhk(k):
    return [unhk(x) for x in k] if isinstance(k, tuple) else k


@ev('Counter')
def _(xs=(), **k):
    if isinstance(xs, dict):
        return dict(xs)
    return dict(Counter(hk(x) for x in xs))


@ev('most_common')
def _(d, n=None):
    return [[unhk(k), v] for k, v in Counter(d).most_common(n)]


@ev('dget0')
def _(d, k):
    return d.get(hk(k), 0)


@ev('fromkeys')
def _(ks, v=None):
    return {hk(k): v for k in ks}


def r_counter(I, args, kw):
    ts = [seq_arg(I, a) if not isinstance(a, Dct) else I.t(a) for a in args]
    return Dct(I.alloc('dict', lib('Counter', None, *ts), counter=True))


REG['collections.Counter'] = r_counter


def r_fromkeys(I, args, kw):
    vals, t = elems(I, args[0])
    d = args[1] if len(args) > 1 else NONE
    if vals is not None and all(I.t(x).op in ('num', 'str') for x in vals):
        return Dct(I.alloc('dict', {I.hashkey(x): d for x in vals}))
    if t is None:
        t = tup(*[I.t(x) for x in vals])
    return Dct(I.alloc('dict', lib('fromkeys', None, t, I.t(d))))


REG['dict.fromkeys'] = r_fromkeys
REG['collections.OrderedDict.fromkeys'] = r_fromkeys

SETM = {}
for _n, _f in (('union', lambda a, b: a | b), ('intersection', lambda a, b: a & b), ('difference', lambda a, b: a - b),
               ('symmetric_difference', lambda a, b: a ^ b)):
    LIB['set.' + _n] = (lambda f: lambda a, *bs: _setop(f, a, bs))(_f)
for _n, _f in (('issubset', lambda a, b: a <= b), ('issuperset', lambda a, b: a >= b), ('isdisjoint', lambda a, b: a.isdisjoint(b))):
    LIB['set.' + _n] = (lambda f: lambda a, b: f(set(map(hk, a)), set(map(hk, b))))(_f)
for _n, _f in (('add', lambda s, x: s + ([] if x in s else [x])), ('discard', lambda s, x: [y for y in s if y != x]),
               ('remove', lambda s, x: [y for i, y in enumerate(s) if i != s.index(x)]),
               ('update', lambda s, xs: _uniq(s + list(xs))), ('clear', lambda s: []),
               ('difference_update', lambda s, xs: [y for y in s if y not in list(xs)]),
               ('intersection_update', lambda s, xs: [y for y in s if y in list(xs)])):
    LIB['set.m.' + _n] = (lambda f: lambda s, *a: _mkset(f(list(s), *a)))(_f)
for _n, _f in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b)):
    LIB['set.' + _n] = (lambda f: lambda a, b: f(set(map(hk, a)), set(map(hk, b))))(_f)


def _uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def _mkset(xs):
    from .teval import SetV
    return SetV(_uniq(xs))


def _setop(f, a, bs):
    r = _uniq(list(a))
    for b in bs:
        k = f(set(map(hk, r)), set(map(hk, b)))
        r = [x for x in _uniq(r + list(b)) if hk(x) in k]
    return _mkset(r)


def set_lib(I, d, m, args, kw):
    """methods of a set"""
    t = I.t(d)
    c = I.heap[d.loc]
    if 'set.m.' + m in LIB:
        if m == 'remove' and not I.choose(I.contains(args[0], d)):
            raise AbsRaise('KeyError', I.cur, I.fname())
        I.emit('write', d.loc, m, I.cur, I.fname())
        c.data = T('lib', 'set.m.' + m, None, t, *[seqt(I, a) for a in args])
        return NONE
    if m in ('issubset', 'issuperset', 'isdisjoint'):
        return T('bool', 'lib', T('lib', 'set.' + m, 0, t, seqt(I, args[0])))
    if m in ('union', 'intersection', 'difference', 'symmetric_difference'):
        return Dct(I.alloc('set', T('lib', 'set.' + m, None, t, *[seqt(I, a) for a in args])))
    return None


@ev('dset')
def _(d, k, v):
    d = dict(d)
    d[hk(k)] = v
    return d


@ev('dupdate')
def _(d, o):
    d = dict(d)
    for k, v in (o.items() if isinstance(o, dict) else o):
        d[hk(k)] = v
    return d


@ev('dpop')
def _(d, k):
    d = dict(d)
    d.pop(hk(k), None)
    return d


@ev('dgetor')
def _(d, k, v=None):
    return d.get(hk(k), v)


# ---------------------------------------------------------------- lists
LIB['linsert'] = lambda xs, i, x: list(xs)[:i] + [x] + list(xs)[i:] if i >= 0 or -i <= len(xs) else [x] + list(xs)
LIB['lremove'] = lambda xs, x: [y for i, y in enumerate(xs) if i != list(xs).index(x)]
LIB['lrotate'] = lambda xs, k=1: list(xs[-(k % len(xs)):] + xs[:-(k % len(xs))]) if xs and k % len(xs) else list(xs)


@ev('lsetslice')
def _(xs, v, s):
    ys = list(xs)
    ys[s] = v
    return ys


TEXT = {'format', 'percent', 'bin', 'hex', 'oct', 'chr', 'sgetslice', 'numpy.binary_repr'} | {
    'str.' + x for x in ('zfill', 'removeprefix', 'removesuffix', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'ljust',
                         'rjust', 'center', 'title', 'join')}


@ev('sgetslice')
def _(s, k):
    if isinstance(s, list):
        s = ''.join(s)
    return s[k]


@ev('lgetslice')
def _(xs, s):
    return xs[s]


@ev('ldelete')
def _(xs, s):
    ys = list(xs)
    del ys[s]
    return ys


LIB['listlt'] = lambda a, b: list(a) < list(b)
LIB['listle'] = lambda a, b: list(a) <= list(b)
LIB['listmul'] = lambda xs, k: list(xs) * k

LIB['chars'] = lambda s: list(s)
LIB['dpoplast'] = lambda d: dict(list(d.items())[:-1])
LIB['dlast'] = lambda d: [unhk(list(d)[-1]), d[list(d)[-1]]]
LIB['dupdate'] = lambda d, e: {**d, **e}
LIB['most_common'] = lambda d, n=None: [[unhk(k), v] for k, v in Counter(d).most_common(n)]
LIB['elements'] = lambda d: [unhk(k) for k in Counter(d).elements()]
LIB['intof'] = lambda s: int(s)


def prod64(xs):
    """numpy.prod of Python numbers: integers that all fit 64 bits are multiplied in 64 bits"""
    r = 1
    for x in xs:
        r = r * x
    if all(type(x) is int and -2 ** 63 <= x < 2 ** 63 for x in xs):
        r = (r + 2 ** 63) % 2 ** 64 - 2 ** 63
    return r


LIB['prod64'] = prod64
LIB['likeshape'] = lambda y, x: plain(np.reshape(np.array(y), np.shape(x)))


# ---------------------------------------------------------------- ordering along an axis
LIB['numpy.flip'] = lambda a, axis=None: plain(np.flip(np.array(a), axis if not isinstance(axis, list) else tuple(axis)))


def along(name, f, dtype=None):
    """the one-dimensional form keeps its normal form; along an axis it is a library operation"""
    plain_rule = REG['numpy.' + name]
    LIB['axis.' + name] = lambda a, axis=-1, **k: plain(f(np.array(a), axis=axis))

    def g(I, args, kw):
        t = I.t(args[0])
        kw = {k: v for k, v in kw.items() if k in ('axis',)}
        if len(args) > 1:
            kw['axis'] = args[1]
        if ndim(t) == 1 or ndim(t) is None and not kw:
            return plain_rule(I, args[:1], {})
        ax = I.t(kw['axis']) if 'axis' in kw else num(-1)
        if ax is NONE or name == 'cumsum' and 'axis' not in kw:
            return I.arr(T('lib', 'axis.' + name, 1, t, T('kw', 'axis', NONE)), dtype or I.dtype(args[0]))
        return I.arr(T('lib', 'axis.' + name, ndim(t), t, T('kw', 'axis', ax)), dtype or I.dtype(args[0]))
    REG['numpy.' + name] = g


along('sort', np.sort)
along('argsort', lambda a, axis: np.argsort(a, axis=axis, kind='stable'), 'int64')
along('cumsum', np.cumsum)
