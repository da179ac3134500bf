"""Models of the numpy / Python library operations the analysed package uses.

Every model maps abstract values to abstract values (terms).  An operation
without a model becomes an uninterpreted application  call(name, args...)  and
is recorded in interp.unknown.
"""
import ast
import os
import sys
from .terms import *
from . import terms as tm
from .interp import (Arr, View, Lst, Dct, Obj, PyTuple, Func, Bound, ClassV, GenV, IterV, PartialV, Builtin, Ext,
                     ModuleV, SliceV, Spread, AbsRaise, STR, Term, flat, floordiv, mod, mkstr, AnalysisError, PropertyV, MUTATORS)


class DDRef:
    """d[key] of a defaultdict(list) or defaultdict(set) with a symbolic key, or d.setdefault(key, [])"""
    def __init__(self, loc, key, kind='list'):
        self.loc, self.key, self.kind = loc, key, kind

    def empty(self):
        return tup() if self.kind == 'list' else T('set', tup())

    def read(self, I):
        """the value; looking it up creates it"""
        c = I.heap[self.loc]
        I.emit('write', self.loc, 'dset', I.cur, I.fname())
        c.data = T('dsetdefault', I.dict_term(c), self.key, self.empty())
        return T('dget', c.data, self.key)

    def open(self, I):
        """a list or set standing for the value, and how its change gets back"""
        c = I.heap[self.loc]
        t = T('lib', 'dgetor', None, I.dict_term(c), self.key, self.empty())
        tmp = I.lst_term(t) if self.kind == 'list' else Dct(I.alloc('set', t))

        def commit():
            I.emit('write', self.loc, 'dset', I.cur, I.fname())
            c = I.heap[self.loc]
            c.data = T('dset', I.dict_term(c), self.key, I.t(tmp))
        return tmp, commit


# ---------------------------------------------------------------- helpers
def nm(f):
    n = f.name
    return n[3:] if n.startswith('np.') else n


def dtname(I, v):
    if v is None or v is NONE:
        return None
    if isinstance(v, Builtin):
        n = v.name.split('.')[-1].rstrip('_')
        return {'int': 'int64', 'bool': 'bool', 'float': 'float', 'object': 'object', 'intp': 'int64',
                'float64': 'float'}.get(n, n)
    if isinstance(v, Term):
        if v.op == 'dtype':
            return v.args[0]
        if v.op == 'str':
            return {'int': 'int64', 'O': 'object', 'i1': 'int8', 'f': 'float'}.get(v.args[0], v.args[0])
    return 'unknown'


def arrlike(I, v):
    return isinstance(v, (Arr, View)) or (isinstance(v, Term) and bool(ndim(v)) and v.op != 'tuple')


def floor_(x):
    if x.op == 'num':
        return num(int(x.args[0] // 1))
    return toint(x) if is_int_term(x) or tm.nonneg(x) else T('floordiv', x, ONE)


def uf(I, name, *args, **kw):
    ts = []
    for a in args:
        ts.append(a.term if isinstance(a, Spread) else I.t(a))
    for k in sorted(kw):
        ts.append(T('kw', k, I.t(kw[k])))
    I.unknown.add(name)
    return T('call', name, *ts)


def axis_of(I, args, kw, pos):
    a = kw.get('axis')
    if a is None and len(args) > pos:
        a = args[pos]
    if a is None or a is NONE:
        return None
    t = I.t(a)
    return t.args[0] if t.op == 'num' else 'sym'


def isneg(t):
    if t.op == 'num':
        return t.args[0] < 0
    p = to_poly(t) if t.op in ('poly',) else None
    if p and all(c < 0 for c in p.values()):
        return nonneg(neg(t))
    return False


def norm_index(t, n):
    return add(n, t) if isneg(t) else t


def from_end(i, n):
    """a bound of a slice: one further from the end than the sequence is long means its start"""
    if not isneg(i):
        if not nonneg(i):
            return ite(ge0(i), i, mx(ZERO, add(n, i)))
        return norm_index(i, n)
    r = norm_index(i, n)
    return r if nonneg(r) else mx(ZERO, r)


def norm_slice(I, s, n, clip=False):
    """-> (lo, hi, step)"""
    st = I.t(s.st) if s.st is not None and s.st is not NONE else ONE
    lo = I.t(s.lo) if s.lo is not None and s.lo is not NONE else None
    hi = I.t(s.hi) if s.hi is not None and s.hi is not NONE else None
    if st is num(-1):
        return (lo, hi, st)
    lo = ZERO if lo is None else from_end(lo, n)
    hi = n if hi is None else from_end(hi, n)
    if hi is not n and hi.op == 'num' and n.op != 'num':
        hi = mn(hi, n)
    if n.op == 'num' and hi.op == 'num':
        hi = num(min(hi.args[0], n.args[0]))
        if lo.op == 'num':
            lo = num(min(lo.args[0], hi.args[0]))
    return lo, hi, st


def reverse(x):
    if x.op == 'tuple':
        return tup(*reversed(x.args))
    if x.op == 'cat':
        return cat(*[reverse(p) for p in reversed(x.args)])
    if x.op == 'reversed':
        return x.args[0]
    n = length(x)
    if x.op == 'seq' and (x.args[2] is not TRUE or x.args[3] is not FALSE):
        nn, v, g, k, b = open_seq(x)
        if k is FALSE:
            m = {v: sub(sub(nn, ONE), v)}
            return seq(nn, v, subst(g, m), subst(b, m))
        return T('reversed', x)
    if dims(x) is None:
        return T('reversed', x)
    v = fresh('r')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, TRUE, idx(x, sub(sub(n, ONE), v)))


tm._MK['reversed'] = reverse


def steps(x, lo, hi, st):
    n = T('floordiv', add(sub(hi, lo), sub(st, ONE)), st) if st is not ONE else sub(hi, lo)
    if n.op == 'floordiv':
        n = floordiv(n.args[0], n.args[1])
    v = fresh('j')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, TRUE, idx(x, add(lo, mul(v, st))))


def arange(lo, hi, st=ONE):
    if st is ONE:
        n = sub(hi, lo)
        v = fresh('a')
        tm.RANGE[v] = (ZERO, sub(n, ONE))
        return seq(n, v, TRUE, add(lo, v))
    if st is num(-1):
        n = sub(lo, hi)
        v = fresh('a')
        tm.RANGE[v] = (ZERO, sub(n, ONE))
        return seq(n, v, TRUE, sub(lo, v))
    n = floordiv(add(sub(hi, lo), sub(st, ONE)), st)
    v = fresh('a')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, TRUE, add(lo, mul(v, st)))


def const_array(shape, val):
    r = val
    for n in reversed(shape):
        v = fresh('z')
        tm.RANGE[v] = (ZERO, sub(n, ONE))
        if n.op == 'num' and 0 <= n.args[0] <= 4:
            r = tup(*[r] * n.args[0])
        else:
            r = seq(n, v, TRUE, r)
    return r


def shape_arg(I, v):
    vals = I.as_values(v)
    if vals is not None:
        return [I.t(x) for x in vals]
    t = I.t(v)
    if ndim(t):
        return None
    return [t]


def ravel(t):
    d = ndim(t)
    if d is None:
        return T('ravel', t)
    if d == 0:
        return tup(t)
    if d == 1:
        return t
    return flat(seqmap(t, ravel))


def collapse_ite(t):
    return t


def is_int_term(t):
    """provably integer valued"""
    if t.op == 'num':
        return isinstance(t.args[0], int)
    if t.op == 'poly':
        return all(isinstance(c, int) and all(e > 0 and is_int_term(a) for a, e in m) for m, c in t.args)
    return t.op in ('sym', 'var', 'bv', 'dim', 'count', 'idx', 'sum', 'max', 'min', 'floordiv', 'mod', 'argmin', 'int',
                    'pow2', 'argmax', 'minr', 'maxr', 'bitand') or isbool(t)


# ---------------------------------------------------------------- attributes
def attr(I, v, name):
    if isinstance(v, DDRef):
        return Builtin('dd.' + name, v)
    if isinstance(v, (Lst, Dct, PyTuple, IterV, GenV)):
        return None
    t = I.t(v)
    if isinstance(v, Term) and v.op in ('str', 'fstr', 'strsym', 'tostr', 'arrstr'):
        return None
    if name == 'shape':
        d = dims(t)
        if d is None:
            return T('shape', t)
        return PyTuple([dim(t, i) for i in range(len(d))])
    if name == 'size':
        d = ndim(t)
        if d is None:
            return T('size', t)
        r = ONE
        for i in range(d):
            r = mul(r, dim(t, i))
        return r
    if name == 'ndim':
        d = ndim(t)
        return num(d) if d is not None else T('ndim', t)
    if name == 'T':
        return transposed(I, v)
    if name == 'dtype':
        return T('dtype', I.dtype(v) or 'unknown')
    if name == 'flat':
        return shaped(I, v, ravel(t), ravel)
    return None


def same(x):
    return x


def transposed(I, v):
    t = I.t(v)
    if ndim(t) == 1:
        return derived(I, v, t, 0, same, lambda x, y: y, True)
    return derived(I, v, transpose(t), 0, transpose, lambda x, y: transpose(y))


def shaped(I, v, r, get):
    return derived(I, v, r, 0, get, lambda x, y: T('lib', 'likeshape', ndim(x), y, x), True)


def derived(I, v, term, dtype=0, get=None, put=None, flat=False):
    """an array sharing memory with v: get computes it from the contents of v, put gives those of v once it was written"""
    if get is not None and isinstance(v, (Arr, View)) and not I.heap[v.loc].meta.get('viewof'):
        if flat and isinstance(v, View) and any(p[0] == 'lens' and not p[3] for p in v.path):
            return I.arr(term, I.dtype(v))          # not one block of memory: a copy
        return View(v.loc, (list(v.path) if isinstance(v, View) else []) + [('lens', get, put, flat)])
    a = I.arr(term, I.dtype(v) if dtype == 0 else dtype)
    if isinstance(v, (Arr, View)):
        c = I.heap[v.loc]
        I.heap[a.loc].meta['viewof'] = c.meta.get('viewof') or v.loc
    return a


# ---------------------------------------------------------------- subscripts
def kind_of_key(I, k):
    if isinstance(k, SliceV):
        return 'slice'
    if k is NONE:
        return 'newaxis'
    if isinstance(k, PyTuple):
        return 'tuple'
    if isinstance(k, (Arr, View, Lst, PyTuple, IterV)):
        t = I.t(k)
        if isinstance(k, (Arr, View)) and (I.dtype(k) == 'bool' or I.boolarr(t)):
            return 'mask'
        if I.boolarr(t):
            return 'mask'
        return 'list'
    if isinstance(k, Term):
        if k.op == 'ellipsis':
            return 'ellipsis'
        d = ndim(k)
        if d:
            return 'mask' if I.boolarr(k) else 'list'
        return 'int'
    return 'int'


def pyl():
    from . import pylib
    return pylib


def spread_keys(I, ks):
    """a tuple used as a subscript is several keys"""
    out = []
    for k in ks:
        if isinstance(k, PyTuple) and len(ks) == 1:
            out += k.items
        else:
            out.append(k)
    kinds = ['list' if isinstance(k, PyTuple) else kind_of_key(I, k) for k in out]
    return out, kinds


def in_range(I, k, n):
    ok = andt(ge0(add(k, n)), ge0(sub(sub(n, ONE), k)))
    d = I.decide(ok)
    if d is False or d is None and not I.choose(ok):
        raise AbsRaise('IndexError', I.cur, I.fname())


def getitem(I, v, ks, is_tuple):
    if isinstance(v, Builtin):
        if v.name == 'numpy.c_':
            from . import pylib
            return pylib.index_trick(I, v.name, ks)
        if v.name == 'numpy.r_':
            parts = []
            for k in ks:
                if isinstance(k, SliceV):
                    parts.append(arange(I.t(k.lo) if k.lo is not None else ZERO, I.t(k.hi)))
                else:
                    t = I.t(k)
                    parts.append(t if ndim(t) or (ndim(t) is None and t.op not in ('idx',)) else tup(t))
            dt = None
            for k in ks:
                dt = dt or I.dtype(k)
            return I.arr(cat(*parts), dt)
        if v.name == 'sys.argv':
            return getitem(I, T('strsym', 'argv'), ks, is_tuple)
        if v.self is None or not v.name.startswith('method.'):
            return v        # typing subscripts
        v = I.t(v)          # a field of an external value
    if isinstance(v, (ClassV, Ext)):
        return v
    if isinstance(v, PropertyV):
        return v
    if isinstance(v, Dct):
        k = ks[0] if not is_tuple else PyTuple(ks)
        if I.catching & {'KeyError', 'LookupError', 'Exception', 'BaseException'} and I.heap[v.loc].meta.get('default') is None and not I.choose(I.contains(k, v)):
            raise AbsRaise('KeyError', I.cur, I.fname())
        return dict_get(I, v, flag_key(I, v, k))
    if isinstance(v, (PyTuple, Lst, IterV, GenV)):
        k = ks[0]
        vals = I.as_values(v)
        if I.catching & {'IndexError', 'LookupError', 'Exception', 'BaseException'} and not isinstance(k, SliceV):
            in_range(I, I.t(k), length(I.t(v)))
        if isinstance(k, SliceV):
            if vals is not None:
                b = []
                for x in (k.lo, k.hi, k.st):
                    t = I.t(x) if x is not None else NONE
                    if t is NONE:
                        b.append(None)
                    elif t.op == 'num':
                        b.append(t.args[0])
                    else:
                        break
                else:
                    r = vals[slice(*b)]
                    return PyTuple(r) if isinstance(v, PyTuple) else I.lst(r)
            t = I.t(v)
            n = length(t)
            lo, hi, st = norm_slice(I, k, n, clip=True)
            if st.op != 'num' or st.args[0] < -1:
                from . import pylib
                return I.lst_term(T('lib', 'lgetslice', ndim(t), t, pylib.slice_key(I, k)))
            if st is num(-1):
                return I.lst_term(reverse(t)) if lo is None and hi is None else I.lst_term(uf(I, 'revslice', t))
            return I.lst_term(slice_(t, lo, hi) if st is ONE else steps(t, lo, hi, st))
        kt = I.t(k)
        if vals is not None and kt.op == 'num':
            j = kt.args[0]
            if -len(vals) <= j < len(vals):
                return vals[j]
            raise AbsRaise('IndexError', I.cur, I.fname())
        t = I.t(v)
        if vals is not None and not vals:
            raise AbsRaise('IndexError', I.cur, I.fname())
        return I.from_term(idx(t, norm_index(kt, length(t)) if dims(t) else kt))
    if isinstance(v, Obj):
        c = I.heap[v.loc]
        if 'ntfields' in c.meta:
            kt = I.t(ks[0])
            if kt.op == 'num':
                return c.data[c.meta['ntfields'][kt.args[0]]]
        m = c.meta['cls'].lookup('__getitem__')
        if m is not None:
            return I.call(Bound(m, v), [ks[0] if not is_tuple else PyTuple(ks)], {})
        return opaque('objitem')
    if isinstance(v, DDRef):
        return getitem(I, I.from_term(v.read(I)), ks, is_tuple)
    if isinstance(v, Term) and (v.op in ('strsym', 'str', 'fstr', 'call', 'tostr', 'arrstr') or
                                v.op == 'lib' and v.args[0].split(':')[0] in pyl().TEXT) and ndim(v) in (0, None):
        k = ks[0]
        if isinstance(k, SliceV) and v.op == 'str':
            b = [NONE if x is None else I.t(x) for x in (k.lo, k.hi, k.st)]
            if all(x is NONE or x.op == 'num' for x in b):
                return STR(v.args[0][slice(*[None if x is NONE else x.args[0] for x in b])])
        if isinstance(k, SliceV) and v.op not in ('strsym',):
            from . import pylib
            return T('lib', 'sgetslice', 0, v, pylib.slice_key(I, k))
        if isinstance(k, SliceV):
            lo = I.t(k.lo) if k.lo is not None else ZERO
            n = length(v)
            hi = I.t(k.hi) if k.hi is not None else n
            lo = norm_index(lo, n)
            hi = norm_index(hi, n)
            if hi is not n and v is T('strsym', 'argv'):
                hi = mn(hi, n)
            return I.lst_term(slice_seq(v, lo, hi))
        kt = I.t(k)
        if v is T('strsym', 'argv') and kt.op == 'num' and kt.args[0] > 0:
            if not I.choose(ge(length(v), num(kt.args[0] + 1))):
                raise AbsRaise('IndexError', I.cur, I.fname())
        return T('idx', v, kt)
    # arrays
    return arr_get(I, v, ks)


BOOLOPS = ('and', 'or', 'not', 'eq0', 'ge0', 'any', 'bool', 'in', 'isnone', 'subset', 'true', 'false')


def flag_key(I, v, k):
    """a condition as key of a dictionary with entries for both outcomes: one path for each"""
    d = I.heap[v.loc].data
    if isinstance(d, dict) and d and isinstance(k, Term) and k.op in BOOLOPS and all(
            isinstance(x, Term) and (x in (TRUE, FALSE) or x in (ZERO, ONE)) for x in d):
        r = TRUE if I.choose(k) else FALSE
        if r not in d and (ONE if r is TRUE else ZERO) in d:
            return ONE if r is TRUE else ZERO
        return r
    return k


def slice_seq(x, lo, hi):
    n = sub(hi, lo)
    v = fresh('j')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, TRUE, T('idx', x, add(v, lo)))


def row_of(I, o):
    return derived(I, o, tup(I.t(o)), 0, lambda x: tup(x), lambda x, y: idx(y, ZERO), True)


def column_of(I, o):
    col = lambda x: seqmap(x, lambda e: tup(e))
    return derived(I, o, col(I.t(o)), 0, col, lambda x, y: seqmap(y, lambda e: idx(e, ZERO)), True)


def no_ellipsis(I, ks, d):
    """the keys with ... written out"""
    is_e = lambda k: isinstance(k, Term) and k.op == 'const' and 'Ellipsis' in k.args[0]
    ks = list(ks)
    if not any(is_e(k) for k in ks):
        return ks
    i = [is_e(k) for k in ks].index(True)
    if i == len(ks) - 1:
        return ks[:-1]
    n = sum(1 for k in ks if kind_of_key(I, k) != 'newaxis') - 1
    if d is None:
        raise AnalysisError('... in an index of an array of unknown rank')
    return ks[:i] + [SliceV(None, None, None) for _ in range(d - n)] + ks[i + 1:]


def arr_get(I, v, ks):
    t = I.t(v)
    ks = no_ellipsis(I, ks, ndim(t))
    kinds = [kind_of_key(I, k) for k in ks]
    if 'tuple' in kinds:
        ks, kinds = spread_keys(I, ks)
    if 'newaxis' in kinds:
        if len(ks) == 2 and ndim(t) == 1:
            other = [k for k, kd in zip(ks, kinds) if kd != 'newaxis']
            o = arr_get(I, v, other)
            ot = I.t(o)
            if not isinstance(o, (Arr, View)):
                o = v
            return row_of(I, o) if kinds[0] == 'newaxis' else column_of(I, o)
        from . import pylib
        r = pylib.lib_get(I, t, ks, kinds)
        return I.mkval(r if r is not None else uf(I, 'newaxis', t), I.dtype(v))
    # views: leading ints then at most one plain slice
    if isinstance(v, (Arr, View)) and kinds and (ndim(t) or 0) >= len(ks):
        path = list(v.path) if isinstance(v, View) else []
        cur = path
        if cur is not None and all(k == 'int' for k in kinds):
            x = t
            p = list(path)
            for k in ks:
                kt = norm_index(I.t(k), length(x))
                x = None if x is None else idx(x, kt)
                p.append(('fix', kt))
            if len(ks) < ndim(t):
                if not I.heap[v.loc].meta.get('viewof'):
                    return View(v.loc, p)
                return derived(I, v, I.view_term(View(v.loc, p)))
            return I.view_term(View(v.loc, p))
        if cur is not None and kinds[-1] == 'slice' and all(k == 'int' for k in kinds[:-1]) and ndim(t) == len(ks) \
                and not I.heap[v.loc].meta.get('viewof'):
            x = t
            p = list(path)
            for k in ks[:-1]:
                kt = norm_index(I.t(k), length(x))
                x = idx(x, kt)
                p.append(('fix', kt))
            n = length(x)
            lo, hi, st = norm_slice(I, ks[-1], n)
            if st is ONE and lo is not None:
                if lo is ZERO and hi is n and p:
                    return View(v.loc, p)
                return View(v.loc, p + [('rng', lo, sub(hi, lo))])
    r = index_term(I, t, ks, kinds)
    if ndim(r) == 0:
        return r
    if all(k in ('int', 'slice') for k in kinds):
        if isinstance(v, (Arr, View)):
            ks = [SliceV(*[None if x is None else I.t(x) for x in (k.lo, k.hi, k.st)]) if kd == 'slice' else I.t(k) for k, kd in zip(ks, kinds)]
            from . import pylib

            def put(x, y):
                z = set_term(I, x, ks, kinds, y)
                return z if z is not None else pylib.lib_set(I, x, ks, kinds, y)
            return derived(I, v, r, 0, lambda x: index_term(I, x, ks, kinds), put)
    return I.mkval(r, I.dtype(v))


def index_term(I, t, ks, kinds):
    if not ks:
        return t
    k, kd = ks[0], kinds[0]
    if kd == 'ellipsis':
        return t
    # two advanced indices pair up
    adv = [i for i, x in enumerate(kinds) if x in ('list', 'mask')]
    if len(adv) >= 2:
        if len(ks) == 2:
            a, b = I.t(ks[0]), I.t(ks[1])
            if kinds == ['list', 'list']:
                na, nb = ndim(a), ndim(b)
                if na == 2 and nb == 2:      # np.ix_ shaped
                    ra, cb = ravel(a), (idx(b, ZERO))
                    return seqmap(ra, lambda i: gather_any(idx(t, i), cb))
                return zipmap([a, b], lambda i, j: idx(idx(t, i), j))
        from . import pylib
        r = pylib.lib_get(I, t, ks, kinds)
        return r if r is not None else uf(I, 'advindex', t, *[I.t(x) for x in ks])
    if kd == 'int':
        n = length(t)
        return index_term(I, idx(t, norm_index(I.t(k), n)), ks[1:], kinds[1:])
    if kd == 'slice':
        n = length(t)
        lo, hi, st = norm_slice(I, k, n)
        if st is num(-1):
            if lo is None and hi is None:
                x = reverse(t)
            else:
                l2 = sub(n, ONE) if lo is None else norm_index(lo, n)
                h2 = num(-1) if hi is None else norm_index(hi, n)
                v = fresh('j')
                m = sub(l2, h2)
                tm.RANGE[v] = (ZERO, sub(m, ONE))
                x = seq(m, v, TRUE, idx(t, sub(l2, v)))
        elif st is ONE:
            x = slice_(t, lo, hi)
        else:
            x = steps(t, lo, hi, st)
    elif kd == 'mask':
        if (ndim(I.t(k)) or 1) > 1:
            from . import pylib
            r = pylib.lib_get(I, t, ks, kinds)
            return r if r is not None else uf(I, 'mask', t, *[I.t(x) for x in ks])
        x = select(t, I.t(k))
    else:
        x = gather_any(t, I.t(k))
    if len(ks) == 1:
        return x
    return seqmap(x, lambda row: index_term(I, row, ks[1:], kinds[1:]))


def gather_any(t, ix):
    if ix.op in ('tuple', 'cat', 'seq'):
        return gather(t, ix)
    n = length(ix)
    v = fresh('g')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, TRUE, idx(t, idx(ix, v)))


def setitem(I, v, ks, val, is_tuple):
    if isinstance(v, Dct):
        return dict_set(I, v, ks[0] if not is_tuple else PyTuple(ks), val)
    if isinstance(v, Lst):
        I.emit('write', v.loc, 'setitem', I.cur, I.fname())
        c = I.heap[v.loc]
        k = ks[0]
        if isinstance(k, SliceV):
            if k.lo is None and k.hi is None:
                vals = I.as_values(val)
                c.data = list(vals) if vals is not None else I.t(val)
                return
            vals = I.as_values(v)
            lo, hi = (I.t(x) if x is not None else None for x in (k.lo, k.hi))
            nv = I.as_values(val)
            if vals is not None and nv is not None and (lo is None or lo.op == 'num') and (hi is None or hi.op == 'num'):
                vals[slice(lo and lo.args[0], hi and hi.args[0])] = nv
                c.data = vals
                return
            t = I.t(v)
            n = length(t)
            lo, hi, st = norm_slice(I, k, n)
            if st is ONE and lo is not None:
                c.data = cat(slice_(t, ZERO, lo), I.t(val), slice_(t, hi, n))
                return
            c.data = opaque('lslice')
            return
        kt = I.t(k)
        if isinstance(c.data, list) and kt.op == 'num' and -len(c.data) <= kt.args[0] < len(c.data):
            c.data = list(c.data)
            c.data[kt.args[0]] = val
            return
        t = I.t(v)
        c.data = scat(t, tup(tup(norm_index(kt, length(t)), I.t(val))))
        return
    if isinstance(v, (Arr, View)):
        return arr_set(I, v, ks, val)
    if isinstance(v, Obj):
        m = I.heap[v.loc].meta['cls'].lookup('__setitem__')
        if m is not None:
            I.call(Bound(m, v), [ks[0] if not is_tuple else PyTuple(ks), val], {})
            return
    I.emit('setunknown', 'item', I.cur, I.fname())
    if isinstance(v, Term) and v.op not in ('str', 'num', 'call'):
        raise AnalysisError('change of an element without a place')


def delitem(I, base, ks):
    from . import pylib
    if not isinstance(base, (Lst, Dct)):
        raise AnalysisError('del of an element')
    c = I.heap[base.loc]
    k = ks[0]
    if isinstance(base, Dct):
        kt = I.hashkey(k)
        if isinstance(c.data, dict) and kt in c.data:
            c.data = {x: v for x, v in c.data.items() if x is not kt}
            return
        c.data = T('lib', 'dpop', None, I.dict_term(c), kt)
        return
    kt = pylib.slice_key(I, k) if isinstance(k, SliceV) else I.t(k)
    if isinstance(c.data, list):
        ix = None
        if kt.op == 'num':
            ix = kt.args[0]
        elif kt.op == 'lib' and all(x is NONE or x.op == 'num' for x in kt.args[2:]):
            ix = slice(*[None if x is NONE else x.args[0] for x in kt.args[2:]])
        if ix is not None:
            d = list(c.data)
            try:
                del d[ix]
            except IndexError:
                raise AbsRaise('IndexError', I.cur, I.fname())
            c.data = d
            return
    t = I.t(base)
    c.data = T('lib', 'ldelete', ndim(t), t, kt)


def is_full(I, k):
    return isinstance(k, SliceV) and (k.lo is None or k.lo is NONE) and (k.hi is None or k.hi is NONE) and \
        (k.st is None or k.st is NONE)


def arr_set(I, v, ks, val):
    t = I.t(v)
    vt = I.t(val)
    if isinstance(val, (Arr, View, Lst)) and False:
        pass
    d = ndim(t)
    ks = no_ellipsis(I, ks, d)
    kinds = [kind_of_key(I, k) for k in ks]
    if all(is_full(I, k) for k in ks):
        if ndim(vt) == d:
            I.write_whole(v, vt, 'setall')
        elif ndim(vt) == 0:
            I.write_whole(v, fill_like(t, vt), 'setall')
        elif d == 2 and ndim(vt) == 1:
            I.write_whole(v, seqmap(t, lambda row: vt), 'setall')
        else:
            I.write_whole(v, opaque('setall', t, vt), 'setall')
        return
    if any(kd == 'tuple' for kd in kinds):
        ks, kinds = spread_keys(I, ks)
    new = set_term(I, t, ks, kinds, vt)
    if new is None:
        from . import pylib
        new = pylib.lib_set(I, t, ks, kinds, vt)
    if new is None:
        I.write_whole(v, opaque('setitem', t, vt), 'setitem')
        return
    # first key a plain int on a >=2-d array: keep the row separate
    if (d or 0) >= 2 and kinds[0] == 'int' and isinstance(v, Arr) and not I.heap[v.loc].meta.get('viewof'):
        kt = norm_index(I.t(ks[0]), length(t))
        rv = View(v.loc, [('fix', kt)])
        row = I.view_term(rv)
        if len(ks) == 1:
            nr = vt if ndim(vt) == d - 1 else fill_like(row, vt)
        else:
            nr = set_term(I, row, ks[1:], kinds[1:], vt)
        if nr is None:
            from . import pylib
            nr = pylib.lib_set(I, row, ks[1:], kinds[1:], vt)
        if nr is None:
            nr = opaque('setrow', row, vt)
        I.write_whole(rv, nr, 'setitem')
        return
    I.write_whole(v, new, 'setitem')


def fill_like(t, val):
    d = ndim(t)
    if not d:
        return val
    return seqmap(t, lambda x: fill_like(x, val))


def set_term(I, t, ks, kinds, vt):
    """t with t[ks] = vt"""
    if not ks:
        return vt if ndim(vt) or not ndim(t) else fill_like(t, vt)
    k, kd = ks[0], kinds[0]
    if ndim(vt) is None and ndim(t) and not (len(ks) == ndim(t) and set(kinds) == {'int'}):
        return None
    n = length(t)
    rest, rk = ks[1:], kinds[1:]
    if len(ks) == 2 and kinds == ['list', 'list']:
        a, b = I.t(ks[0]), I.t(ks[1])
        nn = length(a)
        v = fresh('p')
        tm.RANGE[v] = (ZERO, sub(nn, ONE))
        val = idx(vt, v) if ndim(vt) else vt
        return scat(t, seq(nn, v, TRUE, tup(tup(idx(a, v), idx(b, v)), val)))
    if kd == 'int':
        kt = norm_index(I.t(k), n)
        if not rest:
            if (ndim(t) or 1) > 1 and ndim(vt) == 0:
                vt = fill_like(idx(t, kt), vt)
            return scat(t, tup(tup(kt, vt)))
        if (ndim(t) or 0) >= 2:
            nr = set_term(I, idx(t, kt), rest, rk, vt)
            return None if nr is None else T('scatrow', t, tup(tup(kt, nr)))
        return None
    if kd == 'slice':
        if is_full(I, k) and rest:
            if dims(t) is None:
                return None
            if ndim(vt) == 0:
                return seqmap_or_none(t, lambda row: set_term(I, row, rest, rk, vt))
            v = fresh('c')
            tm.RANGE[v] = (ZERO, sub(n, ONE))
            if rk[0] == 'int':
                nr = set_term(I, idx(t, v), rest, rk, idx(vt, v))
            else:
                nr = set_term(I, idx(t, v), rest, rk, idx(vt, v) if ndim(vt) == 2 else vt)
            return None if nr is None else seq(n, v, TRUE, nr)
        if rest:
            return None
        lo, hi, st = norm_slice(I, k, n)
        if st is not ONE or lo is None:
            return None
        m = sub(hi, lo)
        v = fresh('c')
        tm.RANGE[v] = (ZERO, sub(m, ONE))
        val = vt
        if ndim(vt) == ndim(t):
            val = idx(vt, v)
        return scat(t, seq(m, v, TRUE, tup(add(lo, v), val)))
    if kd == 'mask':
        if rest or ndim(t) is None:
            return None
        mt = I.t(k)
        if ndim(vt) != 0:
            return None
        if ndim(mt) == ndim(t) == 1:
            return zipmap([t, mt], lambda x, c: ite(truth(c), vt, x))
        if ndim(mt) == ndim(t) == 2:
            return zipmap([t, mt], lambda r, mr: zipmap([r, mr], lambda x, c: ite(truth(c), vt, x)))
        return None
    if kd == 'list' and not rest:
        it = I.t(k)
        nn = length(it)
        if it.op == 'seq':
            n2, v, g, kk, b = open_seq(it)
            if ndim(vt) == 0:
                return scat(t, seq(n2, v, g, tup(b, vt), kk))
            if vt.op == 'seq' and (vt.args[2] is not TRUE):
                z = zipmap([it, vt], lambda i, x: tup(i, x))
                return scat(t, z)
            if g is TRUE and kk is FALSE:
                return scat(t, seq(n2, v, TRUE, tup(b, idx(vt, v))))
        if it.op == 'tuple':
            return scat(t, tup(*[tup(i, idx(vt, num(j)) if ndim(vt) else vt) for j, i in enumerate(it.args)]))
        v = fresh('p')
        tm.RANGE[v] = (ZERO, sub(nn, ONE))
        return scat(t, seq(nn, v, TRUE, tup(idx(it, v), idx(vt, v) if ndim(vt) else vt)))
    return None


def seqmap_or_none(t, f):
    bad = []

    def g(x):
        r = f(x)
        if r is None:
            bad.append(1)
            return x
        return r
    r = seqmap(t, g)
    return None if bad else r


# ---------------------------------------------------------------- dicts
def empty_kind(I, v):
    if isinstance(v, Lst) and I.as_values(v) == []:
        return 'list'
    if isinstance(v, Dct) and I.heap[v.loc].kind == 'set' and I.t(v) is T('set', tup()):
        return 'set'
    return None


def default_kind(I, c):
    """'list' or 'set' when the dictionary creates missing values as an empty one"""
    f = c.meta.get('default')
    if isinstance(f, Builtin):
        return f.name if f.name in ('list', 'set') else None
    if isinstance(f, Func) and 'defkind' not in c.meta:
        c.meta['defkind'] = empty_kind(I, I.call(f, [], {}))
    return c.meta.get('defkind')


def pick(I, d, kt, other, strict=False):
    """the entry of a written out dictionary under a key that is not a literal"""
    if all(isinstance(v, Term) for v in d.values()):
        r = other
        for k, v in reversed(d.items()):
            r = ite(eq(kt, k), v, r)
        return r
    for k, v in d.items():
        if I.choose(eq(kt, k)):
            return v
    if strict:
        raise AbsRaise('KeyError', I.cur, I.fname())
    return other


def dict_get(I, d, k):
    c = I.heap[d.loc]
    kt = I.hashkey(k)
    if isinstance(c.data, dict):
        if kt in c.data:
            return c.data[kt]
        if c.meta.get('default') is not None:
            if all(x.op in ('num', 'str') for x in c.data) and kt.op in ('num', 'str'):
                v = I.call(c.meta['default'], [], {})
                c.data[kt] = v
                return v
            if default_kind(I, c):
                return DDRef(d.loc, kt, default_kind(I, c))
            if isinstance(c.meta['default'], Builtin) and c.meta['default'].name in ('int', 'float'):
                return counted(I, d, kt)
            return opaque('ddget')
        if all(x.op in ('num', 'str') for x in c.data) and kt.op in ('num', 'str'):
            raise AbsRaise('KeyError', I.cur, I.fname())
        if 0 < len(c.data) <= 24 and ndim(kt) in (0, None):
            return pick(I, c.data, kt, opaque('dget', kt), True)
        return opaque('dget', kt)
    if default_kind(I, c):
        return DDRef(d.loc, kt, default_kind(I, c))
    if c.meta.get('default') is not None and isinstance(c.meta['default'], Builtin) and c.meta['default'].name in ('int', 'float'):
        return counted(I, d, kt)
    if c.meta.get('default') is not None:
        return opaque('ddget')
    return I.from_term(T('lib', 'dget0', 0, c.data, kt) if c.meta.get('counter') else T('dget', c.data, kt))


def counted(I, d, kt):
    c = I.heap[d.loc]
    t = I.dict_term(c)
    I.emit('write', d.loc, 'dset', I.cur, I.fname())
    c.data = T('dsetdefault', t, kt, ZERO)
    return T('lib', 'dget0', 0, t, kt)


def dict_set(I, d, k, val):
    I.emit('write', d.loc, 'dset', I.cur, I.fname())
    c = I.heap[d.loc]
    kt = I.hashkey(k)
    if isinstance(c.data, dict) and kt.op in ('num', 'str') and all(x.op in ('num', 'str') for x in c.data):
        c.data = dict(c.data)
        c.data[kt] = val
        return
    c.data = T('dset', I.dict_term(c), kt, I.t(val))


# ---------------------------------------------------------------- calls
REG = {}


def reg(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


def at_home(I, v, m, args, kw):
    """an element of a list or a value of a dictionary changed through a name of its own"""
    tmp, commit = I.homed(v)
    r = method(I, tmp, m, args, kw)
    commit()
    return r


class Heeded(dict):
    """keyword arguments that remember which of them a model looked at"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def __len__(self):
        self.whole()
        return dict.__len__(self)

    def whole(self):
        self.seen |= set(dict.keys(self))

    def items(self):
        self.whole()
        return dict.items(self)

    def values(self):
        self.whole()
        return dict.values(self)

    def keys(self):
        self.whole()
        return dict.keys(self)

    def __iter__(self):
        self.whole()
        return dict.__iter__(self)


class HeededArgs(list):
    """positional arguments that remember which of them a model looked at"""

    def __init__(self, a):
        list.__init__(self, a)
        self.top = 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.top = len(self)
        else:
            self.top = max(self.top, i + 1 if i >= 0 else len(self))
        return list.__getitem__(self, i)

    def __iter__(self):
        self.top = len(self)
        return list.__iter__(self)

    def __add__(self, o):
        self.top = len(self)
        return list(self) + o

    def __radd__(self, o):
        self.top = len(self)
        return o + list(self)


# keywords without influence on the values
MOOT = {'requirements', 'dtype', 'order', 'copy', 'subok', 'casting', 'kind', 'like', 'strict', 'flush', 'equal_nan', 'file'}


def heeded(I, fn, name, args, kw, self_=None):
    """a model that does not look at an argument does not describe the call"""
    k, a = Heeded(kw), HeededArgs(args)
    r = fn(I, a, k)
    if r is None:
        return None
    left = [x for x in kw if x not in k.seen and (x not in MOOT or x == 'dtype' and str(dtname(I, kw[x])).lstrip('u') in ('int8', 'int16', 'int32', 'bool'))]
    if name == 'next':
        return r
    if left or a.top < len(a):
        I.unknown.add('%s(%s)' % (name, ', '.join(['...'] * (a.top < len(a)) + left)))
        if os.environ.get('VERIF_HEED'):
            print('UNHEEDED', name, len(args), a.top, left, file=sys.stderr)
        if r is NONE:
            raise AnalysisError('%s with arguments without a model' % name)
        args = list(args) if self_ is None else [self_] + list(args)
        return T('call', name, *[x.term if isinstance(x, Spread) else I.t(x) for x in args], *[T('kw', x, I.t(v)) for x, v in sorted(kw.items())])
    return r


def call(I, f, args, kw):
    name = f.name
    fn = REG.get(name)
    if fn is not None:
        if name.startswith('method.') or name.startswith('dd.') or name.startswith('nt.') or name.startswith('vectorized'):
            return fn(I, f.self, args, kw)
        return fn(I, args, kw) if not kw and len(args) < 2 else heeded(I, fn, name, args, kw)
    if name.startswith('method.'):
        m = name[7:]
        for x in args:
            if isinstance(x, GenV):
                I.force(x)
        if m == '__getitem__' and len(args) == 1 and not isinstance(f.self, Obj):
            return getitem(I, f.self, list(args[0].items) if isinstance(args[0], PyTuple) and not isinstance(f.self, Dct) else [args[0]], False)
        if m == '__contains__' and len(args) == 1:
            return I.contains(args[0], f.self)
        if m == '__len__' and not args:
            return I.call(Builtin('len'), [f.self], {})
        r = method(I, f.self, m, args, kw) if not args and not kw else heeded(
            I, lambda I_, a, k: method(I_, f.self, m, a, k), name, args, kw, f.self)
        if r is not None:
            return r
        if m in MUTATORS and (isinstance(f.self, PyTuple) or isinstance(f.self, Term) and f.self.op in (
                'idx', 'var', 'carry', 'first', 'last', 'ite', 'seq', 'cat', 'tuple', 'slice', 'popel', 'dget', 'sorted')):
            return at_home(I, f.self, m, args, kw)
        if isinstance(f.self, (Arr, View)) or (isinstance(f.self, Term) and (ndim(f.self) or f.self.op in ('opq', 'idx', 'call'))):
            g = REG.get('numpy.' + m)
            if g is not None:
                a = [f.self] + list(args)
                if m == 'compress' and len(a) > 1:
                    a[:2] = a[1::-1]
                return heeded(I, g, 'numpy.' + m, a, kw)
        from . import pylib
        if isinstance(f.self, (IterV, GenV, Arr, View)) and m in pylib.METH:
            return REG[pylib.METH[m][0]](I, [f.self] + list(args), kw)
        if isinstance(f.self, Term) and ndim(f.self) in (0, None):
            r = pylib.num_lib(I, f.self, m, args, kw)
            if r is not None:
                return r
        I.emit('extcall', name, [f.self] + list(args), I.cur, I.fname(), kw)
        if I.watch and m in I.watch:
            I.printed(args, m)
        return T('call', name, *[x.term if isinstance(x, Spread) else I.t(x) for x in [f.self] + list(args)])
    if name.startswith('np.'):
        g = REG.get('numpy.' + name[3:])
        if g:
            return heeded(I, g, name, args, kw)
    if name.startswith('numpy.') and name.count('.') == 1:
        r = cast_call(I, name[6:], args)
        if r is not None:
            return r
    if name in ('importlib.import_module', '__import__') and args and isinstance(args[0], Term) and \
            I.catching & {'ModuleNotFoundError', 'ImportError', 'Exception', 'BaseException'} and \
            I.choose(T('call', 'missing module', args[0])):
        raise AbsRaise('ModuleNotFoundError', I.cur, I.fname())
    I.emit('extcall', name, list(args), I.cur, I.fname(), kw)
    if name in ('click.secho', 'click.echo', 'pprint.pprint', 'pprint.pp', 'sys.stdout.write', 'logging.info'):
        I.printed(args, name)
    elif I.watch and name.split('.')[-1] in I.watch:
        I.printed(list(args) + [v for k, v in kw.items() if k == 'num' or k == 'clear' and name.endswith('.figure')], name.split('.')[-1])
    ts = [x.term if isinstance(x, Spread) else I.t(x) for x in args]
    ts += [T('kw', k, I.t(v)) for k, v in sorted(kw.items())]
    I.unknown.add(name)
    import builtins
    b = getattr(builtins, name, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return T('exc', name)
    return T('call', name, *ts)


def cast_call(I, n, args):
    if n in ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint64', 'intp', 'bool_', 'object_') and len(args) == 1:
        return I.t(args[0])
    return None


def A(I, v, dtype=None):
    """array value from anything sequence-like"""
    t = I.t(v)
    return t


# --- construction
@reg('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def np_array(I, args, kw):
    t = I.t(args[0])
    dt = dtname(I, kw.get('dtype', args[1] if len(args) > 1 else None)) or I.dtype(args[0])
    if ndim(t) == 0 and t.op not in ('call', 'opq', 'idx'):
        return t
    if ndim(t) == 0:
        return t
    return I.arr(t, dt)


def np_const(val):
    def f(I, args, kw):
        sh = shape_arg(I, kw.get('shape', args[0] if args else None))
        dt = dtname(I, kw.get('dtype', args[1] if len(args) > 1 else None)) or 'float'
        if sh is None:
            return I.arr(uf(I, 'const', args[0]), dt)
        return I.arr(const_array(sh, val), dt)
    return f


REG['numpy.zeros'] = np_const(ZERO)
REG['numpy.ones'] = np_const(ONE)
REG['numpy.empty'] = lambda I, a, k: I.arr(const_array(shape_arg(I, a[0]) or [ONE], T('uninit')), dtname(I, k.get('dtype')))


@reg('numpy.full')
def np_full(I, args, kw):
    sh = shape_arg(I, args[0])
    v = I.t(kw.get('fill_value', args[1] if len(args) > 1 else None))
    return I.arr(const_array(sh, v), dtname(I, kw.get('dtype')))


def np_like(val):
    def f(I, args, kw):
        t = I.t(args[0])
        v = val if val is not None else I.t(args[1])
        return I.arr(fill_like(t, v), dtname(I, kw.get('dtype')) or I.dtype(args[0]))
    return f


REG['numpy.zeros_like'] = np_like(ZERO)
REG['numpy.ones_like'] = np_like(ONE)
REG['numpy.full_like'] = np_like(None)


@reg('numpy.identity', 'numpy.eye')
def np_identity(I, args, kw):
    n = I.t(args[0] if args else kw['N'])
    k = I.t(kw.get('k', args[2] if len(args) > 2 else ZERO))
    m = kw.get('M', args[1] if len(args) > 1 else None)
    m = n if m is None or m is NONE else I.t(m)
    if ndim(m) != 0 or m.op in ('const', 'dtype', 'call'):
        return uf(I, 'eye', *args, **kw)
    v, w = fresh('e'), fresh('e')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    tm.RANGE[w] = (ZERO, sub(m, ONE))
    return I.arr(seq(n, v, TRUE, seq(m, w, TRUE, ite(eq(add(v, k), w), ONE, ZERO))), dtname(I, kw.get('dtype')) or 'float')


@reg('numpy.arange')
def np_arange(I, args, kw):
    ts = [I.t(a) for a in args]
    lo, hi, st = (ZERO, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else ONE)
    if not (st.op == 'num' and st.args[0] > 0):
        if all(x.op == 'num' and isinstance(x.args[0], int) for x in (lo, hi, st)) and st is not ZERO:
            return I.arr(tup(*[num(i) for i in range(lo.args[0], hi.args[0], st.args[0])]), dtname(I, kw.get('dtype')) or 'int64')
        return uf(I, 'arange', *args)
    return I.arr(arange(lo, hi, st), dtname(I, kw.get('dtype')) or 'int64')


@reg('numpy.copy')
def np_copy(I, args, kw):
    return I.mkval(I.t(args[0]), I.dtype(args[0]))


# --- shape changing
@reg('numpy.delete')
def np_delete(I, args, kw):
    x = I.t(args[0])
    ix = I.t(args[1] if len(args) > 1 else kw['obj'])
    ax = axis_of(I, args, kw, 2)
    d = ndim(x)
    if ax == -1 and d:
        ax = d - 1
    if ax is None and d is not None and d > 1:
        return I.arr(T('call', 'delete_flat', x, ix), I.dtype(args[0]))
    if ix.op == 'set' or True:
        pass
    if I.boolarr(ix):
        ix = where1(ix)
    if ax in (None, 0):
        ix = norm_del(ix, x)
        return I.arr(delete(x, ix), I.dtype(args[0]))
    if ax == 1:
        return I.arr(seqmap(x, lambda row: delete(row, norm_del(ix, row))), I.dtype(args[0]))
    return I.arr(uf(I, 'delete', x, ix), I.dtype(args[0]))


def norm_del(ix, x):
    if ndim(ix) == 0:
        return norm_index(ix, length(x))
    return ix


def parts_of(I, v):
    vals = I.as_values(v)
    if vals is not None:
        return [I.t(x) for x in vals]
    return None


@reg('numpy.append')
def np_append(I, args, kw):
    x, y = I.t(args[0]), I.t(args[1])
    ax = axis_of(I, args, kw, 2)
    dt = I.dtype(args[0])
    if ax is None:
        return I.arr(cat(ravel(x), ravel(y)), dt)
    if ax in (0,):
        return I.arr(cat(x, y), dt)
    return I.arr(hcat([x, y]), dt)


def hcat(parts):
    n = None
    for p in parts:
        n = n or (length(p) if dims(p) else None)
    n = length(parts[0])
    for p in parts:
        m = length(p)
        if n.op in ('dim', 'count') and m.op not in ('dim', 'count'):
            n = m
    return zipmap(parts, lambda *rows: cat(*rows))


@reg('numpy.hstack', 'numpy.concatenate', 'numpy.vstack', 'numpy.row_stack', 'numpy.stack', 'numpy.column_stack')
def np_stack_dummy(I, args, kw):
    raise AnalysisError('stack')


def _dt_of_parts(I, v):
    vals = I.as_values(v)
    if vals:
        for x in vals:
            d = I.dtype(x)
            if d:
                return d
    return None


@reg('numpy.hstack')
def np_hstack(I, args, kw):
    dt = dtname(I, kw.get('dtype')) or _dt_of_parts(I, args[0])
    ps = parts_of(I, args[0])
    if ps is None:
        t = I.t(args[0])
        if t.op == 'seq' and ndim(t.args[4]) == 2:
            return I.arr(T('call', 'hstack2', t), dt)
        return I.arr(flat(t), dt)
    if any((ndim(p) or 0) >= 2 for p in ps):
        return I.arr(hcat(ps), dt)
    return I.arr(cat(*[tup(p) if ndim(p) == 0 else p for p in ps]), dt)


@reg('numpy.concatenate')
def np_concatenate(I, args, kw):
    ax = axis_of(I, args, kw, 1)
    if 'axis' not in kw and len(args) < 2:
        ax = 0
    dt = _dt_of_parts(I, args[0])
    ps = parts_of(I, args[0])
    if ps is None:
        t = I.t(args[0])
        return I.arr(flat(t) if ax == 0 else uf(I, 'concat', t), dt)
    if ax == 0:
        return I.arr(cat(*ps), dt)
    if ax is None:
        return I.arr(cat(*[ravel(p) for p in ps]), dt)
    return I.arr(hcat(ps), dt)


@reg('numpy.vstack', 'numpy.row_stack')
def np_vstack(I, args, kw):
    dt = _dt_of_parts(I, args[0])
    ps = parts_of(I, args[0])
    if ps is None:
        t = I.t(args[0])
        return I.arr(t, dt)
    return I.arr(cat(*[tup(p) if ndim(p) == 1 else p for p in ps]), dt)


@reg('numpy.stack')
def np_stack(I, args, kw):
    ax = axis_of(I, args, kw, 1) or 0
    t = I.t(args[0])
    return I.arr(t if ax == 0 else transpose(t), _dt_of_parts(I, args[0]))


@reg('numpy.column_stack')
def np_column_stack(I, args, kw):
    ps = parts_of(I, args[0])
    if ps is None:
        return I.arr(transpose(I.t(args[0])))
    return I.arr(hcat([seqmap(p, lambda x: tup(x)) if ndim(p) == 1 else p for p in ps]))


@reg('numpy.transpose', 'numpy.swapaxes')
def np_transpose(I, args, kw):
    return transposed(I, args[0]) if len(args) == 1 and not kw else I.arr(T('lib', 'numpy.transpose', ndim(I.t(args[0])), *[I.t(a) for a in args]))


@reg('numpy.reshape', 'method.reshape')
def np_reshape(I, *a):
    if isinstance(a[0], list):
        args, kw = a
        self_, shape = args[0], args[1:]
    else:
        self_, shape, kw = a
    t = I.t(self_)
    if 'order' in kw:
        raise AnalysisError('memory order')
    sh = shape_arg(I, shape[0]) if len(shape) == 1 else [I.t(x) for x in shape]
    d = ndim(t)
    if sh and d == 1:
        if len(sh) == 1:
            return derived(I, self_, t, 0, same, lambda x, y: y, True)
        if len(sh) == 2 and sh[0] is ONE:
            return row_of(I, self_)
        if len(sh) == 2 and sh[1] is ONE:
            return column_of(I, self_)
    if sh and len(sh) == 1 and sh[0] is num(-1):
        return shaped(I, self_, ravel(t), ravel)
    return shaped(I, self_, uf(I, 'reshape', t, *(sh or [])), lambda x: uf(I, 'reshape', x, *(sh or [])))


@reg('method.flatten')
def np_flatten(I, v, *a):
    if fortran(I, a[0], a[1]):
        return I.arr(ravel(transpose(I.t(v))), I.dtype(v))
    return I.arr(ravel(I.t(v)), I.dtype(v))


def fortran(I, args, kw):
    o = [I.t(x) for x in args] + [I.t(x) for x in kw.values()]
    if any(x.op != 'str' or x.args[0] not in ('C', 'F') for x in o):
        raise AnalysisError('memory order')
    return any(x.args[0] == 'F' for x in o)


@reg('numpy.ravel')
def np_ravel(I, args, kw):
    return np_ravel_m(I, args[0], args[1:], kw)


@reg('method.ravel')
def np_ravel_m(I, v, args, kw):
    if fortran(I, args, kw):
        return I.arr(ravel(transpose(I.t(v))), I.dtype(v))
    return shaped(I, v, ravel(I.t(v)), ravel)


@reg('numpy.atleast_1d')
def np_atleast1(I, args, kw):
    t = I.t(args[0])
    return I.arr(tup(t) if ndim(t) == 0 else t)


@reg('numpy.atleast_2d')
def np_atleast2(I, args, kw):
    t = I.t(args[0])
    return I.arr(tup(t) if ndim(t) == 1 else t)


@reg('numpy.repeat', 'method.repeat')
def np_repeat(I, *a):
    if isinstance(a[0], list):
        args, kw = a
    else:
        args, kw = [a[0]] + list(a[1]), a[2]
    x = I.t(args[0])
    r = I.t(kw.get('repeats', args[1] if len(args) > 1 else None))
    ax = axis_of(I, args, kw, 2)
    d = ndim(x)
    if ndim(r) == 0:
        def rep(e):
            return const_array([r], e)
        if d == 1 and ax in (None, 0):
            return I.arr(flat(seqmap(x, rep)))
        if d == 2 and ax == 1:
            return I.arr(seqmap(x, lambda row: flat(seqmap(row, rep))))
        if d == 2 and ax == 0:
            return I.arr(flat(seqmap(x, rep)))
    else:
        z = lambda row: flat(zipmap([row, r], lambda e, c: const_array([c], e)))
        if d == 1:
            return I.arr(z(x))
        if d == 2 and ax == 1:
            return I.arr(seqmap(x, z))
    return I.arr(uf(I, 'repeat', *args, **{k: v for k, v in kw.items()}))


@reg('numpy.tile')
def np_tile(I, args, kw):
    return I.arr(uf(I, 'tile', *args))


@reg('numpy.flip')
def np_flip(I, args, kw):
    if len(args) > 1 or kw:
        return I.arr(T('lib', 'numpy.flip', ndim(I.t(args[0])), *[I.t(a) for a in args], *[T('kw', k, I.t(x)) for k, x in kw.items()]))
    if ndim(I.t(args[0])) != 1:
        f = lambda x: seqmap(reverse(x), reverse)
        return derived(I, args[0], f(I.t(args[0])), 0, f, lambda x, y: f(y))
    return flipud(I, args[0])


@reg('numpy.flipud')
def np_flipud(I, args, kw):
    return flipud(I, args[0])


def flipud(I, v):
    return derived(I, v, reverse(I.t(v)), 0, reverse, lambda x, y: reverse(y))


@reg('numpy.fliplr')
def np_fliplr(I, args, kw):
    f = lambda x: seqmap(x, reverse)
    return derived(I, args[0], f(I.t(args[0])), 0, f, lambda x, y: f(y))


@reg('numpy.ix_')
def np_ix(I, args, kw):
    a, b = I.t(args[0]), I.t(args[1])
    return PyTuple([I.arr(seqmap(a, lambda x: tup(x))), I.arr(tup(b))])


@reg('numpy.take')
def np_take(I, args, kw):
    x, ix = I.t(args[0]), I.t(args[1])
    ax = axis_of(I, args, kw, 2)
    if ax in (None, 0) and (ndim(x) == 1 or ax == 0):
        return I.mkval(gather_any(x, ix) if ndim(ix) else idx(x, ix), I.dtype(args[0]))
    if ax == 1:
        return I.arr(seqmap(x, lambda r: gather_any(r, ix) if ndim(ix) else idx(r, ix)), I.dtype(args[0]))
    return I.arr(uf(I, 'take', *args))


@reg('numpy.diag', 'numpy.diagonal')
def np_diag(I, args, kw):
    t = I.t(args[0])
    if ndim(t) == 2:
        n = length(t)
        v = fresh('d')
        tm.RANGE[v] = (ZERO, sub(n, ONE))
        return I.arr(seq(n, v, TRUE, idx(idx(t, v), v)))
    return I.arr(uf(I, 'diag', t))


@reg('numpy.fill_diagonal')
def np_fill_diagonal(I, args, kw):
    a, val = args[0], I.t(args[1])
    t = I.t(a)
    n = length(t)
    v, w = fresh('d'), fresh('d')
    for x in (v, w):
        tm.RANGE[x] = (ZERO, sub(n, ONE))
    if isinstance(a, (Arr, View)):
        I.write_whole(a, seq(n, v, TRUE, seq(dim(t, 1), w, TRUE, ite(eq(v, w), val, idx(idx(t, v), w)))), 'filldiag')
    return NONE


def tri_indices(inside):
    def f(I, args, kw):
        n = I.t(args[0] if args else kw['n'])
        k = I.t(kw.get('k', args[1] if len(args) > 1 else 0))
        m = kw.get('m', args[2] if len(args) > 2 else NONE)
        m = n if m is NONE else I.t(m)
        r, c = fresh('r'), fresh('c')
        tm.RANGE[r], tm.RANGE[c] = (ZERO, sub(n, ONE)), (ZERO, sub(m, ONE))
        pairs = lambda b: flat(seq(n, r, TRUE, seq(m, c, inside(sub(c, r), k), b)))
        return PyTuple([I.arr(pairs(r)), I.arr(pairs(c))])
    return f


REG['numpy.triu_indices'] = tri_indices(ge)
REG['numpy.tril_indices'] = tri_indices(le)


# --- reductions
NARROW = ('int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'uint64')


def reduce_axis(name, fn):
    def f(I, args, kw):
        n = dtname(I, kw.get('dtype'))
        if n in NARROW and name in ('sum', 'prod'):
            r = f(I, args, {k: v for k, v in kw.items() if k != 'dtype'})
            t = I.t(r)
            if t.op == 'call':
                return r
            if ndim(t):
                return I.arr(t, n)
            I.emit('width', n, t, I.cur, I.fname())
            return T('lib', 'numpy.' + n, 0, t)
        t = I.t(args[0])
        if name == 'prod' and ndim(t) == 1 and not kw and len(args) == 1 and I.dtype(args[0]) not in ('object', 'float', 'bool'):
            return T('lib', 'prod64', 0, t)
        if name == 'sum' and 'where' in kw and ndim(t):
            t = ew(mul, t, I.map1(I.t(kw['where']), lambda c: ite(truth(c), ONE, ZERO)))
        if 'initial' in kw and name in ('sum', 'min', 'max'):
            k0 = {k: v for k, v in kw.items() if k not in ('initial', 'where')}
            op = {'sum': add, 'min': mn, 'max': mx}[name]
            x0 = I.t(kw['initial'])
            if ndim(t) == 1 and name != 'sum':
                return fn(cat(t, tup(x0)))
            if 'where' in kw and name != 'sum' or name != 'sum':
                return uf(I, 'reduce_' + name, *args, **kw)
            return I.mkval(ew(op, I.t(f(I, [I.arr(t)] + list(args[1:]), k0)), x0))
        if kw.get('keepdims') not in (None, FALSE, ZERO):
            return uf(I, 'reduce_' + name, *args, **kw)
        ax = axis_of(I, args, kw, 1)
        d = ndim(t)
        if ax == -1 and d:
            ax = d - 1
        if d == 0:
            return fn(tup(t)) if name in ('any', 'all', 'sum') else t
        if ax is None or d == 1:
            if d is not None and d > 1 and name not in ('any', 'all', 'sum'):
                return fn(ravel(t))
            return fn(t)
        if ax == 1 and d == 2:
            r = seqmap(t, fn)
        elif ax == 0 and d == 2:
            r = seqmap(transpose(t), fn)
        else:
            return uf(I, 'reduce_' + name, t)
        return I.arr(r, 'bool' if name in ('any', 'all') else None)
    REG['numpy.' + name] = f
    return f


reduce_axis('any', anyt)
reduce_axis('all', allt)
reduce_axis('sum', sumt)
REG['numpy.nansum'] = REG['numpy.sum']


def minall(t):
    if t.op == 'tuple' and t.args and all(ndim(a) == 0 for a in t.args):
        return mn(*t.args)
    return T('minr', t)


def maxall(t):
    if t.op == 'tuple' and t.args and all(ndim(a) == 0 for a in t.args):
        return mx(*t.args)
    return T('maxr', t)


reduce_axis('min', minall)
reduce_axis('max', maxall)
REG['numpy.amin'] = REG['numpy.min']
REG['numpy.amax'] = REG['numpy.max']
reduce_axis('argmin', lambda t: argext('argmin', t))
reduce_axis('argmax', lambda t: argext('argmax', t))


def argext(op, t):
    return T(op, t)


def prodt(t):
    if t.op == 'tuple':
        r = ONE
        for a in t.args:
            r = mul(r, a)
        return r
    return T('prod', t)


reduce_axis('prod', prodt)


def countnz(t):
    return sumt(seqmap(t, lambda x: countnz(x) if ndim(x) else nz01(x)))


def nz01(x):
    c = truth(x)
    return c if isbool(c) else ite(c, ONE, ZERO)


def count_nz1(t):
    n = length(t)
    v = fresh('n')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    if t.op == 'seq':
        n, v, g, k, b = open_seq(t)
        return sum_over(n, v, andt(g, truth(b)), ONE, k)
    return sum_over(n, v, truth(idx(t, v)), ONE)


def _cnz(t):
    if ndim(t) == 2:
        return sumt(seqmap(t, count_nz1))
    return count_nz1(t)


reduce_axis('count_nonzero', _cnz)
REG['numpy.argsort'] = lambda I, a, k: I.arr(T('argsort', I.t(a[0])), 'int64')
REG['numpy.sort'] = lambda I, a, k: I.arr(T('sorted', I.t(a[0])), I.dtype(a[0]))
REG['numpy.cumsum'] = lambda I, a, k: I.arr(T('cumsum', I.t(a[0])), I.dtype(a[0]))
REG['numpy.trace'] = lambda I, a, k: trace(I.t(a[0]))


def trace(t):
    n = length(t)
    v = fresh('d')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return sum_over(n, v, TRUE, idx(idx(t, v), v))


@reg('numpy.diff', 'numpy.ediff1d')
def np_diff(I, args, kw):
    t = I.t(args[0])
    if 'prepend' in kw or 'append' in kw:
        parts = []
        if 'prepend' in kw:
            p = I.t(kw['prepend'])
            parts.append(p if ndim(p) else tup(p))
        parts.append(t)
        if 'append' in kw:
            p = I.t(kw['append'])
            parts.append(p if ndim(p) else tup(p))
        t = cat(*parts)
    ax = axis_of(I, args, kw, 2)
    d = ndim(t)
    if d is None or not (args[1:] == [] or I.t(args[1]) is ONE) or d > 1 and ax not in (None, -1, 0, 1) or I.dtype(args[0]) == 'bool':
        return uf(I, 'diff', *args, **kw)
    if d == 2 and ax in (None, -1, 1):
        return I.arr(seqmap(t, diff1), I.dtype(args[0]))
    return I.arr(diff1(t), I.dtype(args[0]))


def diff1(t):
    n = length(t)
    m = sub(n, ONE)
    v = fresh('f')
    tm.RANGE[v] = (ZERO, sub(m, ONE))
    if (ndim(t) or 0) > 1:
        return seq(m, v, TRUE, ew(sub, idx(t, add(v, ONE)), idx(t, v)))
    return seq(m, v, TRUE, sub(idx(t, add(v, ONE)), idx(t, v)))


@reg('numpy.where', 'numpy.nonzero', 'numpy.argwhere', 'numpy.flatnonzero')
def np_where(I, args, kw):
    return PyTuple([])


def nz_pair(I, t):
    m = seqmap(t, lambda r: seqmap(r, truth)) if ndim(t) == 2 else t
    return PyTuple([I.arr(T('nz0', m), 'int64'), I.arr(T('nz1', m), 'int64')])


@reg('numpy.where')
def np_where1(I, args, kw):
    c = I.t(args[0])
    if len(args) >= 3:
        x, y = I.t(args[1]), I.t(args[2])
        d = ndim(c)
        f = lambda cc, a, b: ite(truth(cc), a, b)

        def go(cc, a, b):
            k = max(ndim(cc) or 0, ndim(a) or 0, ndim(b) or 0)
            if k == 0:
                return f(cc, a, b)
            seqs = [(ndim(z) or 0) == k for z in (cc, a, b)]
            tz = [z for z, s in zip((cc, a, b), seqs) if s]

            def h(*es):
                es = list(es)
                full = [es.pop(0) if s else z for z, s in zip((cc, a, b), seqs)]
                return go(*full)
            return zipmap(tz, h)
        r = go(c, x, y)
        return I.mkval(r, I.join_dtype(args[1], args[2]))
    return np_nonzero(I, args, kw)


@reg('numpy.nonzero')
def np_nonzero(I, args, kw):
    t = I.t(args[0])
    d = ndim(t)
    if d == 2:
        return nz_pair(I, t)
    return PyTuple([I.arr(where1(t), 'int64')])


@reg('numpy.flatnonzero')
def np_flatnonzero(I, args, kw):
    t = I.t(args[0])
    if ndim(t) in (1, None):
        return I.arr(where1(t), 'int64')
    return I.arr(uf(I, 'flatnonzero', t))


@reg('numpy.argwhere')
def np_argwhere(I, args, kw):
    t = I.t(args[0])
    if ndim(t) == 2:
        p = nz_pair(I, t)
        return I.arr(zipmap([I.t(x) for x in p.items], lambda r, c: tup(r, c)))
    return I.arr(seqmap(where1(t), lambda x: tup(x)))


@reg('numpy.array_equal', 'numpy.array_equiv')
def np_array_equal(I, args, kw):
    x, y = I.t(args[0]), I.t(args[1])
    if ndim(x) != ndim(y):
        return uf(I, 'array_equal', *args)
    return array_equal(x, y)


def array_equal(x, y):
    if x is y:
        return TRUE
    if x.op == 'tuple' and y.op == 'tuple':
        if len(x.args) != len(y.args):
            return FALSE
        return andt(*[array_equal(a, b) if (ndim(a) or ndim(b)) else eq(a, b) for a, b in zip(x.args, y.args)])
    return T('bool', 'array_equal', *sorted([x, y]))


@reg('numpy.allclose')
def np_allclose(I, args, kw):
    x, y = I.t(args[0]), I.t(args[1])
    if ndim(x) != ndim(y):
        return uf(I, 'allclose', *args)
    return array_equal(x, y)


@reg('numpy.isclose')
def np_isclose(I, args, kw):
    x, y = I.t(args[0]), I.t(args[1])
    if ndim(x) or ndim(y):
        return uf(I, 'isclose', *args)
    return array_equal(x, y)


@reg('numpy.dot', 'numpy.matmul')
def np_dot(I, args, kw):
    a, b = I.t(args[0]), I.t(args[1])
    if ndim(a) == 0 or ndim(b) == 0:
        return I.mkval(ew(mul, a, b))
    return I.mkval(matmul(a, b), I.join_dtype(args[0], args[1]))


@reg('numpy.outer')
def np_outer(I, args, kw):
    a, b = I.t(args[0]), I.t(args[1])
    return I.arr(seqmap(a, lambda x: seqmap(b, lambda y: mul(x, y))))


def ufunc2(name, f, dt=None):
    def g(I, args, kw):
        r = ew(f, I.t(args[0]), I.t(args[1]))
        out = I.mkval(r, dt or I.join_dtype(args[0], args[1]))
        o = kw.get('out', args[2] if len(args) > 2 else None)
        if isinstance(o, PyTuple):
            o = o.items[0]
        if isinstance(o, (Arr, View)):
            I.write_whole(o, r, 'out')
            return o
        return out
    REG['numpy.' + name] = g


ufunc2('minimum', mn)
ufunc2('maximum', mx)
ufunc2('add', add)
ufunc2('subtract', sub)
ufunc2('multiply', mul)
ufunc2('equal', eq, 'bool')
ufunc2('not_equal', lambda a, b: nott(eq(a, b)), 'bool')
ufunc2('less', lt, 'bool')
ufunc2('less_equal', le, 'bool')
ufunc2('greater', gt, 'bool')
ufunc2('greater_equal', ge, 'bool')
ufunc2('logical_and', lambda a, b: andt(truth(a), truth(b)), 'bool')
ufunc2('logical_or', lambda a, b: ort(truth(a), truth(b)), 'bool')
ufunc2('floor_divide', floordiv)
ufunc2('mod', mod)
ufunc2('remainder', mod)
ufunc2('power', power)


@reg('numpy.left_shift')
def np_lshift(I, args, kw):
    return I.binop(ast.LShift(), args[0], args[1])


def ufunc1(name, f, dt=0):
    def g(I, args, kw):
        r = I.map1(I.t(args[0]), f)
        return I.mkval(r, I.dtype(args[0]) if dt == 0 else dt)
    REG['numpy.' + name] = g


ufunc1('sqrt', sqrt)
ufunc1('abs', lambda x: absval(x))
ufunc1('absolute', lambda x: absval(x))
ufunc1('negative', neg)
ufunc1('square', lambda x: mul(x, x))
ufunc1('logical_not', lambda x: nott(truth(x)), 'bool')
ufunc1('round', lambda x: rnd(x))
ufunc1('rint', lambda x: rnd(x))
ufunc1('around', lambda x: rnd(x))
ufunc1('floor', lambda x: floor_(x))
ufunc1('sign', lambda x: T('sign', x))


def absval(x):
    if nonneg(x):
        return x
    if x.op == 'num':
        return num(abs(x.args[0]))
    if nonneg(neg(x)):
        return neg(x)
    return mx(x, neg(x))


def rnd(x):
    return x if is_int_term(x) else T('round', x)


def toint(x):
    if is_int_term(x):
        return x
    if x.op == 'num':
        return num(int(x.args[0]))
    return T('int', x)


tm._MK['round'] = rnd
tm._MK['int'] = toint


@reg('numpy.minimum.at')
def np_min_at(I, args, kw):
    a, ix, val = args
    t, it, vt = I.t(a), I.t(ix), I.t(val)
    if ndim(vt) == 0:
        ws = seqmap(it, lambda i: tup(i, vt)) if ndim(it) else tup(tup(it, vt))
    else:
        ws = zipmap([it, vt], lambda i, x: tup(i, x))
    I.write_whole(a, T('meet', t, ws), 'minat')
    return NONE


@reg('numpy.add.at')
def np_add_at(I, args, kw):
    a, ix, val = args
    t, it, vt = I.t(a), I.t(ix), I.t(val)
    if ndim(vt) == 0:
        ws = seqmap(it, lambda i: tup(i, vt)) if ndim(it) else tup(tup(it, vt))
    else:
        ws = zipmap([it, vt], lambda i, x: tup(i, x))
    I.write_whole(a, T('scatadd', t, ws), 'addat')
    return NONE


@reg('numpy.add.reduce')
def np_add_reduce(I, args, kw):
    return REG['numpy.sum'](I, args, kw)


@reg('numpy.minimum.reduce')
def np_min_reduce(I, args, kw):
    return REG['numpy.min'](I, args, kw)


@reg('numpy.vectorize')
def np_vectorize(I, args, kw):
    return Builtin('vectorized', args[0])


@reg('vectorized')
def np_vectorized(I, self_, args, kw):
    t = I.t(args[0])
    if len(args) == 1:
        return I.mkval(I.map1(t, lambda x: I.t(I.call(self_, [x], {}))))
    ts = [I.t(a) for a in args]
    return I.mkval(ew(lambda x, y: I.t(I.call(self_, [x, y], {})), ts[0], ts[1]))


REG['numpy.unique'] = lambda I, a, k: uf(I, 'unique', *a, **k)
REG['numpy.lexsort'] = lambda I, a, k: uf(I, 'lexsort', *a, **k)
REG['numpy.set_printoptions'] = lambda I, a, k: (I.emit('extcall', 'numpy.set_printoptions', list(a), I.cur, I.fname(), dict(k.items())), NONE)[1]
REG['numpy.printoptions'] = REG['numpy.set_printoptions']


@reg('numpy.clip', 'method.clip')
def np_clip(I, *a):
    if isinstance(a[0], list):
        args, kw = a
    else:
        args, kw = [a[0]] + list(a[1]), a[2]
    ts = [I.t(x) for x in args]
    r = ts[0]
    if len(ts) > 1 and ts[1] is not NONE:
        r = ew(mx, r, ts[1])
    if len(ts) > 2 and ts[2] is not NONE:
        r = ew(mn, r, ts[2])
    return I.mkval(r, I.dtype(args[0]))


@reg('numpy.isin', 'numpy.in1d')
def np_isin(I, args, kw):
    s = I.t(args[1])
    r = I.map1(I.t(args[0]), lambda x: member(x, s))
    if 'invert' in kw and I.t(kw['invert']) is TRUE:
        r = I.map1(r, nott)
    return I.mkval(r, 'bool')


@reg('numpy.setdiff1d')
def np_setdiff(I, args, kw):
    s = I.t(args[1])
    x = I.t(args[0])
    if x.op == 'seq':
        n, v, g, k, b = open_seq(x)
        return I.arr(seq(n, v, andt(g, nott(member(b, s))), b, k))
    return I.arr(uf(I, 'setdiff1d', *args))


@reg('numpy.compress')
def np_compress(I, args, kw):
    m, x = I.t(args[0]), I.t(args[1])
    ax = axis_of(I, args, kw, 2)
    if ax == 1:
        return I.arr(seqmap(x, lambda r: select(r, m)), I.dtype(args[1]))
    return I.arr(select(x, m), I.dtype(args[1]))


@reg('numpy.ndindex')
def np_ndindex(I, args, kw):
    return IterV(uf(I, 'ndindex', *args))


@reg('numpy.iinfo')
def np_iinfo(I, args, kw):
    return uf(I, 'iinfo', *args)


# ---------------------------------------------------------------- python builtins
@reg('len')
def b_len(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        c = I.heap[v.loc]
        if 'ntfields' in c.meta:
            return num(len(c.meta['ntfields']))
        m = c.meta['cls'].lookup('__len__')
        if m is not None:
            return I.call(Bound(m, v), [], {})
    vals = I.as_values(v)
    if vals is not None:
        return num(len(vals))
    if isinstance(v, Dct):
        t = I.t(v)
        if t.op == 'dictlit':
            return num(len(t.args[0]))
        if t.op == 'set':
            return T('count', t)
        return T('count', t)
    if isinstance(v, Term):
        o = I.obj_of_term(v)
        if o is not None:
            return b_len(I, [o], kw)
        if v.op == 'str':
            return num(len(v.args[0]))
    return length(I.t(v))


@reg('range')
def b_range(I, args, kw):
    ts = [I.t(a) for a in args]
    lo, hi, st = (ZERO, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else ONE)
    t = arange(lo, hi, st)
    I.ranges[t] = (lo, hi, st)
    I.emit('range', lo, hi, st, I.cur, I.fname())
    return IterV(t)


def elems(I, v):
    """iteration over v as (values or None, term)"""
    vals = I.as_values(v)
    if isinstance(v, Dct):
        d = I.heap[v.loc].data
        if isinstance(d, dict):
            return list(d.keys()), None
        t = I.t(v)
        return None, (t if t.op == 'set' else T('keys', t))
    if vals is not None:
        return vals, None
    t = I.t(v)
    if t.op in ('fstr', 'tostr') or t.op == 'lib' and ndim(t) in (0, None) and t.args[0].split(':')[0] in pyl().TEXT:
        t = T('lib', 'chars', 1, t)
    return None, t


@reg('zip')
def b_zip(I, args, kw):
    if len(args) == 1 and isinstance(args[0], Spread):
        x = args[0].term
        if x.op == 'seq' and x.args[4].op == 'tuple':
            n, v, g, k, b = open_seq(x)
            return IterV(None, [seq(n, v, g, e, k) for e in b.args])
        if x.op == 'tuple' and x.args and all(a.op == 'tuple' for a in x.args):
            m = min(len(a.args) for a in x.args)
            return IterV(None, [tup(*[a.args[j] for a in x.args]) for j in range(m)])
        if ndim(x) == 2:
            return IterV(transpose(x))
        return IterV(T('unzip', x))
    vals = [elems(I, a) if not isinstance(a, Spread) else (None, a.term) for a in args]
    if all(v is not None for v, t in vals):
        return IterV(None, [PyTuple(list(x)) for x in zip(*[v for v, t in vals])])
    ts = [t if t is not None else tup(*[I.t(x) for x in v]) for v, t in vals]
    return IterV(zipmap(ts, lambda *es: tup(*es), short=True))


@reg('enumerate')
def b_enumerate(I, args, kw):
    start = I.t(kw.get('start', args[1] if len(args) > 1 else 0))
    vals, t = elems(I, args[0])
    if vals is not None:
        return IterV(None, [PyTuple([add(start, num(i)), x]) for i, x in enumerate(vals)])
    if t.op == 'seq' and (t.args[2] is not TRUE or t.args[3] is not FALSE):
        n = length(t)
        v = fresh('n')
        tm.RANGE[v] = (ZERO, sub(n, ONE))
        return IterV(seq(n, v, TRUE, tup(add(start, v), T('idx', t, v))))
    n = length(t)
    v = fresh('n')
    tm.RANGE[v] = (ZERO, sub(n, ONE))
    return IterV(seq(n, v, TRUE, tup(add(start, v), idx(t, v))))


def run_map(I, fn, it, pred=None):
    """list of fn(elem) over it (a python-level loop summary)"""
    vals, t = elems(I, it)
    if vals is not None and len(vals) <= 40:
        out = []
        for x in vals:
            if pred is not None and not I.choose(I.truth(pred(x))):
                continue
            out.append(fn(x))
        return I.lst(out)
    out = I.lst([])
    base = it if isinstance(it, (Arr, View)) else None
    n, var, guard, brk, elem = I.iterate_term(t, base)

    def body():
        if pred is not None and not I.choose(I.truth(pred(elem))):
            return
        I.list_append(out, fn(elem))
    I.loop(I.cur, n, var, guard, brk, body, ())
    return out


@reg('map')
def b_map(I, args, kw):
    f = args[0]
    if len(args) == 2:
        r = run_map(I, lambda x: I.call(f, [x], {}), args[1])
    else:
        z = b_zip(I, args[1:], {})
        def go(x):
            vs = I.as_values(x)
            if vs is None:
                vs = [I.from_term(idx(I.t(x), num(i))) for i in range(len(args) - 1)]
            return I.call(f, vs, {})
        r = run_map(I, go, z)
    vals = I.as_values(r)
    return IterV(None, vals) if vals is not None else IterV(I.t(r))


@reg('filter', 'itertools.filterfalse')
def b_filter(I, args, kw):
    f = args[0]
    r = run_map(I, lambda x: x, args[1], (lambda x: x) if f is NONE else (lambda x: I.call(f, [x], {})))
    vals = I.as_values(r)
    return IterV(None, vals) if vals is not None else IterV(I.t(r))


@reg('itertools.starmap')
def b_starmap(I, args, kw):
    f = args[0]

    def go(x):
        vs = I.as_values(x)
        if vs is None:
            return I.call(f, [Spread(I.t(x))], {})
        return I.call(f, vs, {})
    return IterV(I.t(run_map(I, go, args[1])))


@reg('list')
def b_list(I, args, kw):
    if not args:
        return I.lst([])
    vals, t = elems(I, args[0])
    return I.lst(vals) if vals is not None else I.lst_term(t)


@reg('tuple')
def b_tuple(I, args, kw):
    if not args:
        return PyTuple([])
    vals, t = elems(I, args[0])
    return PyTuple(vals) if vals is not None else I.lst_term(t)


@reg('set', 'frozenset')
def b_set(I, args, kw):
    if not args:
        return Dct(I.alloc('set', T('set', tup())))
    vals, t = elems(I, args[0])
    if vals is not None:
        t = tup(*[I.t(x) for x in vals])
    if t.op == 'set':
        return Dct(I.alloc('set', t))
    return Dct(I.alloc('set', T('set', t)))


@reg('dict')
def b_dict(I, args, kw):
    if not args:
        return Dct(I.alloc('dict', {STR(k): v for k, v in kw.items()}))
    v = args[0]
    if isinstance(v, Dct):
        c = I.heap[v.loc]
        return Dct(I.alloc('dict', dict(c.data) if isinstance(c.data, dict) else c.data))
    vals, t = elems(I, v)
    if vals is not None:
        d = {}
        ok = True
        for x in vals:
            p = I.as_values(x)
            if p is None or len(p) != 2:
                ok = False
                break
            d[I.hashkey(p[0])] = p[1]
        if ok:
            return Dct(I.alloc('dict', d))
        t = tup(*[I.t(x) for x in vals])
    return Dct(I.alloc('dict', T('dict', t)))


@reg('sorted')
def b_sorted(I, args, kw):
    t = I.t(args[0]) if not isinstance(args[0], Dct) else elems(I, args[0])[1]
    if t is None:
        t = I.t(args[0])
    key = kw.get('key')
    rev = kw.get('reverse')
    rv = I.t(rev) if rev is not None else FALSE
    if key is None or key is NONE:
        if rv is FALSE:
            return I.lst_term(T('sorted', t))
        return I.lst_term(T('sortedrev', t))
    I.emit('sortkey', key, t, rv, I.cur, I.fname())
    return I.lst_term(T('sortedby', t, key_term(I, key), rv))


def key_term(I, key):
    if isinstance(key, CmpKey):
        return T('cmpkey', I.t(key.f))
    return I.t(key)


class CmpKey:
    def __init__(self, f):
        self.f = f


@reg('functools.cmp_to_key')
def b_cmp_to_key(I, args, kw):
    return CmpKey(args[0])


@reg('reversed')
def b_reversed(I, args, kw):
    vals, t = elems(I, args[0])
    if vals is not None:
        return IterV(None, list(reversed(vals)))
    return IterV(reverse(t))


@reg('iter')
def b_iter(I, args, kw):
    v = args[0]
    if isinstance(v, (IterV, GenV)):
        return v
    vals, t = elems(I, v)
    return IterV(None, list(vals)) if vals is not None else IterV(t)


@reg('next')
def b_next(I, args, kw):
    v = v0 = args[0]
    if isinstance(v, GenV):
        v = I.force(v)
        if isinstance(v, Lst):
            vals = I.as_values(v)
            v = IterV(None, vals) if vals is not None else IterV(I.t(v))
    if isinstance(v, IterV):
        vals = I.as_values(v)
        if vals is not None:
            if vals:
                I.advance(v0, IterV(None, vals[1:]))
                return vals[0]
            if len(args) > 1:
                return args[1]
            raise AbsRaise('StopIteration', I.cur, I.fname())
        t = v.term
        if t.op == 'unzip':
            k = getattr(v, 'pos', 0)
            w = IterV(t)
            w.pos = k + 1
            I.advance(v0, w)
            return I.from_term(idx(t, num(k)))
        n = length(t)
        if not I.choose(ge(n, ONE)):
            if len(args) > 1:
                return args[1]
            raise AbsRaise('StopIteration', I.cur, I.fname())
        r = I.from_term(T('first', t) if t.op == 'seq' and t.args[2] is not TRUE else idx(t, ZERO))
        I.advance(v0, IterV(slice_(t, ONE, n) if dims(t) else T('rest', t)))
        return r
    t = I.t(v)
    if isinstance(t, Term) and t.op == 'idx' and any(x.op == 'lib' and x.args[0] == 'groupby' for x in subterms_(t)) and read_once(I):
        return I.from_term(T('lib', 'head', None, t))
    return T('call', 'next', t)


def subterms_(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, Term) and id(x) not in seen:
            seen.add(id(x))
            yield x
            todo += x.args


def read_once(I):
    """every name given to next() in the function at work is read nowhere else"""
    fn = I.frame
    while fn is not None and fn.fn is None:
        fn = fn.parent
    node = getattr(getattr(fn, 'fn', None), 'node', None)
    if node is None:
        return False
    names = [x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
    ns = [x.args[0] for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'next' and x.args]
    return bool(ns) and all(isinstance(a, ast.Name) and names.count(a.id) == 1 for a in ns)


@reg('sum')
def b_sum(I, args, kw):
    v = args[0]
    vals, t = elems(I, v)
    start = kw.get('start', args[1] if len(args) > 1 else None)
    if start is not None and isinstance(start, (Lst, PyTuple)):
        if vals is not None:
            return I.lst_term(cat(I.t(start), *[I.t(x) for x in vals]))
        return I.lst_term(cat(I.t(start), flat(t)))
    if vals is not None:
        if any(arrlike(I, x) for x in vals):
            r = ZERO
            for x in vals:
                r = ew(add, r, I.t(x))
            return I.mkval(r, I.dtype(vals[0]))
        t = tup(*[I.t(x) for x in vals])
    s0 = I.t(start) if start is not None else ZERO
    if ndim(t) == 2:
        r = seqmap(transpose(t), sumt)
        return I.mkval(ew(add, r, s0))
    return add(sumt(t), s0)


def mmfun(name, f, red):
    def g(I, args, kw):
        if len(args) == 1:
            vals, t = elems(I, args[0])
            if 'key' in kw:
                return uf(I, name + 'key', args[0])
            if vals is not None and vals:
                return f(*[I.t(x) for x in vals])
            if vals is not None:
                if 'default' in kw:
                    return kw['default']
                raise AbsRaise('ValueError', I.cur, I.fname())
            r = red(t)
            if 'default' in kw:
                return ite(ge(length(t), ONE), r, I.t(kw['default']))
            return r
        return f(*[I.t(a) for a in args])
    REG[name] = g


mmfun('min', mn, minall)
mmfun('max', mx, maxall)


@reg('any')
def b_any(I, args, kw):
    vals, t = elems(I, args[0])
    if vals is not None:
        return ort(*[I.truth(x) for x in vals])
    return anyt(t)


@reg('all')
def b_all(I, args, kw):
    vals, t = elems(I, args[0])
    if vals is not None:
        return andt(*[I.truth(x) for x in vals])
    return allt(t)


@reg('abs')
def b_abs(I, args, kw):
    return I.mkval(I.map1(I.t(args[0]), absval))


@reg('int', 'operator.index')
def b_int(I, args, kw):
    if not args:
        return ZERO
    t = I.t(args[0])
    if t.op == 'str':
        try:
            return num(int(t.args[0]))
        except ValueError:
            raise AbsRaise('ValueError', I.cur, I.fname())
    if t.op in ('idx', 'strsym', 'call') and any(a.op == 'strsym' for a in atoms(t)):
        if t.op == 'strsym' and I.argv is not None and not I.choose(T('bool', 'isint', t)):
            raise AbsRaise('ValueError', I.cur, I.fname())
        return T('intof', t)
    if t.op == 'idx' and textual(t.args[0]) or t.op == 'lib' and t.args[0].split(':')[0] in pyl().TEXT:
        return T('lib', 'intof', 0, t)
    return toint(t)


def textual(t):
    return t.op == 'lib' and (t.args[0] == 'chars' or t.args[0].split(':')[0] in pyl().TEXT | {'str.split', 'str.rsplit', 'str.splitlines'})




def tofloat(I, a, k):
    if not a:
        return ZERO
    t = I.t(a[0])
    if isinstance(a[0], Term) and t.op == 'str':
        return T('float', t.args[0])
    return t if t.op in ('num', 'tofloat', 'sqrt', 'float') or ndim(t) else T('tofloat', t)


def strof(how):
    def f(I, a, k):
        if not a:
            return STR('')
        v = a[0]
        if isinstance(v, Term) and not ndim(v) and not I.is_array(v):
            p = I.part_proto(v)
            v = (I.obj_of_term(v) if p is not None else None) or v
        if isinstance(v, Obj):
            cls = I.heap[v.loc].meta.get('cls')
            for n in (('__str__', '__repr__') if how == 'str' else ('__repr__',)):
                m = cls.lookup(n) if isinstance(cls, ClassV) else None
                if isinstance(m, Func):
                    return I.call(m, [v], {})
        if I.is_array(v):
            return T('arrstr', I.t(v))
        t = I.t(v)
        if how == 'str':
            return I.to_str(t)
        return T('tostr', t) if t.op != 'num' else STR(str(t.args[0]))
    return f


REG['float'] = tofloat


def scalar_type(n):
    def f(I, a, k):
        if not a:
            return ZERO
        t = I.t(a[0])
        if I.is_array(a[0]) or ndim(t):
            return I.arr(seqmap(t, lambda x: x) if isinstance(a[0], (Lst, PyTuple)) else t, n)
        if n in ('float64', 'double', 'longdouble'):
            return tofloat(I, a, k)
        if n.startswith('float'):
            I.emit('width', n, t, I.cur, I.fname())
            return T('lib', 'numpy.' + n, 0, t)
        x = toint(t)
        if n in ('int64', 'intp', 'int_', 'longlong'):
            return I.mkval(x, 'int64')
        I.emit('width', n, x, I.cur, I.fname())
        return T('lib', 'numpy.' + n, 0, x)
    return f


for _n in ('int8', 'int16', 'int32', 'int64', 'intp', 'int_', 'longlong', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'double'):
    REG['numpy.' + _n] = scalar_type(_n)
REG['bool'] = lambda I, a, k: I.truth(a[0]) if a else FALSE
REG['str'] = strof('str')
REG['repr'] = strof('repr')
REG['round'] = lambda I, a, k: rnd(I.t(a[0])) if len(a) == 1 else T('call', 'round', *[I.t(x) for x in a])
REG['math.sqrt'] = lambda I, a, k: sqrt(I.t(a[0]))
REG['math.isqrt'] = lambda I, a, k: T('int', sqrt(I.t(a[0])))
REG['math.prod'] = lambda I, a, k: prodt(tup(*[I.t(x) for x in elems(I, a[0])[0]]) if elems(I, a[0])[0] is not None else elems(I, a[0])[1])
REG['math.floor'] = lambda I, a, k: floor_(I.t(a[0]))
REG['math.pow'] = lambda I, a, k: power(I.t(a[0]), I.t(a[1]))
REG['pow'] = lambda I, a, k: power(I.t(a[0]), I.t(a[1])) if len(a) == 2 else uf(I, 'pow3', *a)
REG['divmod'] = lambda I, a, k: PyTuple([floordiv(I.t(a[0]), I.t(a[1])), mod(I.t(a[0]), I.t(a[1]))])
REG['id'] = lambda I, a, k: (I.emit('nondet', 'id', I.cur, I.fname()), T('call', 'id', I.t(a[0])))[1]
REG['hash'] = lambda I, a, k: (I.emit('nondet', 'hash', I.cur, I.fname()), T('call', 'hash', I.t(a[0])))[1]
REG['callable'] = lambda I, a, k: boolt(isinstance(a[0], (Func, Bound, Builtin, ClassV, PartialV)))


@reg('isinstance')
def b_isinstance(I, args, kw):
    v, c = args
    cs = c.items if isinstance(c, PyTuple) else [c]
    if isinstance(v, Obj):
        names = I.heap[v.loc].meta['cls'].mro_names()
        return boolt(any(isinstance(x, ClassV) and x.name in names for x in cs))
    names = [getattr(x, 'name', '') for x in cs]
    tn = None
    if isinstance(v, (Arr, View)):
        tn = 'numpy.ndarray'
    elif isinstance(v, Lst):
        tn = 'list'
    elif isinstance(v, PyTuple):
        tn = 'tuple'
    elif isinstance(v, Dct):
        tn = I.heap[v.loc].kind
    elif isinstance(v, Term) and v.op == 'str':
        tn = 'str'
    elif isinstance(v, Term) and v.op == 'num':
        tn = 'int'
    if tn is not None:
        return boolt(tn in names)
    return T('bool', 'isinstance', I.t(v), *[STR(n) for n in names])


@reg('hasattr')
def b_hasattr(I, args, kw):
    v, n = args
    nt = I.t(n)
    if isinstance(v, Obj) and nt.op == 'str':
        c = I.heap[v.loc]
        return boolt(nt.args[0] in c.data or c.meta['cls'].lookup(nt.args[0]) is not None)
    return T('bool', 'hasattr', I.t(v), nt)


@reg('getattr')
def b_getattr(I, args, kw):
    n = I.t(args[1])
    if n.op == 'str':
        try:
            return I.getattr(args[0], n.args[0])
        except AbsRaise:
            if len(args) > 2:
                return args[2]
            raise
    return T('call', 'getattr', I.t(args[0]), n)


@reg('setattr')
def b_setattr(I, args, kw):
    n = I.t(args[1])
    if n.op == 'str':
        I.setattr(args[0], n.args[0], args[2])
    else:
        I.emit('setunknown', 'setattr', I.cur, I.fname())
    return NONE


@reg('type')
def b_type(I, args, kw):
    if isinstance(args[0], Obj):
        return I.heap[args[0].loc].meta['cls']
    return T('call', 'type', I.t(args[0]))


@reg('super')
def b_super(I, args, kw):
    f = I.frame
    while f is not None and f.fn is None:
        f = f.parent
    cls = f.fn.cls
    self_ = next(iter(f.vars.values()))
    base = [b for b in cls.bases if isinstance(b, ClassV)]
    if base:
        return SuperV(base[0], self_)
    return opaque('super')


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


@reg('print')
def b_print(I, args, kw):
    I.emit('extcall', 'print', list(args), I.cur, I.fname(), kw)
    I.printed(args, 'print')
    return NONE


@reg('slice')
def b_slice(I, args, kw):
    a = list(args) + [None] * 3
    if len(args) == 1:
        return SliceV(None, args[0], None)
    return SliceV(*[None if x is NONE else x for x in a[:3]])


@reg('open')
def b_open(I, args, kw):
    I.emit('extcall', 'open', list(args), I.cur, I.fname(), kw)
    return T('call', 'open', *[I.t(a) for a in args])


@reg('sys.exit', 'exit', 'quit')
def b_exit(I, args, kw):
    I.emit('extcall', 'sys.exit', list(args), I.cur, I.fname(), kw)
    raise AbsRaise('SystemExit', I.cur, I.fname())


# --- functools / itertools / collections / heapq
@reg('functools.partial')
def f_partial(I, args, kw):
    return PartialV(args[0], list(args[1:]), dict(kw))


@reg('functools.wraps')
def f_wraps(I, args, kw):
    return Builtin('identity1')


@reg('functools.lru_cache', 'functools.cache')
def f_lru(I, args, kw):
    if args and isinstance(args[0], (Func, Bound)):
        I.emit('memo', args[0], I.cur)
        return args[0]
    return Builtin('functools.lru_cache')


@reg('identity1', 'contextlib.contextmanager', 'dataclasses.dataclass', 'typing.cast')
def f_identity(I, args, kw):
    return args[-1] if args else Builtin('identity1')


@reg('functools.reduce')
def f_reduce(I, args, kw):
    f, it = args[0], args[1]
    vals, t = elems(I, it)
    if vals is not None and len(vals) <= 40:
        if len(args) > 2:
            acc = args[2]
        else:
            acc, vals = vals[0], vals[1:]
        for x in vals:
            acc = I.call(f, [acc, x], {})
        return acc
    if len(args) < 3:
        acc = I.from_term(idx(t, ZERO))
        t = slice_(t, ONE, length(t))
    else:
        acc = args[2]
    if isinstance(acc, Lst):
        acc = I.lst(I.as_values(acc)) if I.as_values(acc) is not None else I.lst_term(I.t(acc))
    n, var, guard, brk, elem = I.iterate_term(t, None)
    key = '__acc%d' % I.depth
    I.frame.vars[key] = acc

    def body():
        I.frame.vars[key] = I.call(f, [I.frame.vars[key], elem], {})
    I.loop(I.cur, n, var, guard, brk, body, ())
    return I.frame.vars.pop(key, opaque('acc'))


@reg('itertools.chain', 'itertools.chain.from_iterable')
def i_chain(I, args, kw):
    return IterV(T('x'))


def i_chain1(I, args, kw):
    parts = []
    for a in args:
        if isinstance(a, Spread):
            parts.append(flat(a.term))
        else:
            vals, t = elems(I, a)
            parts.append(t if t is not None else tup(*[I.t(x) for x in vals]))
    return IterV(cat(*parts))


def i_chain2(I, args, kw):
    vals, t = elems(I, args[0])
    if vals is not None:
        return i_chain1(I, vals, {})
    return IterV(flat(t))


REG['itertools.chain'] = i_chain1
REG['itertools.chain.from_iterable'] = i_chain2


@reg('itertools.product')
def i_product(I, args, kw):
    if len(args) == 2:
        a, b = (elems(I, x) for x in args)
        ta = a[1] if a[1] is not None else tup(*[I.t(x) for x in a[0]])
        tb = b[1] if b[1] is not None else tup(*[I.t(x) for x in b[0]])
        return IterV(flat(seqmap(ta, lambda x: seqmap(tb, lambda y: tup(x, y)))))
    return IterV(uf(I, 'product', *args))


@reg('itertools.combinations')
def i_comb(I, args, kw):
    return IterV(uf(I, 'combinations', *args))


@reg('itertools.takewhile')
def i_takewhile(I, args, kw):
    f = args[0]
    t = I.t(args[1])
    n, v, g, k, e = I.iterate_term(t)
    c = I.truth(I.call(f, [e], {}))
    return IterV(seq(n, v, g, I.t(e), ort(k, nott(c))))


@reg('itertools.count')
def i_count(I, args, kw):
    return IterV(uf(I, 'count', *args))


@reg('collections.defaultdict')
def c_defaultdict(I, args, kw):
    return Dct(I.alloc('dict', {}, default=args[0] if args else None))


@reg('collections.deque')
def c_deque(I, args, kw):
    return b_list(I, args, {})


@reg('collections.OrderedDict')
def c_od(I, args, kw):
    return b_dict(I, args, kw)


@reg('collections.Counter')
def c_counter(I, args, kw):
    return Dct(I.alloc('dict', uf(I, 'Counter', *args)))


@reg('collections.namedtuple', 'typing.NamedTuple')
def c_namedtuple(I, args, kw):
    n = I.t(args[0])
    f = args[1]
    ft = I.t(f)
    if ft.op == 'str':
        fields = ft.args[0].replace(',', ' ').split()
    else:
        fields = [x.args[0] if x.op == 'str' else x.args[0].args[0] for x in ft.args]
    c = ClassV(n.args[0], [], {}, I.frame.module)
    c.fields = fields
    d = kw.get('defaults')
    if d is not None:
        vs = I.as_values(d) or []
        for name, v in zip(fields[len(fields) - len(vs):], vs):
            c.ns[name] = v
    return c


@reg('nt._replace')
def nt_replace(I, self_, args, kw):
    c = I.heap[self_.loc]
    d = dict(c.data)
    d.update(kw)
    return Obj(I.alloc('inst', d, **c.meta))


def do_pop(I, l, how):
    I.emit('write', l.loc, 'pop', I.cur, I.fname())
    if l.loc in I.drain:
        el, h2 = I.drain[l.loc]
        if h2 == how:
            return I.obj_of_term(el) or I.from_term(el)
    c = I.heap[l.loc]
    if isinstance(c.data, list):
        if not c.data:
            raise AbsRaise('IndexError', I.cur, I.fname())
        c.data = list(c.data)
        if how == 'last':
            return c.data.pop()
        if how == 'first':
            return c.data.pop(0)
        if len(c.data) == 1:
            return c.data.pop()
        c.data = tup(*[I.t(x) for x in c.data])
    d = c.data
    el = T('popel', d, how)
    c.data = T('poprest', d, how)
    return I.obj_of_term(el) or I.from_term(el)


REG['heapq.heappop'] = lambda I, a, k: do_pop(I, a[0], 'heap')


@reg('heapq.heappush')
def h_push(I, args, kw):
    I.list_append(args[0], args[1])
    return NONE


@reg('heapq.heapify')
def h_heapify(I, args, kw):
    return NONE


@reg('heapq.merge')
def h_merge(I, args, kw):
    parts = []
    for a in args:
        if isinstance(a, Spread):
            parts.append(flat(a.term))
            continue
        vals, t = elems(I, a)
        parts.append(t if t is not None else tup(*[I.t(x) for x in vals]))
    return IterV(T('merged', cat(*parts)))


@reg('copy.copy', 'copy.deepcopy')
def c_copy(I, args, kw):
    v = args[0]
    if isinstance(v, (Arr, View)):
        return I.arr(I.t(v), I.dtype(v))
    if isinstance(v, Lst):
        return b_list(I, [v], {})
    if isinstance(v, Obj):
        c = I.heap[v.loc]
        d = {}
        for k, x in c.data.items():
            d[k] = c_copy(I, [x], {}) if I.deep(args) else x
        return Obj(I.alloc('inst', d, **c.meta))
    return v


def c_deepcopy(I, args, kw):
    v = args[0]
    if isinstance(v, (Arr, View)):
        return I.arr(I.t(v), I.dtype(v))
    if isinstance(v, Lst):
        vals = I.as_values(v)
        return I.lst([c_deepcopy(I, [x], {}) for x in vals]) if vals is not None else I.lst_term(I.t(v))
    if isinstance(v, Obj):
        c = I.heap[v.loc]
        return Obj(I.alloc('inst', {k: c_deepcopy(I, [x], {}) for k, x in c.data.items()}, **c.meta))
    return v


def c_shallow(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        c = I.heap[v.loc]
        return Obj(I.alloc('inst', dict(c.data), **c.meta))
    return c_deepcopy(I, args, kw) if not isinstance(v, Lst) else b_list(I, [v], {})


REG['copy.deepcopy'] = c_deepcopy
REG['copy.copy'] = c_shallow


def op2(name, node):
    REG['operator.' + name] = lambda I, a, k: I.binop(node(), a[0], a[1])


for _n, _o in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('concat', ast.Add), ('or_', ast.BitOr), ('and_', ast.BitAnd),
               ('iadd', ast.Add), ('lshift', ast.LShift), ('matmul', ast.MatMult)):
    op2(_n, _o)
for _n, _o in (('eq', ast.Eq), ('ne', ast.NotEq), ('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE)):
    (lambda nn, oo: REG.__setitem__('operator.' + nn, lambda I, a, k: I.compare(oo(), a[0], a[1])))(_n, _o)


@reg('operator.itemgetter')
def op_itemgetter(I, args, kw):
    return Builtin('itemgetter_', PyTuple(list(args)))


@reg('operator.methodcaller')
def op_methodcaller(I, args, kw):
    return opaque('methodcaller')


# ---------------------------------------------------------------- methods
def method(I, v, m, args, kw):
    if isinstance(v, Lst):
        return list_method(I, v, m, args, kw)
    if isinstance(v, Dct):
        return dict_method(I, v, m, args, kw)
    if isinstance(v, PyTuple):
        if m == 'index' or m == 'count':
            from . import pylib
            return pylib.seq_lib(I, v, m, args, kw)
        return None
    if isinstance(v, (Arr, View)) or isinstance(v, Term):
        t = I.t(v)
        if m == 'copy':
            return I.mkval(t, I.dtype(v)) if ndim(t) else (I.arr(t, I.dtype(v)) if not isinstance(v, Term) else t)
        if m == 'astype':
            dt = dtname(I, args[0] if args else kw.get('dtype'))
            if dt == 'bool' and not I.boolarr(t):
                return I.arr(I.map1(t, truth), 'bool')
            if dt and 'str' in str(dt) or isinstance(args[0] if args else kw.get('dtype'), Builtin) and (args[0] if args else kw['dtype']).name == 'str':
                return uf(I, 'astype(str)', t)
            return I.arr(t, dt) if ndim(t) != 0 else t
        if m == 'tolist':
            return I.lst_term(t)
        if m == 'item':
            ks = list(args) if len(args) != 1 else [args[0]] if ndim(t) == 1 else []
            if ks and len(ks) == ndim(t):
                return index_term(I, t, ks, [kind_of_key(I, k) for k in ks])
            return t if ndim(t) == 0 else idx(t, ZERO) if ndim(t) == 1 and not args else uf(I, 'item', t, *args)
        if m == 'fill' and isinstance(v, (Arr, View)):
            I.write_whole(v, fill_like(t, I.t(args[0])), 'fill')
            return NONE
        if m == 'sort' and isinstance(v, (Arr, View)):
            I.write_whole(v, I.t(REG['numpy.sort'](I, [v] + list(args), kw)), 'sort')
            return NONE
        if m == 'transpose':
            return transposed(I, v)
        if m == 'view':
            return derived(I, v, t, 0, same, lambda x, y: y, True)
        if m in ('tobytes', 'tostring'):
            return T('bytes', t)
        if m in ('dot', 'sum', 'any', 'all', 'min', 'max', 'argmin', 'argmax', 'argsort', 'nonzero', 'prod', 'cumsum',
                 'trace', 'take', 'round', 'diagonal', 'compress'):
            a = [v] + list(args)
            if m == 'compress' and len(a) > 1:
                a[:2] = a[1::-1]
            return heeded(I, REG['numpy.' + m], 'numpy.' + m, a, dict(kw))
        if isinstance(v, Term) and t.op in ('str', 'fstr', 'strsym', 'tostr', 'arrstr', 'idx', 'call', 'attr', 'var', 'lib'):
            return str_method(I, t, m, args, kw)
    if isinstance(v, (IterV, GenV)):
        return None
    return None


def str_method(I, t, m, args, kw):
    ts = [I.t(a) for a in args]
    if t.op == 'str' and all(x.op in ('str', 'num') for x in ts):
        s = t.args[0]
        if m in ('startswith', 'endswith'):
            return boolt(getattr(s, m)(*[x.args[0] for x in ts]))
        if m == 'split':
            return I.lst([STR(x) for x in s.split(*[x.args[0] for x in ts])])
        if m in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'replace'):
            return STR(getattr(s, m)(*[x.args[0] for x in ts]))
        if m == 'format' and all(x.op in ('str', 'num') for x in ts) and not kw:
            return STR(s.format(*[x.args[0] for x in ts]))
    if m == 'format' and t.op == 'str':
        parts = t.args[0].split('{}')
        if len(parts) == len(ts) + 1 and '{' not in ''.join(parts):
            out = [STR(parts[0])]
            for x, p in zip(ts, parts[1:]):
                out += [I.to_str(x), STR(p)]
            return mkstr(out)
    if m == 'join' and t.op == 'str' and len(args) == 1:
        vals = I.as_values(args[0])
        if vals is not None:
            out = []
            for i, x in enumerate(vals):
                if i:
                    out.append(t)
                out.append(I.to_str(I.t(x)))
            return mkstr(out)
    if m in ('startswith', 'endswith'):
        return T('bool', m, t, *ts)
    from . import pylib
    return pylib.str_lib(I, t, m, args, kw) or pylib.num_lib(I, t, m, args, kw)


def list_method(I, l, m, args, kw):
    c = I.heap[l.loc]
    if m == 'append':
        I.list_append(l, args[0])
        return NONE
    if m == 'appendleft':
        I.emit('write', l.loc, 'append', I.cur, I.fname())
        if isinstance(c.data, list):
            c.data = [args[0]] + c.data
        else:
            c.data = cat(tup(I.t(args[0])), c.data)
        return NONE
    if m in ('extend', 'extendleft', 'update'):
        I.list_extend(l, args[0])
        return NONE
    if m == 'insert':
        k = I.t(args[0])
        I.emit('write', l.loc, 'insert', I.cur, I.fname())
        if isinstance(c.data, list) and k.op == 'num':
            c.data = list(c.data)
            c.data.insert(k.args[0], args[1])
        elif k is ZERO:
            c.data = cat(tup(I.t(args[1])), I.t(l))
        else:
            c.data = T('lib', 'linsert', ndim(I.t(l)), I.t(l), k, I.t(args[1]))
        return NONE
    if m == 'clear':
        I.emit('write', l.loc, 'clear', I.cur, I.fname())
        c.data = []
        return NONE
    if m == 'pop':
        if not args or I.t(args[0]) is num(-1):
            return do_pop(I, l, 'last')
        if I.t(args[0]) is ZERO:
            return do_pop(I, l, 'first')
        k = I.t(args[0])
        if isinstance(c.data, list) and k.op == 'num':
            I.emit('write', l.loc, 'pop', I.cur, I.fname())
            c.data = list(c.data)
            return c.data.pop(k.args[0])
        I.emit('write', l.loc, 'pop', I.cur, I.fname())
        t = I.t(l)
        c.data = delete(t, k)
        return I.from_term(idx(t, k))
    if m == 'popleft':
        return do_pop(I, l, 'first')
    if m == 'copy':
        return I.lst(list(c.data)) if isinstance(c.data, list) else I.lst_term(c.data)
    if m == 'sort':
        I.emit('write', l.loc, 'sort', I.cur, I.fname())
        from . import pylib
        new = pylib.sort_term(I, I.t(l), kw.get('key'), I.truth(kw['reverse']) if 'reverse' in kw else FALSE)
        I.heap[l.loc].data = new
        return NONE
    if m == 'reverse':
        I.emit('write', l.loc, 'reverse', I.cur, I.fname())
        c.data = reverse(I.t(l))
        return NONE
    if m in ('index', 'count'):
        from . import pylib
        return pylib.seq_lib(I, l, m, args, kw)
    if m in ('remove', 'rotate'):
        if m == 'remove' and not I.choose(I.contains(args[0], l)):
            raise AbsRaise('ValueError', I.cur, I.fname())
        I.emit('write', l.loc, m, I.cur, I.fname())
        t = I.t(l)
        c.data = T('lib', 'l' + m, ndim(t), t, *[I.t(a) for a in args])
        return NONE
    if m in ('astype', 'nonzero', 'sum', 'dot'):
        raise AbsRaise('AttributeError', I.cur, I.fname())
    return None


def dict_method(I, d, m, args, kw):
    c = I.heap[d.loc]
    conc = isinstance(c.data, dict)
    t = I.t(d)
    if c.kind == 'set' or (not conc and t.op == 'set'):
        if m == 'add':
            I.emit('write', d.loc, 'sadd', I.cur, I.fname())
            if t.op == 'set':
                if t.args[0].op == 'tuple':
                    x = I.t(args[0])
                    c.data = t if x in t.args[0].args else T('set', cat(t.args[0], tup(x)))
                    return NONE
            c.data = T('lib', 'set.m.add', None, t, I.t(args[0]))
            return NONE
        if m == 'pop':
            I.emit('write', d.loc, 'pop', I.cur, I.fname())
            c.data = T('poprest', t, 'any')
            return I.from_term(T('popel', t, 'any'))
        if m in ('copy',):
            return Dct(I.alloc('set', t))
        from . import pylib
        return pylib.set_lib(I, d, m, args, kw)
    if m == 'items':
        if conc:
            return IterV(None, [PyTuple([k, v]) for k, v in c.data.items()])
        return IterV(T('items', t))
    if m == 'keys':
        return IterV(None, list(c.data.keys())) if conc else IterV(T('keys', t))
    if m == 'values':
        return IterV(None, list(c.data.values())) if conc else IterV(T('vals', t))
    if m == 'get':
        k = I.hashkey(args[0])
        if conc and k in c.data:
            return c.data[k]
        if conc and all(x.op in ('num', 'str') for x in c.data) and k.op in ('num', 'str'):
            return args[1] if len(args) > 1 else NONE
        other = args[1] if len(args) > 1 else NONE
        if conc and 0 < len(c.data) <= 24 and not (isinstance(other, Term) and all(isinstance(x, Term) for x in c.data.values())):
            return pick(I, c.data, k, other)
        if len(args) > 1 and isinstance(args[1], (Lst, Dct)):
            return I.from_term(T('lib', 'dgetor', None, t, k, *[I.t(a) for a in args[1:]]))
        return I.from_term(T('lib', 'dgetor', None, t, k, *[I.t(a) for a in args[1:]]))
    if m == 'setdefault':
        k = I.hashkey(args[0])
        if conc and k in c.data:
            return c.data[k]
        if conc and all(x.op in ('num', 'str') for x in c.data) and k.op in ('num', 'str'):
            c.data = dict(c.data)
            c.data[k] = args[1] if len(args) > 1 else NONE
            return c.data[k]
        if len(args) > 1 and empty_kind(I, args[1]):
            return DDRef(d.loc, k, empty_kind(I, args[1]))
        I.emit('write', d.loc, 'dset', I.cur, I.fname())
        c.data = T('dsetdefault', t, k, I.t(args[1]) if len(args) > 1 else NONE)
        return T('dget', c.data, k)
    if m == 'most_common':
        return I.lst_term(T('lib', 'most_common', 2, t, *[I.t(a) for a in args]))
    if m == 'elements':
        return IterV(T('lib', 'elements', 1, t))
    if m == 'copy':
        return Dct(I.alloc('dict', dict(c.data) if conc else c.data, **c.meta))
    if m in ('update', 'pop', 'clear', 'popitem'):
        I.emit('write', d.loc, m, I.cur, I.fname())
        if m == 'pop' and conc:
            k = I.hashkey(args[0])
            if k in c.data:
                c.data = dict(c.data)
                return c.data.pop(k)
            if len(args) > 1:
                if all(x.op in ('num', 'str') for x in c.data) and k.op in ('num', 'str'):
                    return args[1]
            elif all(x.op in ('num', 'str') for x in c.data) and k.op in ('num', 'str'):
                raise AbsRaise('KeyError', I.cur, I.fname())
        if m == 'clear':
            c.data = {}
            return NONE
        if m == 'pop':
            k = I.hashkey(args[0])
            c.data = T('lib', 'dpop', None, t, k)
            return I.from_term(T('lib', 'dgetor', None, t, k, I.t(args[1])) if len(args) > 1 else T('dget', t, k))
        if m == 'popitem':
            c.data = T('lib', 'dpoplast', None, t)
            return I.from_term(T('lib', 'dlast', 1, t))
        if m == 'update' and len(args) <= 1 and (not args or isinstance(args[0], Dct)):
            for x in args[:1]:
                e = I.heap[x.loc].data
                if isinstance(e, dict):
                    for k, x in e.items():
                        dict_set(I, d, k, x)
                else:
                    c.data = T('lib', 'dupdate', None, I.t(d), e)
            for k, x in kw.items():
                dict_set(I, d, STR(k), x)
            return NONE
        c.data = opaque('dict' + m)
        return opaque('dict' + m)
    return None


def dd_method(m):
    def f(I, self_, args, kw):
        if m in MUTATORS:
            if m == 'extend' and self_.kind == 'list':
                xs = I.as_values(args[0])
                if xs is not None:
                    for x in xs:
                        dd_append(I, self_, [x], {})
                    return NONE
            tmp, commit = self_.open(I)
            r = method(I, tmp, m, args, kw)
            commit()
            return r
        return call(I, Builtin('method.' + m, I.from_term(self_.read(I))), args, kw)
    return f


for _m in ('add', 'extend', 'insert', 'pop', 'remove', 'discard', 'sort', 'reverse', 'clear', 'update', 'index', 'count', 'copy'):
    REG['dd.' + _m] = dd_method(_m)


@reg('dd.append')
def dd_append(I, self_, args, kw):
    I.emit('write', self_.loc, 'gappend', I.cur, I.fname())
    c = I.heap[self_.loc]
    c.data = T('gappend', I.dict_term(c), self_.key, I.t(args[0]))
    return NONE
