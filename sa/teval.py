"""Random interpretation of value numbers (Gulwani and Necula, POPL 2003).

Two value numbers (terms) that the normal form leaves different are compared
under a fixed family of valuations of their symbols; only a valuation at which
they differ makes the difference a finding, so a formulation the normal form
does not recognise never raises an alarm.  What is evaluated are the terms of
the analysis, never the analysed program.
"""
from fractions import Fraction
import hashlib
import re
import math
from .terms import *
from . import terms as tm


def copy_state(v):
    if isinstance(v, list):
        return [copy_state(x) for x in v]
    # what cannot be evaluated has no influence on what can
    return '?' if isinstance(v, Exception) else v


class Undef(Exception):
    """no value at this valuation (index outside a sequence, division by zero)"""


class Unknown(Exception):
    """the term contains a part the analysis could not describe"""


class Endless(Unknown):
    """a loop that was shown to run for ever"""


UNSET = ('unset',)
_fb = {}


def freebv(t):
    """the binders a term refers to but does not introduce"""
    r = _fb.get(t)
    if r is None:
        if t.op == 'bv':
            r = (t,)
        elif t.op == 'seq':
            s = set()
            for x in t.args[2:]:
                s.update(freebv(x))
            s.discard(bv(t.args[0]))
            s.update(freebv(t.args[1]))
            r = tuple(sorted(s))
        else:
            s = set()
            for x in tm._subterms_args(t.args):
                s.update(freebv(x))
            r = tuple(sorted(s))
        _fb[t] = r
    return r


def deep(x):
    return [deep(y) for y in x] if isinstance(x, (list, tuple)) else x


def quotient(t):
    """a true division is part of the term"""
    for m, c in tm.to_poly(t).items():
        if isinstance(c, Fraction) and c.denominator > 1 or any(a.op == 'inv' or isinstance(e, int) and e < 0 for a, e in m):
            return True
    return False


class Ev:
    def __init__(self, env, uf=None, steps=6000000):
        self.env = env              # name or Term -> value
        self.uf = {} if uf is None else uf
        self.steps = steps
        self.memo = {}

    def __call__(self, t, b=None):
        return self.ev(t, b or {})

    def ev(self, t, b):
        self.steps -= 1
        if self.steps < 0:
            raise Unknown('steps')
        if t in self.env:
            return self.env[t]
        op = t.op
        fb = freebv(t)
        key = (t, tuple(b.get(x) for x in fb)) if fb else (t,)
        if t.fv and b:
            key = key + (tuple((x, b[x]) for x in t.fv if x in b),)
        try:
            r = self.memo.get(key, self)
        except TypeError:
            key, r = None, self
        if r is not self:
            return r
        m = getattr(self, 'o_' + op, None)
        if m is None:
            raise Unknown(op)
        try:
            r = m(t, b)
        except RecursionError:
            raise Unknown('depth')
        except (IndexError, ZeroDivisionError, TypeError, KeyError, ValueError, OverflowError) as e:
            raise Undef('%s in %s' % (e, op))
        if key is not None:
            self.memo[key] = r
        return r

    # binder access: the de Bruijn level is resolved through b
    def o_bv(self, t, b):
        return b[t]

    def o_var(self, t, b):
        if t in b:
            return b[t]
        if t in tm.HV:
            return self.after(t, b)
        raise Unknown('var ' + t.args[0])

    def o_carry(self, t, b):
        if t in tm.HV:
            return self.after(t, b)
        raise Unknown('carry')

    o_carryobj = o_carry

    # loops without a closed form: the recurrences are followed
    def after(self, t, b):
        m, i = tm.HV[t]
        return self.state(self.ev(m, b), i)

    def state(self, r, i):
        v = r['state'][i]
        if v is UNSET:
            raise Undef('unset')
        if isinstance(v, Exception):
            raise v
        return v

    def o_eta(self, t, b):
        return self.state(self.ev(t.args[0], b), t.args[1].args[0])

    def o_muret(self, t, b):
        r = self.ev(t.args[0], b)
        if r['exit'] != ('return', t.args[1].args[0]):
            raise Undef('not returned')
        if isinstance(r['ret'], Exception):
            raise r['ret']
        return r['ret']

    rounds = 3000

    def o_mu(self, t, b):
        c = tm.MU[t.args[0]]
        env = dict(self.env)
        for f, a in zip(c['formals'], t.args[1:]):
            try:
                env[f] = self.ev(a, b)
            except (Unknown, Undef):
                pass

        def sub_(e):
            x = Ev(e, self.uf, self.steps)
            x.rounds = self.rounds
            return x

        def val(e, v):
            if v is None:
                return UNSET
            if v.op == 'unbound':
                return UNSET
            try:
                return e(v)
            except (Unknown, Undef) as ex:
                return ex
        e = sub_(env)
        N = e(c['n']) if c['n'] is not None else self.rounds
        if not isinstance(N, int):
            raise Undef('length')
        st = [val(e, t0) for ct, t0 in c['states']]
        self.steps = e.steps
        i = 0
        while i < N:
            e2 = dict(env)
            for (ct, t0), v in zip(c['states'], st):
                if ct is not None and v is not UNSET and not isinstance(v, Exception):
                    e2[ct] = v
            if c['var'] is not None:
                e2[c['var']] = i
            e = sub_(e2)
            if c['brk'] is not FALSE and truthy(e(c['brk'])):
                break
            if c['guard'] is not TRUE and not truthy(e(c['guard'])):
                i += 1
                self.steps = e.steps
                continue
            for p in c['paths']:
                try:
                    if all(truthy(e(x)) for x in p['conds']):
                        break
                except Undef as ex:
                    raise Unknown('condition in a loop: %s' % ex)
            else:
                raise Unknown('no path of a loop')
            if p['kind'] == 'return':
                r = val(e, p['ret'])
            if p['keep']:
                st = [val(e, v) if k else s for v, s, k in zip(p['vals'], st, p['keep'])]
            self.steps = e.steps
            if p['kind'] == 'raise':
                return dict(exit=('raise', p['k']), state=st)
            if p['kind'] == 'return':
                return dict(exit=('return', p['k']), state=st, ret=r)
            if p['kind'] in ('break', 'end'):
                return dict(exit=(p['kind'], None), state=st)
            i += 1
            if c['n'] is None and i >= 64:
                # the same state again: the loop never ends
                if i & (i - 1) == 0:
                    mark = [copy_state(v) for v in st]
                elif [copy_state(v) for v in st] == mark:
                    raise Endless('a loop comes back to the same state')
        if c['n'] is None:
            raise Unknown('runaway loop')
        return dict(exit=('end', None), state=st)

    def o_num(self, t, b):
        return t.args[0]

    def o_true(self, t, b):
        return True

    def o_false(self, t, b):
        return False

    def o_none(self, t, b):
        return None

    def o_str(self, t, b):
        return t.args[0]

    def o_sym(self, t, b):
        if t.args[0] in self.env:
            return self.env[t.args[0]]
        raise Unknown('sym ' + t.args[0])

    def o_strsym(self, t, b):
        return self.o_sym(t, b)

    def o_arr(self, t, b):
        if t.args[0] in self.env:
            return self.env[t.args[0]]
        if t in tm.HV:
            return self.after(t, b)
        raise Unknown('arr ' + t.args[0])

    def o_poly(self, t, b):
        s = 0
        for mono, c in t.args:
            p = c
            for a, e in mono:
                v = self.ev(a, b)
                if isinstance(v, list):
                    if e < 1:
                        raise Unknown('array in poly')
                    for _ in range(e):
                        p = bcast(lambda x, y: x * y, p, v)
                    continue
                if isinstance(p, list):
                    if e < 1:
                        raise Unknown('array in poly')
                    for _ in range(e):
                        p = bcast(lambda x, y: x * y, p, v)
                    continue
                if v is None:
                    raise Undef('none')
                if e < 0:
                    if v == 0:
                        raise Undef('div0')
                    p = p / (v ** -e) if isinstance(v, float) else Fraction(p) / (Fraction(v) ** -e)
                else:
                    p = p * v ** e
            s = bcast(lambda x, y: x + y, s, p) if isinstance(s, list) or isinstance(p, list) else s + p
        if isinstance(s, Fraction) and s.denominator == 1:
            s = int(s)
        return s

    def o_ge0(self, t, b):
        v = self.ev(t.args[0], b)
        return bcast(lambda x, y: x >= y, v, 0) if isinstance(v, list) else v >= 0

    def o_eq0(self, t, b):
        v = self.ev(t.args[0], b)
        if isinstance(v, list):
            return bcast(lambda x, y: x == y, v, 0)
        if isinstance(v, float):
            return abs(v) < 1e-9
        return v == 0

    def o_not(self, t, b):
        v = self.ev(t.args[0], b)
        return bcast(lambda x, y: not x, v, 0) if isinstance(v, list) else not truthy(v)

    def o_and(self, t, b):
        return self._junct(t, b, False)

    def o_or(self, t, b):
        return self._junct(t, b, True)

    def _junct(self, t, b, stop):
        # an operand that is undefined does not matter when another decides
        und = None
        for a in t.args:
            try:
                if truthy(self.ev(a, b)) is stop:
                    return stop
            except Undef as e:
                und = e
        if und is not None:
            raise und
        return not stop

    def o_ite(self, t, b):
        return self.ev(t.args[1] if self.ev(t.args[0], b) else t.args[2], b)

    def o_seq(self, t, b):
        h, n, g, k, body = t.args
        N = self.ev(n, b)
        if not isinstance(N, int):
            raise Undef('length')
        out = []
        x = bv(h)
        b2 = dict(b)
        for i in range(N):
            b2[x] = i
            if k is not FALSE and self.ev(k, b2):
                break
            if g is TRUE or self.ev(g, b2):
                out.append(self.ev(body, b2))
        return out

    def o_tuple(self, t, b):
        return [self.ev(a, b) for a in t.args]

    def o_cat(self, t, b):
        r = []
        for a in t.args:
            r = r + list(self.ev(a, b))
        return r

    def o_flat(self, t, b):
        r = []
        for a in self.ev(t.args[0], b):
            r = r + list(a)
        return r

    def o_idx(self, t, b):
        x = self.ev(t.args[0], b)
        i = self.ev(t.args[1], b)
        return self.index(x, i)

    def index(self, x, i):
        if isinstance(i, bool):
            i = int(i)
        if isinstance(x, dict):
            return x[i]
        if isinstance(i, list):
            return [self.index(x, j) for j in i]
        if isinstance(x, SetV):
            x = x.items
        if not isinstance(x, (list, str)):
            raise Undef('index of scalar')
        if not -len(x) <= i < len(x):
            raise Undef('index')
        return x[i]

    def o_slice(self, t, b):
        x = self.ev(t.args[0], b)
        lo, hi = self.ev(t.args[1], b), self.ev(t.args[2], b)
        return x[max(lo, 0):max(hi, 0)]

    def o_dim(self, t, b):
        x = self.ev(t.args[0], b)
        for _ in range(t.args[1]):
            x = x[0]
        return len(x)

    def o_count(self, t, b):
        return len(self.ev(t.args[0], b))

    def o_size(self, t, b):
        def sz(x):
            return sum(sz(y) for y in x) if isinstance(x, list) else 1
        return sz(self.ev(t.args[0], b))

    def o_any(self, t, b):
        s = t.args[0]
        if s.op == 'seq':
            # undefined elements only matter when no element decides
            h, n, g, k, body = s.args
            N = self.ev(n, b)
            b2 = dict(b)
            x = bv(h)
            und = None
            for i in range(N):
                b2[x] = i
                if k is not FALSE and self.ev(k, b2):
                    break
                try:
                    if (g is TRUE or self.ev(g, b2)) and truthy(self.ev(body, b2)):
                        return True
                except Undef as e:
                    und = e
            if und:
                raise und
            return False
        return truthy(self.ev(s, b))

    def o_sum(self, t, b):
        def su(x):
            return sum(su(y) if isinstance(y, list) else y for y in x)
        return su(self.ev(t.args[0], b))

    def o_max(self, t, b):
        return max(self.ev(a, b) for a in t.args)

    def o_min(self, t, b):
        return min(self.ev(a, b) for a in t.args)

    def o_minr(self, t, b):
        return min(flatten(self.ev(t.args[0], b)))

    def o_maxr(self, t, b):
        return max(flatten(self.ev(t.args[0], b)))

    def o_argmin(self, t, b):
        x = self.ev(t.args[0], b)
        return min(range(len(x)), key=lambda i: x[i])

    def o_argmax(self, t, b):
        x = self.ev(t.args[0], b)
        return max(range(len(x)), key=lambda i: (x[i], -i))

    def o_argsort(self, t, b):
        x = self.ev(t.args[0], b)
        return sorted(range(len(x)), key=lambda i: x[i])

    def o_sorted(self, t, b):
        x = self.ev(t.args[0], b)
        return sorted(x.items if isinstance(x, SetV) else x)

    def o_sortedrev(self, t, b):
        return sorted(self.ev(t.args[0], b), reverse=True)

    def o_merged(self, t, b):
        return sorted(self.ev(t.args[0], b))

    def o_reversed(self, t, b):
        return list(reversed(self.ev(t.args[0], b)))

    def o_pow2(self, t, b):
        e = self.ev(t.args[0], b)
        if e < 0:
            raise Undef('shift')
        return 1 << e

    def o_pow(self, t, b):
        x, y = self.ev(t.args[0], b), self.ev(t.args[1], b)
        return x ** y

    def o_mod(self, t, b):
        return self.ev(t.args[0], b) % self.ev(t.args[1], b)

    def o_floordiv(self, t, b):
        return self.ev(t.args[0], b) // self.ev(t.args[1], b)

    def o_bitand(self, t, b):
        return self.ev(t.args[0], b) & self.ev(t.args[1], b)

    def o_bitor(self, t, b):
        return self.ev(t.args[0], b) | self.ev(t.args[1], b)

    def o_bitxor(self, t, b):
        return self.ev(t.args[0], b) ^ self.ev(t.args[1], b)

    def o_bitnot(self, t, b):
        return ~self.ev(t.args[0], b)

    def o_sqrt(self, t, b):
        x = self.ev(t.args[0], b)
        if x < 0:
            raise Undef('sqrt')
        if isinstance(x, int):
            r = math.isqrt(x)
            if r * r == x:
                return r
        return math.sqrt(x)

    def o_int(self, t, b):
        x = self.ev(t.args[0], b)
        if not isinstance(x, float) and abs(x) >= 2 ** 53 and quotient(t.args[0]):
            return int(float(x))        # the quotient is a float
        return self.trunc(x)

    def trunc(self, x):
        # the normal form reassociates, so a float next to an integer is that integer
        if isinstance(x, float) and abs(x - round(x)) < 1e-9 * max(1, abs(x)):
            return round(x)
        return int(x)

    def o_round(self, t, b):
        return round(self.ev(t.args[0], b))

    def o_sign(self, t, b):
        x = self.ev(t.args[0], b)
        return (x > 0) - (x < 0)

    def o_intof(self, t, b):
        return self.trunc(self.ev(t.args[0], b))

    resolver = None

    def o_sortedby(self, t, b):
        from functools import cmp_to_key
        xs = self.ev(t.args[0], b)
        k = t.args[1]
        rev = bool(self.ev(t.args[2], b))
        if not isinstance(xs, list) or Ev.resolver is None:
            raise Unknown('sortedby')
        if k.op == 'cmpkey':
            key = cmp_to_key(lambda x, y: Ev.resolver(k.args[0], [x, y]))
        else:
            memo = []

            def key(x):
                return Ev.resolver(k, [x])
        return sorted(xs, key=key, reverse=rev)

    def o_prod(self, t, b):
        r = 1
        for x in self.ev(t.args[0], b):
            r *= x
        return r

    def o_cumsum(self, t, b):
        r, s = [], 0
        for x in self.ev(t.args[0], b):
            s += x
            r.append(s)
        return r

    def o_in(self, t, b):
        x = self.ev(t.args[0], b)
        s = self.ev(t.args[1], b)
        if isinstance(s, SetV):
            s = s.items
        if isinstance(s, dict):
            return hk(x) in s
        if not isinstance(s, (list, str)):
            return x == s
        return x in s

    def o_uninit(self, t, b):
        return 113          # whatever memory happened to hold

    def o_delete(self, t, b):
        x = self.ev(t.args[0], b)
        ix = self.ev(t.args[1], b)
        if not isinstance(ix, list):
            ix = [ix]
        if any(isinstance(i, bool) or isinstance(i, list) for i in ix):
            raise Unknown('delete by a mask')
        if any(not -len(x) <= i < len(x) for i in ix):
            raise Undef('delete out of range')
        ix = {i % len(x) for i in ix}
        return [e for i, e in enumerate(x) if i not in ix]

    def o_transpose(self, t, b):
        return [list(r) for r in zip(*self.ev(t.args[0], b))]

    def o_matmul(self, t, b):
        x, y = self.ev(t.args[0], b), self.ev(t.args[1], b)
        dot = lambda p, q: sum(i * j for i, j in zip(p, q, strict=True))
        if not isinstance(x[0], list):
            return dot(x, y)
        if not isinstance(y[0], list):
            return [dot(r, y) for r in x]
        yt = [list(c) for c in zip(*y)]
        return [[dot(r, c) for c in yt] for r in x]

    def o_scat(self, t, b):
        x = copy(self.ev(t.args[0], b))
        for pr in self.ev(t.args[1], b):
            i, v = pr
            if isinstance(i, list):
                if len(i) == 2:
                    x[i[0]][i[1]] = v
                else:
                    raise Unknown('scat')
            else:
                if not -len(x) <= i < len(x):
                    raise Undef('store')
                x[i] = copy(v)
        return x

    def o_scatrow(self, t, b):
        return self.o_scat(t, b)

    def o_meet(self, t, b):
        x = copy(self.ev(t.args[0], b))
        for i, v in self.ev(t.args[1], b):
            x[i] = min(x[i], v)
        return x

    def o_scatadd(self, t, b):
        x = copy(self.ev(t.args[0], b))
        for i, v in self.ev(t.args[1], b):
            x[i] = x[i] + v
        return x

    def o_minwith(self, t, b):
        return min([self.ev(t.args[0], b)] + list(self.ev(t.args[1], b)))

    def o_maxwith(self, t, b):
        return max([self.ev(t.args[0], b)] + list(self.ev(t.args[1], b)))

    def o_first(self, t, b):
        s = self.ev(t.args[0], b)
        if not s:
            raise Undef('first')
        return s[0]

    def o_last(self, t, b):
        s = self.ev(t.args[0], b)
        if not s:
            raise Undef('last')
        return s[-1]

    def o_popel(self, t, b):
        x = self.ev(t.args[0], b)
        if not x:
            raise Undef('pop')
        how = t.args[1].args[0] if isinstance(t.args[1], Term) else t.args[1]
        return min(x) if how == 'heap' else x[-1] if how == 'last' else x[0]

    def o_poprest(self, t, b):
        x = list(self.ev(t.args[0], b))
        if not x:
            raise Undef('pop')
        how = t.args[1].args[0] if isinstance(t.args[1], Term) else t.args[1]
        if how == 'heap':
            x.remove(min(x))
            return x
        return x[:-1] if how == 'last' else x[1:]

    def o_subset(self, t, b):
        x, y = self.ev(t.args[0], b), self.ev(t.args[1], b)
        return int(x & y == x)

    def o_onbreak(self, t, b):
        s = self.ev(t.args[0], b)
        return s[0] if s else []

    def o_rest(self, t, b):
        return self.ev(t.args[0], b)[1:]

    def o_nz0(self, t, b):
        return [i for i, r in enumerate(self.ev(t.args[0], b)) for c, x in enumerate(r) if x]

    def o_nz1(self, t, b):
        return [c for i, r in enumerate(self.ev(t.args[0], b)) for c, x in enumerate(r) if x]

    def o_groupby(self, t, b):
        d = {}
        for k, v in self.ev(t.args[0], b):
            d.setdefault(hk(k), []).append(v)
        return d

    def o_dict(self, t, b):
        d = {}
        for k, v in self.ev(t.args[0], b):
            d[hk(k)] = v
        return d

    def o_dset(self, t, b):
        d = dict(self.ev(t.args[0], b))
        d[hk(self.ev(t.args[1], b))] = self.ev(t.args[2], b)
        return d

    def o_dsetdefault(self, t, b):
        d = dict(self.ev(t.args[0], b))
        d.setdefault(hk(self.ev(t.args[1], b)), self.ev(t.args[2], b))
        return d

    def o_gappend(self, t, b):
        d = dict(self.ev(t.args[0], b))
        k = hk(self.ev(t.args[1], b))
        d[k] = d.get(k, []) + [self.ev(t.args[2], b)]
        return d

    def o_dictlit(self, t, b):
        return {hk(self.ev(k, b)): self.ev(v, b) for k, v in t.args[0]}

    def o_keys(self, t, b):
        return [unhk(k) for k in self.ev(t.args[0], b)]

    def o_vals(self, t, b):
        return list(self.ev(t.args[0], b).values())

    def o_items(self, t, b):
        return [[unhk(k), v] for k, v in self.ev(t.args[0], b).items()]

    def o_dget(self, t, b):
        return self.ev(t.args[0], b)[hk(self.ev(t.args[1], b))]

    def o_set(self, t, b):
        out = []
        for x in self.ev(t.args[0], b):
            if x not in out:
                out.append(x)
        return SetV(out)

    def o_bits(self, t, b):
        a = self.ev(t.args[0], b)
        out = []
        while a > 0:
            out.append(a % 2)
            a //= 2
        return out

    def o_unzip(self, t, b):
        return [list(r) for r in zip(*self.ev(t.args[0], b))]

    def o_bool(self, t, b):
        k = t.args[0]
        if k == 'muexit':
            r = self.ev(t.args[1], b)
            return r['exit'] == ('raise', t.args[2].args[0]) or r['exit'] == ('return', t.args[2].args[0])
        if k in ('muend', 'mubreak'):
            return self.ev(t.args[1], b)['exit'][0] == k[2:]
        if k in ('loopraise', 'loopreturn') and t in tm.LX:
            m, x = tm.LX[t]
            return self.ev(m, b)['exit'] in x
        if k == 'array_equal' or k == 'listeq':
            x, y = self.ev(t.args[1], b), self.ev(t.args[2], b)
            return x == y
        if k == 'in':
            return self.o_in(T('in', *t.args[1:]), b)
        if k == 'streq':
            return self.ev(t.args[1], b) == self.ev(t.args[2], b)
        if k == 'isint':
            try:
                int(self.ev(t.args[1], b))
                return True
            except ValueError:
                return False
        if k == 'lib':
            return bool(self.ev(t.args[1], b))
        if k == 'truth':
            return truthy(self.ev(t.args[1], b))
        if k in self.uf:
            return self.uf[k](*[self.ev(a, b) for a in t.args[1:]])
        if k in ('startswith', 'endswith'):
            return getattr(self.ev(t.args[1], b), k)(self.ev(t.args[2], b))
        raise Unknown('bool ' + str(k))

    def o_fstr(self, t, b):
        return ''.join(str(self.ev(a, b)) for a in t.args)

    def o_tostr(self, t, b):
        return str(self.ev(t.args[0], b))

    def o_arrstr(self, t, b):
        # numpy abbreviates what has more than 1000 entries
        x = self.ev(t.args[0], b)
        big = len(flatten(x)) > 1000

        def go(y):
            if not isinstance(y, list):
                return str(y)
            if big and len(y) > 6:
                return '[' + ' '.join([go(z) for z in y[:3]] + ['...'] + [go(z) for z in y[-3:]]) + ']'
            return '[' + ' '.join(go(z) for z in y) + ']'
        return go(x)

    def o_bytes(self, t, b):
        return ('bytes', tuple(flatten(self.ev(t.args[0], b))))

    def o_tofloat(self, t, b):
        return float(self.ev(t.args[0], b))

    def o_float(self, t, b):
        return float(t.args[0])

    def o_lib(self, t, b):
        from . import pylib
        xs, kw = [], {}
        for a in t.args[2:]:
            if a.op == 'kw':
                kw[a.args[0]] = self.ev(a.args[1], b)
            else:
                xs.append(self.ev(a, b))
        try:
            return pylib.call_lib(t.args[0], xs, kw)
        except pylib.Bad as e:
            raise Unknown('lib %s' % e)
        except (AttributeError, ArithmeticError) as e:
            raise Undef('%s in %s' % (e, t.args[0]))

    def o_sortedon(self, t, b):
        xs, ks = self.ev(t.args[0], b), self.ev(t.args[1], b)
        if len(xs) != len(ks):
            raise Unknown('keys')
        return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(self.ev(t.args[2], b)))]

    def o_call(self, t, b):
        n = t.args[0]
        f = self.uf.get(n)
        if f is not None:
            return f(*[self.ev(a, b) for a in t.args[1:] if a.op != 'kw'])
        if n == 'bytes' and len(t.args) == 2:
            x = self.ev(t.args[1], b)
            if isinstance(x, (int, list, tuple)):
                try:
                    return bytes(x)
                except (ValueError, TypeError):
                    raise Undef('bytes')
        if n == 'hash':
            x = self.ev(t.args[1], b)
            if isinstance(x, int):
                return x % (2 ** 61 - 1) if x >= 0 else -2 if x == -1 else -(-x % (2 ** 61 - 1))
            # different contents hash differently, and nothing is known about the digits: any remainder or mask may collide
            return int.from_bytes(hashlib.sha1(repr(hk(x)).encode()).digest()[:7], 'big') * HASHMUL
        if n == 'strmul':
            x, k = self.ev(t.args[1], b), self.ev(t.args[2], b)
            if isinstance(x, str) and isinstance(k, int):
                return x * k
        if n == 'hstack2':
            ms = self.ev(t.args[1], b)
            if not isinstance(ms, list) or not ms or len(set(len(m) for m in ms)) != 1:
                raise Undef('hstack')
            return [sum((m[i] for m in ms), []) for i in range(len(ms[0]))]
        if n in ('re.findall', 're.split', 're.sub', 're.match', 're.fullmatch', 're.search') and not any(a.op == 'kw' for a in t.args[1:]):
            xs = [self.ev(a, b) for a in t.args[1:]]
            if all(isinstance(x, (str, int)) for x in xs):
                try:
                    return deep(getattr(re, n[3:])(*xs))
                except (re.error, TypeError):
                    raise Undef(n)
        if n in ('method.group', 'method.groups') and len(t.args) > 1:
            m = self.ev(t.args[1], b)
            if m is None:
                raise Undef('no match')
            if isinstance(m, re.Match):
                return deep(getattr(m, n[7:])(*[self.ev(a, b) for a in t.args[2:]]))
        if n == 'str.split':
            return self.ev(t.args[1], b).split(*[self.ev(a, b) for a in t.args[2:]])
        raise Unknown('call ' + str(n))

    def o_obj(self, t, b):
        return (t.args[0], {k: self.ev(v, b) for k, v in t.args[1]})

    def o_attr(self, t, b):
        x = self.ev(t.args[0], b)
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
            return x[1][t.args[1]]
        raise Unknown('attr')

    def o_ravel(self, t, b):
        return flatten(self.ev(t.args[0], b))

    def o_isnone(self, t, b):
        return self.ev(t.args[0], b) is None


HASHMUL = math.lcm(*range(2, 65)) * 2 ** 64   # a multiple of every constant of the source (see core.Ctx.sizes)


class SetV:
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __eq__(self, o):
        if isinstance(o, SetV):
            return sorted(map(repr, self.items)) == sorted(map(repr, o.items))
        return NotImplemented

    def __repr__(self):
        return 'set' + repr(self.items)


def hk(k):
    return tuple(hk(x) for x in k) if isinstance(k, list) else k


def unhk(k):
    return [unhk(x) for x in k] if isinstance(k, tuple) else k


def copy(x):
    return [copy(y) for y in x] if isinstance(x, list) else x


def flatten(x):
    if isinstance(x, list):
        return [z for y in x for z in flatten(y)]
    return [x]


def truthy(x):
    if isinstance(x, list):
        return any(truthy(y) for y in x)
    return bool(x)


def same(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
        if isinstance(x, float) or isinstance(y, float):
            return abs(x - y) <= 1e-6 * max(1, abs(x), abs(y))
        return x == y
    return x == y


def bcast(f, x, y):
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            raise Unknown('broadcast')
        return [bcast(f, p, q) for p, q in zip(x, y)]
    if isinstance(x, list):
        return [bcast(f, p, y) for p in x]
    if isinstance(y, list):
        return [bcast(f, x, q) for q in y]
    return f(x, y)
