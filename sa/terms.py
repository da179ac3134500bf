"""Hash-consed terms with an integer / index-lambda normal form.

A value of the analysed program is described by a term.  Arrays and lists are
index-lambdas  seq(n, guard, brk, body)  over a bound index; all other array
operations (slicing, deletion, masking, concatenation, matrix products,
comprehensions and loops that build lists) are rewritten into that form, so
that two ways of writing one computation get one term.  Integer arithmetic is
kept as a polynomial, comparisons as  ge0(p) / eq0(p).
"""
from fractions import Fraction

_table = {}
_counter = [0]


class Term:
    __slots__ = ('op', 'args', 'key', 'hb', 'opq', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.key < other.key


def T(op, *args):
    k = (op,) + args
    t = _table.get(k)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.args = args
    hb = 0
    opq = op == 'opq'
    fv = frozenset([t]) if op == 'var' else frozenset()
    for a in _subterms_args(args):
        if a.hb > hb:
            hb = a.hb
        if a.opq:
            opq = True
        if a.fv:
            fv = fv | a.fv
    if op == 'seq':
        hb = max(hb, args[0])
    t.hb = hb
    t.opq = opq
    t.fv = fv
    t.key = '%s(%s)' % (op, ','.join(_k(a) for a in args))
    _table[k] = t
    return t


def _k(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return '<' + ','.join(_k(x) for x in a) + '>'
    return repr(a)


def _subterms_args(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _subterms_args(a)


def fresh(prefix='v'):
    _counter[0] += 1
    return T('var', '%s%d' % (prefix, _counter[0]))


# ---------------------------------------------------------------- recurrences
# The values a loop leaves behind when no closed form of them is known: a mu node stands for the
# system of recurrences of the loop, an eta node for one of its values at the exit (as in gated SSA).
MU = {}      # id -> content
HV = {}      # value after a while loop -> (mu node, position)
LX = {}      # "left through this exit" -> (mu node, exit)


def mu(content):
    own = {ct for ct, t0 in content['states'] if ct is not None}
    if content['var'] is not None:
        own.add(content['var'])
    ts = [content['n'], content['guard'], content['brk']] + [t0 for ct, t0 in content['states']]
    for p in content['paths']:
        ts += p['conds'] + p['vals'] + [p['ret']]
    free = set()
    for t in ts:
        if isinstance(t, Term):
            free |= {a for a in _atoms(t) if a.op in ('var', 'arr', 'carry', 'carryobj') and a not in own and a not in HV}
    content['formals'] = sorted(free)
    i = len(MU) + 1
    MU[i] = content
    return T('mu', i, *content['formals'])


_opq_n = [0]


def opaque(why, *deps):
    _opq_n[0] += 1
    return T('opq', '%s#%d' % (why, _opq_n[0]), *[d for d in deps if isinstance(d, Term)])


# ---------------------------------------------------------------- symbols
NONEABLE = set()    # variables of a loop that hold None before its first round
SYM = {}     # name -> dict(dims=..., nonneg=bool, lo=..)


def sym(name, dims=(), nonneg=False, lo=None, distinct=False):
    SYM[name] = dict(dims=tuple(dims), nonneg=nonneg, lo=lo)
    return T('sym', name)


# ---------------------------------------------------------------- numbers
def num(n):
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, float) and n == int(n):
        n = int(n)
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    return T('num', n)


ZERO, ONE = num(0), num(1)
TRUE, FALSE = T('true'), T('false')
NONE = T('none')


def isnum(t):
    return t.op == 'num'


def boolt(b):
    return TRUE if b else FALSE


# polynomial: dict mono -> coef ; mono = tuple of (atom, exp) sorted by key
def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args)
    if t is TRUE:
        return {(): 1}
    if t is FALSE:
        return {}
    return {((t, 1),): 1}


def from_poly(p):
    p = {m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: (tuple((a.key, e) for a, e in mc[0]), str(mc[1]))))
    return T('poly', *items)


def _addp(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c != 0}


def _mulmono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    # combine powers of two
    p2 = [a for a in d if a.op == 'pow2' and d[a] != 0]
    if len(p2) > 1 or (p2 and d[p2[0]] != 1):
        tot = ZERO
        for a in p2:
            tot = add(tot, mul(a.args[0], num(d[a])))
            del d[a]
        q = pow2(tot)
        if q.op == 'num':
            return [(tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].key)), q.args[0])]
        if q.op == 'poly':
            out = []
            base = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].key))
            for m, c in q.args:
                for mm, cc in _mulmono(base, m):
                    out.append((mm, cc * c))
            return out
        d[q] = 1
    # sqrt reduction
    for a in list(d):
        if a.op == 'sqrt' and abs(d[a]) >= 2:
            e = d[a]
            h = int(e / 2)
            d[a] = e - 2 * h
            inner = to_poly(a.args[0])
            if h > 0:
                cur = {tuple(sorted(((x, y) for x, y in d.items() if y), key=lambda z: z[0].key)): 1}
                for _ in range(h):
                    cur = _mulp(cur, inner)
                return list(cur.items())
            else:
                iv = inv(a.args[0])
                cur = {tuple(sorted(((x, y) for x, y in d.items() if y), key=lambda z: z[0].key)): 1}
                for _ in range(-h):
                    cur = _mulp(cur, to_poly(iv))
                return list(cur.items())
    return [(tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].key)), 1)]


def _mulp(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in _mulmono(m1, m2):
                r[m] = r.get(m, 0) + c1 * c2 * c
    return {m: c for m, c in r.items() if c != 0}


def inv(t):
    if t.op == 'num':
        return num(Fraction(1) / Fraction(t.args[0])) if t.args[0] != 0 else T('inv0')
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -e) for a, e in m): Fraction(1) / Fraction(c)})
    # content normalisation: make the leading coefficient 1
    items = sorted(p.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
    lead = items[-1][1]
    q = from_poly({m: Fraction(c) / Fraction(lead) for m, c in p.items()})
    return from_poly({((q, -1),): Fraction(1) / Fraction(lead)})


def add(a, b):
    return from_poly(_addp(to_poly(a), to_poly(b)))


def sub(a, b):
    return from_poly(_addp(to_poly(a), to_poly(b), -1))


def neg(a):
    return sub(ZERO, a)


def mul(a, b):
    return from_poly(_mulp(to_poly(a), to_poly(b)))


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    if b.op == 'num' and isinstance(b.args[0], int) and 0 <= b.args[0] <= 16:
        r = ONE
        for _ in range(b.args[0]):
            r = mul(r, a)
        return r
    if a.op == 'num' and a.args[0] == 2:
        return pow2(b)
    return T('pow', a, b)


def pow2(e):
    """2**e, constant offsets extracted"""
    if e.op == 'num' and isinstance(e.args[0], int):
        return num(Fraction(2) ** e.args[0])
    p = to_poly(e)
    c = p.pop((), 0)
    if c and isinstance(c, int):
        rest = from_poly(p)
        return mul(num(Fraction(2) ** c), T('pow2', rest))
    return T('pow2', e)


def sqrt(t):
    return T('sqrt', t)


def _bounds_of(t, facts=None, depth=0):
    """(lo, hi) numeric bounds known for integer term t (None = unknown)"""
    if t.op == 'num':
        return t.args[0], t.args[0]
    if t in (TRUE, FALSE):
        return int(t is TRUE), int(t is TRUE)
    lo = 0 if nonneg(t) else None
    hi = None
    if t.op == 'sym':
        l = SYM[t.args[0]].get('lo')
        if l is not None:
            lo = l
        if SYM[t.args[0]].get('bit'):
            lo, hi = 0, 1
    if t.op in ('ge0', 'eq0', 'and', 'or', 'not', 'any'):
        lo, hi = 0, 1
    return lo, hi


RANGE = {}   # var term -> (lo term, hi term) inclusive bounds of loop variables


def lower(p, depth=0):
    """a numeric lower bound of polynomial term p, or None"""
    if depth > 4:
        return None
    tot = 0
    pp = to_poly(p) if isinstance(p, Term) else p
    # eliminate a ranged variable first (linear occurrences only)
    for m, c in pp.items():
        for a, e in m:
            if a in RANGE and e == 1:
                # coefficient polynomial of a
                coef, rest, lin = {}, {}, True
                for m2, c2 in pp.items():
                    ex = dict(m2).get(a, 0)
                    if ex == 0:
                        rest[m2] = c2
                    elif ex == 1:
                        coef[tuple(x for x in m2 if x[0] is not a)] = c2
                    else:
                        lin = False
                if not lin:
                    continue
                ct = from_poly(coef)
                lo_t, hi_t = RANGE[a]
                if nonneg(ct):
                    return lower(add(from_poly(rest), mul(ct, lo_t)), depth + 1)
                if nonneg(neg(ct)) and hi_t is not None:
                    return lower(add(from_poly(rest), mul(ct, hi_t)), depth + 1)
    for m, c in pp.items():
        if m == ():
            tot += c
            continue
        lo, hi = 1, 1
        for a, e in m:
            if e < 0:
                return None
            l, h = _bounds_of(a)
            if l is None or l < 0:
                return None
            lo = lo * l ** e
            hi = None if (hi is None or h is None) else hi * h ** e
        if c > 0:
            tot += c * lo
        else:
            if hi is None:
                return None
            tot += c * hi
    return tot


def nonneg(t):
    op = t.op
    if op == 'num':
        return t.args[0] >= 0
    if op == 'sym':
        d = SYM.get(t.args[0])
        return bool(d and (d['nonneg'] or (d.get('lo') is not None and d['lo'] >= 0)))
    if op == 'var':
        r = RANGE.get(t)
        return bool(r) and nonneg(r[0])
    if op in ('bv', 'dim', 'len', 'pow2', 'count', 'argmin', 'argmax', 'true', 'false', 'ge0', 'eq0', 'and', 'or',
              'not', 'any', 'sqrt', 'nz0', 'nz1', 'abs'):
        return True
    if op == 'idx':
        b = t.args[0]
        while b.op == 'idx':
            b = b.args[0]
        if b.op in ('keys', 'vals'):
            return True
        return nonneg(b)
    if op == 'seq':
        return nonneg(t.args[4])
    if op in ('sum', 'minr', 'maxr'):
        return nonneg(t.args[0])
    if op == 'max':
        return any(nonneg(a) for a in t.args)
    if op == 'min':
        return all(nonneg(a) for a in t.args)
    if op == 'ite':
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if op == 'mod':
        return True
    if op == 'poly':
        return all(c > 0 and all(nonneg(a) for a, e in m) for m, c in t.args)
    if op in ('argsort', 'arange'):
        return True
    return False


def nonneg_poly(t):
    l = lower(t)
    return l is not None and l >= 0


# ---------------------------------------------------------------- booleans
def ge0(p):
    """p >= 0 over the integers"""
    if p.op == 'num':
        return boolt(p.args[0] >= 0)
    d = to_poly(p)
    from math import gcd
    cs = [c for m, c in d.items() if m != ()]
    if all(isinstance(c, int) for c in d.values()):
        g = 0
        for c in cs:
            g = gcd(g, abs(c))
        if g > 1:
            k = d.get((), 0)
            d = {m: (c // g) for m, c in d.items()}   # floors the constant: sound for integers
            p = from_poly(d)
            if p.op == 'num':
                return boolt(p.args[0] >= 0)
    if nonneg_poly(p):
        return TRUE
    u = lower(sub(neg(p), ONE))
    if u is not None and u >= 0:
        return FALSE
    # a boolean compared: b-1 >= 0  <=> b
    q = add(p, ONE)
    if isbool(q):
        return q
    if p.op == 'poly' and len(p.args) == 1:
        m, c = p.args[0]
        if c < 0 and len(m) == 1 and m[0][1] == 1 and isbool(m[0][0]):
            return nott(m[0][0])
    r = _minmax_ge0(p)
    if r is not None:
        return r
    return T('ge0', p)


def _minmax_ge0(p):
    """distribute  p >= 0  over one min/max atom with unit coefficient"""
    if p.op in ('min', 'max'):
        ps = [(p, 1, ZERO)]
    elif p.op == 'poly':
        ps = []
        for m, c in p.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('min', 'max') and c in (1, -1):
                ps.append((m[0][0], c, from_poly({mm: cc for mm, cc in p.args if mm != m})))
    else:
        return None
    for a, c, rest in ps:
        conds = [ge0(add(rest, mul(num(c), x))) for x in a.args]
        if (a.op == 'min') == (c == 1):
            return andt(*conds)
        return ort(*conds)
    return None


def isbool(t):
    return t.op in ('ge0', 'eq0', 'and', 'or', 'not', 'any', 'true', 'false', 'bool', 'in', 'isnone', 'opqb')


def eq0(p):
    if p.op == 'num':
        return boolt(p.args[0] == 0)
    if p.op == 'poly':
        d = to_poly(p)
        from math import gcd
        if all(isinstance(c, int) for c in d.values()):
            g = 0
            for c in d.values():
                g = gcd(g, abs(c))
            k = [c for m, c in d.items() if m != ()]
            gg = 0
            for c in k:
                gg = gcd(gg, abs(c))
            if gg > 1 and d.get((), 0) % gg:
                return FALSE
            if g > 1:
                d = {m: c // g for m, c in d.items()}
                p = from_poly(d)
        items = sorted(d.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
        if items and items[-1][1] < 0:
            p = neg(from_poly(d))
    l = lower(sub(p, ONE))
    if l is not None and l >= 0:
        return FALSE
    l = lower(sub(neg(p), ONE))
    if l is not None and l >= 0:
        return FALSE
    # booleans
    if isbool(p):
        return nott(p)
    if p.op == 'poly':
        d = to_poly(p)
        if len(d) == 2 and () in d:
            (m, c), = [(m, c) for m, c in d.items() if m != ()]
            if len(m) == 1 and m[0][1] == 1 and isbool(m[0][0]) and c in (1, -1):
                v = -d[()] * c
                if v == 1:
                    return m[0][0]
                if v == 0:
                    return nott(m[0][0])
                return FALSE
    # subset test  (a & b) == a
    if p.op == 'poly':
        d = to_poly(p)
        if len(d) == 2 and () not in d:
            ms = list(d.items())
            for (m1, c1), (m2, c2) in (ms, ms[::-1]):
                if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
                    x, y = m1[0][0], m2[0][0]
                    if x.op == 'bitand' and y in x.args:
                        other = [z for z in x.args if z is not y]
                        if len(other) == 1:
                            return T('subset', y, other[0])
                    if x.op == 'bitor' and y in x.args:
                        other = [z for z in x.args if z is not y]
                        if len(other) == 1:
                            return T('subset', other[0], y)
    if p.op == 'bitand' and len(p.args) == 2:
        for a, b in (p.args, p.args[::-1]):
            if b.op == 'bitnot':
                return T('subset', a, b.args[0])
    return T('eq0', p)


def nott(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'ge0':
        return ge0(sub(neg(t.args[0]), ONE))
    if t.op == 'and':
        return ort(*[nott(a) for a in t.args])
    if t.op == 'or':
        return andt(*[nott(a) for a in t.args])
    return T('not', t)


def andt(*ts):
    s = set()
    for t in ts:
        if t.op == 'and':
            s.update(t.args)
        elif t is FALSE:
            return FALSE
        elif t is not TRUE:
            s.add(t)
    for t in s:
        if nott(t) in s:
            return FALSE
    # drop weaker linear facts
    ge = [t for t in s if t.op == 'ge0']
    for a in ge:
        for b in ge:
            if a is not b and a in s and b in s:
                d = sub(b.args[0], a.args[0])
                if d.op == 'num' and d.args[0] >= 0:
                    s.discard(b)
    for a in [t for t in s if t.op == 'or']:   # absorption
        if any(x in s for x in a.args):
            s.discard(a)
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return T('and', *sorted(s))


def ort(*ts):
    s = set()
    for t in ts:
        if t.op == 'or':
            s.update(t.args)
        elif t is TRUE:
            return TRUE
        elif t is not FALSE:
            s.add(t)
    for t in s:
        if nott(t) in s:
            return TRUE
    ge = [t for t in s if t.op == 'ge0']
    for a in ge:
        for b in ge:
            if a is not b and a in s and b in s:
                d = sub(b.args[0], a.args[0])
                if d.op == 'num' and d.args[0] >= 0:
                    s.discard(a)
    # integer: p>=1 or -p>=1  <=> p != 0
    for a in [t for t in s if t.op == 'ge0']:
        o = ge0(sub(neg(a.args[0]), num(2)))
        if o in s and a in s and o is not a:
            s.discard(a)
            s.discard(o)
            s.add(nott(eq0(add(a.args[0], ONE))))
    for a in [t for t in s if t.op == 'and']:
        if any(x in s for x in a.args):
            s.discard(a)
    # factor  (a and b) or (a and not b)
    changed = True
    while changed:
        changed = False
        ands = [t for t in s if t.op == 'and']
        for i, a in enumerate(ands):
            for b in ands[i + 1:]:
                sa, sb = set(a.args), set(b.args)
                da, db = sa - sb, sb - sa
                if len(da) == 1 and len(db) == 1 and nott(next(iter(da))) is next(iter(db)):
                    s.discard(a)
                    s.discard(b)
                    s.add(andt(*(sa & sb)))
                    changed = True
                    break
            if changed:
                break
        if not changed:
            # a or (not a and b) -> a or b
            for a in ands:
                if a not in s:
                    continue
                for x in a.args:
                    if nott(x) in s:
                        s.discard(a)
                        s.add(andt(*[y for y in a.args if y is not x]))
                        changed = True
                        break
                if changed:
                    break
    if TRUE in s:
        return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return T('or', *sorted(s))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'str' and b.op == 'str':
        return boolt(a.args == b.args)
    if NONE in (a, b):
        o = b if a is NONE else a
        if o.op in ('num', 'poly', 'seq', 'str', 'tuple', 'cat', 'intof', 'fstr', 'strsym', 'tostr', 'sortedby', 'sorted', 'sortedon'):
            return FALSE
        return T('isnone', o)
    if a.op in ('str', 'strsym', 'fstr') or b.op in ('str', 'strsym', 'fstr'):
        if a.key > b.key:
            a, b = b, a
        return T('bool', 'streq', a, b)
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return andt(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if isbool(a) and isbool(b):
        return ort(andt(a, b), andt(nott(a), nott(b)))
    return eq0(sub(a, b))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return nott(c)
    if isbool(a) and isbool(b):
        return ort(andt(c, a), andt(nott(c), b))
    if a is ONE and b is ZERO and isbool(c):
        return c         # booleans are 0/1 integers
    if a is ZERO and b is ONE and isbool(c):
        return sub(ONE, c)
    # max/min idioms
    if c.op == 'ge0':
        if c.args[0] is sub(a, b) or c.args[0] is sub(sub(a, b), ONE):
            return mx(a, b)
        if c.args[0] is sub(b, a) or c.args[0] is sub(sub(b, a), ONE):
            return mn(a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ge0':
        n = nott(c)
        if n.key < c.key:
            return T('ite', n, b, a)
    return T('ite', c, a, b)


def truth(t):
    if isbool(t):
        return t
    if t.op == 'num':
        return boolt(t.args[0] != 0)
    if t is NONE:
        return FALSE
    if t.op == 'str':
        return boolt(t.args[0] != '')
    if t.op in ('seq', 'cat', 'tuple', 'set', 'dict', 'groupby'):
        return nott(eq0(length(t)))
    if t.op == 'ite':
        return ort(andt(t.args[0], truth(t.args[1])), andt(nott(t.args[0]), truth(t.args[2])))
    if t in NONEABLE:
        return andt(nott(eq(t, NONE)), nott(eq0(t)))
    return nott(eq0(t))


def mx(*ts):
    return _mm('max', ts)


def mn(*ts):
    return _mm('min', ts)


def _mm(op, ts):
    s = set()
    for t in ts:
        if t.op == op:
            s.update(t.args)
        else:
            s.add(t)
    ts = sorted(s)
    keep = []
    for a in ts:
        dom = False
        for b in ts:
            if a is b:
                continue
            d = sub(b, a) if op == 'max' else sub(a, b)
            l = lower(d)
            if l is not None and l >= 0 and not (lower(neg(d)) is not None and lower(neg(d)) >= 0 and a.key < b.key):
                dom = True
        if not dom:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    return T(op, *keep)


# ---------------------------------------------------------------- binders
def bv(h):
    return T('bv', h)


def seq(n, var, guard, body, brk=FALSE):
    """index-lambda; var is a fresh var term occurring free in guard/body/brk"""
    # monotone break: stopping at the first i with brk(i) equals filtering by not brk(i)
    if brk is not FALSE:
        if _monotone(brk, var):
            guard = andt(guard, nott(brk))
            brk = FALSE
    if guard is FALSE:
        return tup()
    if n.op == 'num' and isinstance(n.args[0], int):
        if n.args[0] <= 0:
            return tup()
        if n.args[0] <= 4 and brk is FALSE:
            parts = []
            ok = True
            for j in range(n.args[0]):
                g = subst(guard, {var: num(j)})
                if g is TRUE:
                    parts.append(subst(body, {var: num(j)}))
                elif g is not FALSE:
                    ok = False
            if ok:
                return tup(*parts)
    # constant-index singleton filter  i == e
    if brk is FALSE and guard.op == 'eq0':
        e = _solve(guard.args[0], var)
        if e is not None:
            return tup(subst(body, {var: e}))
    # eta
    if guard is TRUE and brk is FALSE and body.op == 'idx' and body.args[1] is var \
            and var not in body.args[0].fv and length(body.args[0]) is n:
        return body.args[0]
    if guard is TRUE and brk is FALSE and body.op == 'tuple' and False:
        pass
    h = 1 + max(guard.hb, body.hb, brk.hb)
    b = bv(h)
    m = {var: b}
    return T('seq', h, n, _rep(guard, m), _rep(brk, m), _rep(body, m))


def _solve(p, var):
    """p == 0 solved for var when var occurs linearly with unit coefficient"""
    d = to_poly(p)
    c = d.get(((var, 1),))
    if c not in (1, -1):
        return None
    rest = {m: cc for m, cc in d.items() if m != ((var, 1),)}
    r = from_poly(rest)
    if var in r.fv:
        return None
    return mul(num(-c), r)


def _monotone(brk, var):
    if brk.op == 'ge0':
        return _nondec(brk.args[0], var)
    if brk.op == 'any':
        s = brk.args[0]
        if s.op == 'seq':
            n, v, g, k, b = open_seq(s)
            if var in n.fv or k is not FALSE:
                return False
            return _monotone(andt(g, b) if b is not TRUE else g, var)
        return False
    if brk.op == 'or' or brk.op == 'and':
        return all(_monotone(x, var) or var not in x.fv for x in brk.args)
    return var not in brk.fv


def _nondec(p, var):
    d = to_poly(p)
    for m, c in d.items():
        occ = [a for a, e in m if var in a.fv]
        if not occ:
            continue
        if dict(m).get(var) != 1 or len(occ) != 1:
            return False
        rest = [a for a, e in m if a is not var]
        if c < 0 or not all(nonneg(a) for a in rest):
            return False
    return True


_cnt = [0]


def open_seq(s):
    """-> (n, var, guard, brk, body) with a fresh variable ranging over [0,n)"""
    h, n, guard, brk, body = s.args
    v = fresh('i')
    RANGE[v] = (ZERO, sub(n, ONE))
    m = {bv(h): v}
    return n, v, subst(guard, m), subst(brk, m), subst(body, m)


def _rep(t, m):
    """plain replacement without renormalisation"""
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    if not t.args or not (t.fv or t.op in ('bv',) or True):
        return t
    memo = {}

    def go(x):
        if isinstance(x, Term):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                na = tuple(go(a) for a in x.args)
                if all(p is q for p, q in zip(na, x.args)):
                    r = x
                elif x.op == 'poly':
                    r = T('poly', *sorted(na, key=lambda mc: (tuple((a.key, e) for a, e in mc[0]), str(mc[1]))))
                elif x.op in ('and', 'or'):
                    r = T(x.op, *sorted(na))
                elif x.op in ('max', 'min', 'bitand', 'bitor'):
                    r = T(x.op, *sorted(na))
                else:
                    r = T(x.op, *na)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            # monomials must stay sorted
            r = tuple(go(a) for a in x)
            if r and all(isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], Term) and isinstance(a[1], int) for a in r):
                r = tuple(sorted(r, key=lambda z: z[0].key))
            if all(p is q for p, q in zip(r, x)) and len(r) == len(x):
                return x
            return r
        return x
    return go(t)


def subst(t, m):
    """capture-free substitution that rebuilds through the smart constructors"""
    memo = {}

    def hit(x):
        return any(k in _atoms(x) for k in m)

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not hit(x):
            memo[x] = x
            return x
        op, a = x.op, x.args
        if op == 'poly':
            r = ZERO
            for mono, c in a:
                t1 = num(c)
                for at, e in mono:
                    na = go(at)
                    if e > 0:
                        for _ in range(e):
                            t1 = mul(t1, na)
                    else:
                        for _ in range(-e):
                            t1 = mul(t1, inv(na))
                r = add(r, t1)
        elif op == 'seq':
            h, n, g, k, b = a
            v = fresh('s')
            nn = go(n)
            RANGE[v] = (ZERO, sub(nn, ONE))
            mm = {bv(h): v}
            g2, k2, b2 = _rep(g, mm), _rep(k, mm), _rep(b, mm)
            r = seq(nn, v, go(g2), go(b2), go(k2))
        else:
            r = mk(op, *[down(y) for y in a])
        memo[x] = r
        return r

    def down(y):
        if isinstance(y, Term):
            return go(y)
        if isinstance(y, tuple):
            return tuple(down(z) for z in y)
        return y
    return go(t)


_atomcache = {}


def _atoms(t):
    r = _atomcache.get(t)
    if r is None:
        s = {t}
        for a in _subterms_args(t.args):
            s |= _atoms(a)
        r = frozenset(s)
        _atomcache[t] = r
    return r


def mk(op, *a):
    f = _MK.get(op)
    if f:
        return f(*a)
    return T(op, *a)


# ---------------------------------------------------------------- sequences
def tup(*xs):
    return T('tuple', *xs)


def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        elif p.op == 'tuple' and not p.args:
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if res and res[-1].op == 'tuple' and p.op == 'tuple':
            res[-1] = tup(*(res[-1].args + p.args))
        else:
            if res:
                j = _joinable(res[-1], p)
                if j is not None:
                    res[-1] = j
                    continue
            res.append(p)
    if not res:
        return tup()
    if len(res) == 1:
        return res[0]
    return T('cat', *res)


def _joinable(p, q):
    """x[a:m] ++ x[m:b] -> x[a:b];  x[:m] ++ x[m+1:] -> x without m"""
    sp, sq = _as_slice(p), _as_slice(q)
    if sp is None or sq is None or sp[0] is not sq[0]:
        return None
    x, lo1, hi1 = sp
    _, lo2, hi2 = sq
    if lo2 is hi1:
        return slice_(x, lo1, hi2)
    if lo1 is ZERO and lo2 is add(hi1, ONE) and hi2 is length(x):
        n = length(x)
        v = fresh('j')
        RANGE[v] = (ZERO, sub(n, ONE))
        return seq(n, v, nott(eq0(sub(v, hi1))), idx(x, v))
    return None


def _as_slice(p):
    if p.op == 'seq' and p.args[2] is TRUE and p.args[3] is FALSE:
        n, v, g, k, b = open_seq(p)
        if b.op == 'idx' and v not in b.args[0].fv:
            off = sub(b.args[1], v)
            if v not in off.fv:
                return b.args[0], off, add(off, n)
    elif p.op in ('sym',):
        return p, ZERO, length(p)
    return None


def length(x):
    return dim(x, 0)


def rank(t, own=()):
    """number of axes of t, None when unknown, -1 for a value the recurrence itself carries"""
    if t in own or t.op in ('dget', 'idx') and t.args[0] in own:
        return -1
    if t.op == 'cat':
        r = {rank(p, own) for p in t.args} - {-1, None}
        return r.pop() if len(r) == 1 else None
    if t.op == 'ite':
        r = {rank(p, own) for p in t.args[1:]} - {-1}
        return r.pop() if len(r) == 1 else None if r else -1
    if t.op == 'scat':
        return rank(t.args[0], own)
    return ndim(t)


def value_rank(d, own=()):
    """number of axes of the values of a dictionary"""
    if d in own:
        return -1
    if d.op == 'dset':
        r = {value_rank(d.args[0], own), rank(d.args[2], own)} - {-1}
    elif d.op == 'dictlit':
        r = {rank(v, own) for k, v in d.args[0]} - {-1}
    elif d.op == 'ite':
        r = {value_rank(x, own) for x in d.args[1:]} - {-1}
    elif d.op == 'eta':
        c = MU[d.args[0].args[0]]
        if not isinstance(d.args[1], int) or d.args[1] >= len(c['states']):
            return None
        own = own + (d, c['states'][d.args[1]][0])
        r = {value_rank(c['states'][d.args[1]][1], own)} | {
            value_rank(p['vals'][d.args[1]], own) for p in c['paths']}
        r -= {-1}
    else:
        return None
    return r.pop() if len(r) == 1 else None if r else -1


SETLIKE = ('set',)
DICTLIKE = ('dict', 'dictlit', 'dset', 'dsetdefault', 'gappend', 'groupby', 'dupdate')


def kind_of(t, own=()):
    """list, set or dict, None when unknown, '' for a value the recurrence itself carries"""
    if t in own or t.op in ('dget', 'idx') and t.args[0] in own:
        return ''
    if t.op == 'lib' and t.args[0] in ('dgetor', 'dget0') and len(t.args) > 3 and t.args[2] in own:
        return kind_of(t.args[4], own) if len(t.args) > 4 else ''
    if t.op in SETLIKE or t.op == 'lib' and t.args[0].startswith('set.'):
        return 'set'
    if t.op in DICTLIKE or t.op == 'lib' and t.args[0] in ('dupdate', 'dpop'):
        return 'dict'
    if t.op == 'ite':
        r = {kind_of(p, own) for p in t.args[1:]} - {''}
        return r.pop() if len(r) == 1 else None if r else ''
    if t.op in ('tuple', 'cat', 'seq', 'sorted', 'slice'):
        return 'list'
    if t.op == 'eta':
        return kind_of_eta(t, own, kind_of)
    if t.op == 'dget' or t.op == 'idx' and t.args[0].op == 'vals':
        return value_kind(t.args[0] if t.op == 'dget' else t.args[0].args[0], own)
    return 'list' if ndim(t) else None


def kind_of_eta(d, own, f):
    c = MU[d.args[0].args[0]]
    if not isinstance(d.args[1], int) or d.args[1] >= len(c['states']):
        return None
    own = own + (d, c['states'][d.args[1]][0])
    r = {f(c['states'][d.args[1]][1], own)} | {f(p['vals'][d.args[1]], own) for p in c['paths']}
    r -= {''}
    return r.pop() if len(r) == 1 else None if r else ''


def value_kind(d, own=()):
    """what the values of a dictionary are"""
    if d in own:
        return ''
    if d.op == 'dset':
        r = {value_kind(d.args[0], own), kind_of(d.args[2], own)} - {''}
    elif d.op == 'dsetdefault':
        r = {value_kind(d.args[0], own), kind_of(d.args[2], own)} - {''}
    elif d.op == 'gappend':
        r = {value_kind(d.args[0], own), 'list'} - {''}
    elif d.op == 'groupby':
        return 'list'
    elif d.op == 'dict' and d.args[0].op == 'seq' and d.args[0].args[4].op == 'tuple':
        return kind_of(d.args[0].args[4].args[1], own)
    elif d.op == 'dictlit':
        r = {kind_of(v, own) for k, v in d.args[0]} - {''}
    elif d.op == 'ite':
        r = {value_kind(x, own) for x in d.args[1:]} - {''}
    elif d.op == 'eta':
        return kind_of_eta(d, own, value_kind)
    else:
        return None
    return r.pop() if len(r) == 1 else None if r else ''


def of_rank(x, r):
    return tuple(T('dim', x, i) for i in range(r)) if r is not None and r > 0 else () if r == 0 else None


def dims(x):
    """tuple of dimension terms, or None when unknown"""
    op = x.op
    if op == 'sym':
        return SYM[x.args[0]]['dims']
    if op in ('num', 'poly', 'ge0', 'eq0', 'and', 'or', 'not', 'true', 'false', 'any', 'sum', 'pow2', 'bv', 'dim', 'count',
              'max', 'min', 'argmin', 'argmax', 'minr', 'maxr', 'none', 'str', 'mod', 'floordiv', 'isnone', 'subset',
              'bitand', 'strsym', 'fstr', 'abs', 'sqrt', 'tofloat', 'float', 'tostr', 'arrstr', 'bytes', 'bool', 'in', 'obj', 'dictobj'):
        if op == 'poly':
            for m, c in x.args:
                for a, e in m:
                    d = dims(a)
                    if d is None or d != ():
                        return None
        elif op in ('ge0', 'eq0', 'not', 'and', 'or', 'mod', 'floordiv', 'abs', 'sqrt', 'pow2', 'bitand', 'tofloat'):
            for a in x.args:
                if isinstance(a, Term) and dims(a) is None:
                    return None
        return ()
    if op == 'var':
        return ()
    if op == 'seq':
        h, n, g, k, b = x.args
        if k is not FALSE:
            n = T('count', x)
        elif g is not TRUE:
            n = _count(x)
        d = dims(b)
        if d is None:
            return None
        for t in d:
            if bv(h) in _atoms(t):
                return (n,) + (None,) * len(d)
        return (n,) + d
    if op == 'tuple':
        d = dims(x.args[0]) if x.args else ()
        if d is None:
            d = None
            return None
        return (num(len(x.args)),) + d
    if op == 'cat':
        tot = ZERO
        d0 = None
        for p in x.args:
            d = dims(p)
            if d is None or not d:
                return None
            tot = add(tot, d[0])
            if d0 is None or any(t is None for t in d0):
                d0 = d[1:]
        return (tot,) + d0
    if op == 'idx':
        if x.args[0].op == 'vals' and x.args[0].args[0].op == 'groupby':
            return (T('dim', x, 0),)
        if x.args[0].op == 'vals':
            return of_rank(x, value_rank(x.args[0].args[0]))
        d = dims(x.args[0])
        if d is None:
            return None
        if x.args[1].op in ('idx', 'dget') and x.args[1].args[0].op in ('vals', 'eta', 'dset'):
            r = ndim(x.args[1])
            if r is None:
                return None
            return tuple(T('dim', x, i) for i in range(r)) + d[1:] if d else None
        return d[1:] if d else None
    if op == 'dget':
        return of_rank(x, value_rank(x.args[0]))
    if op == 'ite':
        return dims(x.args[1]) if dims(x.args[1]) is not None else dims(x.args[2])
    if op == 'scat':
        return dims(x.args[0])
    if op in ('argsort', 'meet', 'sorted', 'cumsum', 'sortedby', 'sortedrev', 'merged', 'reversed', 'scatrow', 'scatadd', 'sortedon'):
        return dims(x.args[0])
    if op == 'delete':      # along the first axis
        d = dims(x.args[0])
        return (T('dim', x, 0),) + d[1:] if d else None
    if op == 'bits':
        return (T('dim', x, 0),)
    if op == 'call' and x.args[0] == 'rows':
        return (T('dim', x, 0), T('dim', x, 1))
    if op in ('nz0', 'nz1'):
        return (T('count', x),)
    if op in ('set', 'keys', 'vals', 'dict', 'groupby', 'items'):
        return (T('count', x),)
    if op == 'obj':
        return ()
    if op == 'unk' or op == 'opq' or op == 'el':
        return None
    if op == 'attr' and len(x.args) > 2:
        return tuple(T('dim', x, i) for i in range(x.args[2]))
    if op == 'arr':   # ('arr', name/term, dims tuple)
        return x.args[1]
    if op == 'lib':
        d = x.args[1]
        return tuple(T('dim', x, i) for i in range(d)) if d is not None else None
    if op == 'eta':
        d = x.args[2]
        return tuple(T('dim', x, i) for i in range(d)) if isinstance(d, int) else d
    return None


def ndim(x):
    d = dims(x)
    return None if d is None else len(d)


def dim(x, k):
    d = dims(x)
    if d is not None and k < len(d) and d[k] is not None:
        return d[k]
    return T('dim', x, k)


def _count(s):
    """length of a guarded seq"""
    h, n, g, k, b = s.args
    if g.op == 'not' and g.args[0].op == 'eq0':
        v = bv(h)
        e = _solve(g.args[0].args[0], v)
        if e is not None:
            return sub(n, ONE)      # index e is a valid position by construction
    return T('count', T('seq', h, n, g, k, ONE))


def idx(x, i):
    op = x.op
    if i.op == 'seq' or i.op == 'cat' or i.op == 'tuple':
        return gather(x, i)
    if isbool(i) and False:
        return x
    if i.op == 'num' and isinstance(i.args[0], int) and i.args[0] < 0:
        d = dims(x)
        if d and d[0] is not None:
            i = add(d[0], i)
        elif op == 'cat':
            # count from the end
            for p in reversed(x.args):
                n = length(p)
                if n.op != 'num':
                    return idx(p, i) if ge0(add(n, i)) is TRUE else T('idx', x, i)
                if n.args[0] >= -i.args[0]:
                    return idx(p, i)
                i = add(i, n)
            return T('idx', x, i)
        elif op in ('seq', 'scat'):
            return T('idx', x, i)
    if op == 'seq':
        h, n, g, k, b = x.args
        if g is TRUE and k is FALSE:
            return subst(b, {bv(h): i})
        if k is FALSE and g.op == 'not' and g.args[0].op == 'eq0' and False:
            pass
    if op == 'unzip' and i.op == 'num':
        return seqmap(x.args[0], lambda e: idx(e, i))
    if op == 'shape' and i.op == 'num':
        return dim(x.args[0], i.args[0])
    if op == 'tuple' and i.op == 'num':
        j = i.args[0]
        if -len(x.args) <= j < len(x.args):
            return x.args[j]
    if op == 'tuple' and x.args and all(a is x.args[0] for a in x.args):
        return x.args[0]
    if op == 'cat':
        off = ZERO
        for p in x.args:
            n = length(p)
            r = sub(i, off)
            inside = ge0(sub(sub(n, r), ONE))      # r < n
            if inside is TRUE:
                return idx(p, r)
            if inside is not FALSE:
                break
            off = add(off, n)
    if op == 'ite':
        return ite(x.args[0], idx(x.args[1], i), idx(x.args[2], i))
    if op == 'scat':
        base, s = x.args
        if s.op == 'tuple':
            val = None
            for w in reversed(s.args):
                ix, v = w.args
                if ix.op != 'tuple':
                    e = eq(ix, i)
                    if e is TRUE:
                        return v
                    if e is FALSE:
                        continue
                    break
                break
            else:
                return idx(base, i)
        elif s.op == 'seq':
            # region writes with affine index
            n, vv, g, k, b = open_seq(s)
            if b.op == 'tuple' and len(b.args) == 2 and b.args[0].op != 'tuple' and g is TRUE and k is FALSE:
                e = _solve(sub(b.args[0], i), vv)
                if e is not None:
                    inside = andt(ge0(e), ge0(sub(sub(n, e), ONE)))
                    if inside is TRUE:
                        return subst(b.args[1], {vv: e})
                    if inside is FALSE:
                        return idx(base, i)
    if op == 'set' and False:
        pass
    return T('idx', x, i)


def gather(x, ix):
    """x[ix] with an index sequence"""
    if ix.op == 'tuple':
        return tup(*[idx(x, a) for a in ix.args])
    if ix.op == 'cat':
        return cat(*[gather(x, p) for p in ix.args])
    n, v, g, k, b = open_seq(ix)
    return seq(n, v, g, idx(x, b), k)


def slice_(x, lo, hi):
    if lo is ZERO and hi is length(x):
        return x
    if x.op == 'tuple' and lo.op == 'num' and hi.op == 'num':
        return tup(*x.args[lo.args[0]:hi.args[0]])
    if x.op == 'cat':
        # cut along part boundaries when decidable
        off = ZERO
        out = []
        ok = True
        for p in x.args:
            n = length(p)
            a, b = sub(lo, off), sub(hi, off)
            # portion [max(a,0), min(b,n))
            if le(a, ZERO) is TRUE:
                a2 = ZERO
            elif ge(a, n) is TRUE:
                off = add(off, n)
                continue
            elif ge(a, ZERO) is TRUE:
                a2 = a
            else:
                ok = False
                break
            if ge(b, n) is TRUE:
                b2 = n
            elif le(b, ZERO) is TRUE:
                off = add(off, n)
                continue
            elif le(b, n) is TRUE:
                b2 = b
            else:
                ok = False
                break
            out.append(slice_(p, a2, b2))
            off = add(off, n)
        if ok:
            return cat(*out)
    n = sub(hi, lo)
    v = fresh('j')
    RANGE[v] = (ZERO, sub(n, ONE))
    if x.op == 'seq' and x.args[2] is TRUE and x.args[3] is FALSE or dims(x) is not None:
        return seq(n, v, TRUE, idx(x, add(v, lo)))
    return T('slice', x, lo, hi)


def seqmap(x, f):
    """map a python function over the elements of sequence-term x, keeping filters"""
    if x.op == 'tuple':
        return tup(*[f(a) for a in x.args])
    if x.op == 'cat':
        return cat(*[seqmap(p, f) for p in x.args])
    if x.op == 'seq':
        n, v, g, k, b = open_seq(x)
        return seq(n, v, g, f(b), k)
    if x.op == 'ite':
        return ite(x.args[0], seqmap(x.args[1], f), seqmap(x.args[2], f))
    n = length(x)
    v = fresh('m')
    RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, TRUE, f(idx(x, v)))


def ew(f, a, b):
    """elementwise binary operation with broadcasting"""
    na, nb = ndim(a), ndim(b)
    if na == 0 and nb == 0:
        return f(a, b)
    if na is None or nb is None:
        return f(a, b)
    if na == 0:
        return seqmap(b, lambda y: ew(f, a, y))
    if nb == 0:
        return seqmap(a, lambda x: ew(f, x, b))
    if na > nb:
        return seqmap(a, lambda x: ew(f, x, b))
    if nb > na:
        return seqmap(b, lambda y: ew(f, a, y))
    la, lb = length(a), length(b)
    if la is ONE and lb is not ONE:
        a0 = idx(a, ZERO)
        return seqmap(b, lambda y: ew(f, a0, y))
    if lb is ONE and la is not ONE:
        b0 = idx(b, ZERO)
        return seqmap(a, lambda x: ew(f, x, b0))
    return zipmap([a, b], lambda x, y: ew(f, x, y))


def _differ(m, n):
    """do two lengths differ, or may they"""
    d = sub(m, n)
    if d is ZERO or d.op == 'num':
        return d is not ZERO
    return True


def zipmap(xs, f, short=False):
    """map over several sequences in lockstep (short: up to the end of the shortest)"""
    xs = list(xs)
    if short and len(xs) > 1:
        ls = [length(x) for x in xs]
        if any(_differ(m, ls[0]) for m in ls[1:]):
            n = mn(*ls)
            xs = [x if m is n or x.op == 'tuple' and n.op != 'num' else slice_(x, ZERO, n) for x, m in zip(xs, ls)]
    if all(x.op == 'tuple' for x in xs):
        return tup(*[f(*es) for es in zip(*[x.args for x in xs])])
    if len(xs) == 1:
        return seqmap(xs[0], f)
    plain = [x for x in xs if not (x.op == 'seq' and (x.args[2] is not TRUE or x.args[3] is not FALSE))
             and x.op != 'cat']
    cats = [x for x in xs if x.op == 'cat']
    if cats:
        # cut all along the boundaries of the first cat
        c = cats[0]
        off = ZERO
        outs = []
        ok = True
        for p in c.args:
            n = length(p)
            ys = []
            for x in xs:
                if x is c:
                    ys.append(p)
                else:
                    s = slice_(x, off, add(off, n))
                    if s.op == 'slice':
                        ok = False
                    ys.append(s)
            if not ok:
                break
            if n.op == 'num' and n.args[0] == 1:
                ys = [y if y.op == 'tuple' else tup(idx(y, ZERO)) for y in ys]
            outs.append(zipmap(ys, f))
            off = add(off, n)
        if ok:
            return cat(*outs)
        plain = []
    if len(plain) == len(xs):
        n = length(xs[0])
        for x in xs[1:]:
            m = length(x)
            if m is not n and n.op in ('dim', 'count') and m.op not in ('dim', 'count'):
                n = m
        v = fresh('z')
        RANGE[v] = (ZERO, sub(n, ONE))
        return seq(n, v, TRUE, f(*[idx(x, v) for x in xs]))
    # all filtered sequences over the same domain with the same guard
    fs = [x for x in xs if x.op == 'seq']
    if len(fs) == len(xs):
        n0, v, g0, k0, b0 = open_seq(fs[0])
        bodies = [b0]
        ok = True
        for x in fs[1:]:
            h, n, g, k, b = x.args
            m = {bv(h): v}
            if n is not n0 or subst(g, m) is not g0 or subst(k, m) is not k0:
                ok = False
                break
            bodies.append(subst(b, m))
        if ok:
            return seq(n0, v, g0, f(*bodies), k0)
    # positional access into opaque filtered sequences
    n = length(xs[0])
    v = fresh('z')
    RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, TRUE, f(*[T('idx', x, v) if x.op == 'seq' and (x.args[2] is not TRUE or x.args[3] is not FALSE)
                               else idx(x, v) for x in xs]))


def select(x, mask):
    """x[mask], boolean mask"""
    if mask.op == 'seq' and mask.args[2] is TRUE and mask.args[3] is FALSE:
        n, v, g, k, b = open_seq(mask)
        return seq(n, v, truth(b), idx(x, v))
    n = length(mask)
    v = fresh('k')
    RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, truth(idx(mask, v)), idx(x, v))


def where1(mask):
    """positions at which mask holds"""
    n = length(mask)
    v = fresh('w')
    RANGE[v] = (ZERO, sub(n, ONE))
    return seq(n, v, truth(idx(mask, v)), v)


def member(i, s):
    """i in sequence s (of integers)"""
    if s.op == 'tuple':
        return ort(*[eq(i, a) for a in s.args])
    if s.op == 'cat':
        return ort(*[member(i, p) for p in s.args])
    if s.op == 'seq':
        n, v, g, k, b = open_seq(s)
        if k is FALSE:
            e = _solve(sub(b, i), v)
            if e is not None:
                inr = andt(ge0(e), ge0(sub(sub(n, e), ONE)))
                return andt(inr, subst(g, {v: e}))
        return anyt(seq(n, v, andt(g, eq(b, i)), TRUE, k))
    return T('in', i, s)


def delete(x, ix):
    """np.delete(x, ix) along axis 0"""
    n = length(x)
    v = fresh('d')
    RANGE[v] = (ZERO, sub(n, ONE))
    if ix.op in ('seq', 'tuple', 'cat', 'set'):
        g = nott(member(v, ix))
    elif ndim(ix) == 1:
        g = nott(T('in', v, ix))
    elif ndim(ix) is None:
        return T('delete', x, ix)
    else:
        g = nott(eq(v, ix))
    # membership of an in-range index: drop implied range conditions
    if x.op == 'seq' and (x.args[2] is not TRUE or x.args[3] is not FALSE):
        return T('delete', x, ix)
    return seq(n, v, g, idx(x, v))


def anyt(s):
    if s.op == 'tuple':
        return ort(*[truth(a) for a in s.args])
    if s.op == 'cat':
        return ort(*[anyt(p) for p in s.args])
    if s.op == 'seq':
        n, v, g, k, b = open_seq(s)
        if ndim(b):
            c = anyt(b)
        else:
            c = truth(b)
        g2 = andt(g, c)
        if g2 is FALSE:
            return FALSE
        if v not in g2.fv and k is FALSE:
            return andt(g2, ge0(sub(n, ONE)))
        # pull out disjunctions (any distributes over or)
        if g2.op == 'or' and k is FALSE:
            return ort(*[anyt(seq(n, v, c2, TRUE)) for c2 in g2.args])
        # exists i: i == e and ...
        if g2.op == 'eq0' and k is FALSE:
            e = _solve(g2.args[0], v)
            if e is not None:
                return andt(ge0(e), ge0(sub(sub(n, e), ONE)))
        if k is FALSE and g2.op == 'and':
            indep = [c for c in g2.args if v not in c.fv]
            if indep:
                return andt(anyt(seq(n, v, andt(*[c for c in g2.args if v in c.fv]), TRUE)), *indep)
        r = seq(n, v, g2, TRUE, k)
        if r.op == 'tuple':
            return boolt(len(r.args) > 0)
        if r.op == 'seq':
            return T('any', r)
        return anyt(r)
    n = length(s)
    v = fresh('a')
    RANGE[v] = (ZERO, sub(n, ONE))
    if ndim(s) is None:
        return T('any', s)
    return anyt(seq_raw(n, v, TRUE, idx(s, v)))


def seq_raw(n, var, guard, body, brk=FALSE):
    h = 1 + max(guard.hb, body.hb, brk.hb)
    m = {var: bv(h)}
    return T('seq', h, n, _rep(guard, m), _rep(brk, m), _rep(body, m))


def allt(s):
    if s.op == 'tuple':
        return andt(*[truth(a) for a in s.args])
    return nott(anyt(seqmap(s, lambda b: (nott(truth(b)) if not ndim(b) else nott(allt(b))))))


def sumt(s):
    if s.op == 'tuple':
        r = ZERO
        for a in s.args:
            r = add(r, sumt(a) if ndim(a) else a)
        return r
    if s.op == 'cat':
        r = ZERO
        for p in s.args:
            r = add(r, sumt(p))
        return r
    if s.op == 'seq':
        n, v, g, k, b = open_seq(s)
        if ndim(b):
            b = sumt(b)
        return sum_over(n, v, g, b, k)
    if ndim(s) == 1:
        n = length(s)
        v = fresh('u')
        RANGE[v] = (ZERO, sub(n, ONE))
        return sum_over(n, v, TRUE, idx(s, v))
    if ndim(s) == 2:
        n = length(s)
        v = fresh('u')
        RANGE[v] = (ZERO, sub(n, ONE))
        return sum_over(n, v, TRUE, sumt(idx(s, v)))
    return T('sum', s)


def sum_over(n, v, g, b, k=FALSE):
    # guard  i != e
    if k is FALSE and g.op == 'not' and g.args[0].op == 'eq0':
        e = _solve(g.args[0].args[0], v)
        if e is not None:
            return sub(sum_over(n, v, TRUE, b), subst(b, {v: e}))
    if isbool(b) and b not in (TRUE, FALSE):
        g = andt(g, b)
        b = ONE
    if g.op == 'eq0' and k is FALSE:
        e = _solve(g.args[0], v)
        if e is not None:
            return subst(b, {v: e})
    r = ZERO
    for m, c in to_poly(b).items():
        ins = [(a, e) for a, e in m if v in a.fv]
        outs = [(a, e) for a, e in m if v not in a.fv]
        # boolean factors go to the guard
        gg = g
        ins2 = []
        for a, e in ins:
            if isbool(a):
                gg = andt(gg, a)
            else:
                ins2.append((a, e))
        outt = from_poly({tuple(outs): c})
        inner = from_poly({tuple(ins2): 1})
        if inner is ONE and gg is TRUE and k is FALSE:
            r = add(r, mul(outt, n))
            continue
        if gg is FALSE:
            continue
        if inner is v and gg is TRUE and k is FALSE:
            r = add(r, mul(outt, div(mul(n, sub(n, ONE)), num(2))))
            continue
        if gg is not g and k is FALSE and gg.op == 'eq0':
            e = _solve(gg.args[0], v)
            if e is not None:
                r = add(r, mul(outt, subst(inner, {v: e})))
                continue
        s = seq(n, v, gg, inner, k)
        if s.op == 'tuple':
            t = ZERO
            for a in s.args:
                t = add(t, a)
        elif s.op == 'seq' and inner is ONE:
            t = T('count', s)
        else:
            t = T('sum', s)
        r = add(r, mul(outt, t))
    return r


def matmul(a, b):
    na, nb = ndim(a), ndim(b)
    if na == 1 and nb == 1:
        return sumt(zipmap([a, b], mul))
    if na == 2 and nb == 1:
        return seqmap(a, lambda row: sumt(zipmap([row, b], mul)))
    if na == 2 and nb == 2:
        bt = transpose(b)
        return seqmap(a, lambda row: seqmap(bt, lambda col: sumt(zipmap([row, col], mul))))
    if na == 1 and nb == 2:
        return seqmap(transpose(b), lambda col: sumt(zipmap([a, col], mul)))
    return T('matmul', a, b)


def transpose(a):
    d = dims(a)
    if d is None or len(d) < 2:
        if d is not None and len(d) == 1:
            return a
        return T('transpose', a)
    if a.op in ('cat', 'tuple') or (a.op == 'seq' and (a.args[2] is not TRUE or a.args[3] is not FALSE)):
        # rows are not a plain lambda: transpose columnwise
        n1 = dim(a, 1)
        w = fresh('t')
        RANGE[w] = (ZERO, sub(n1, ONE))
        return seq(n1, w, TRUE, seqmap(a, lambda row: idx(row, w)))
    n0, n1 = dim(a, 0), dim(a, 1)
    if a.op == 'seq':
        # inner filter independent of the row?
        n, v, g, k, b = open_seq(a)
        if b.op == 'seq' and (b.args[2] is not TRUE):
            n2, w, g2, k2, b2 = open_seq(b)
            if v not in g2.fv and v not in n2.fv and k2 is FALSE:
                return seq(n2, w, g2, seq(n, v, g, b2, k))
            return T('transpose', a)
    w = fresh('t')
    RANGE[w] = (ZERO, sub(n1, ONE))
    v = fresh('t')
    RANGE[v] = (ZERO, sub(n0, ONE))
    return seq(n1, w, TRUE, seq(n0, v, TRUE, idx(idx(a, v), w)))


def scat(base, writes):
    """a copy of base with the ordered writes (sequence of (index, value))"""
    if writes.op == 'tuple' and not writes.args:
        return base
    if base.op == 'scat':
        return scat(base.args[0], cat(base.args[1], writes))
    if writes.op == 'tuple' and len(writes.args) == 1:
        ix, v = writes.args[0].args
        if v is idx(base, ix) if ix.op != 'tuple' else False:
            return base
    # full overwrite
    if writes.op == 'seq' and writes.args[2] is TRUE and writes.args[3] is FALSE:
        n, v, g, k, b = open_seq(writes)
        if b.op == 'tuple' and len(b.args) == 2 and b.args[0] is v and n is length(base) and ndim(base) == 1:
            return seq(n, v, TRUE, b.args[1])
    return T('scat', base, writes)


def minr(s):
    return T('minr', s)


# ---------------------------------------------------------------- misc
_MK = dict(ge0=ge0, eq0=eq0, max=mx, min=mn, ite=ite, pow2=pow2, idx=idx, tuple=tup, cat=cat, sum=sumt,
           any=anyt, scat=scat, sqrt=sqrt)
_MK['not'] = nott
_MK['and'] = andt
_MK['or'] = ort
_MK['slice'] = slice_
_MK['transpose'] = transpose
_MK['matmul'] = matmul
_MK['in'] = lambda i, s: member(i, s) if s.op in ('seq', 'tuple', 'cat') else T('in', i, s)
_MK['count'] = lambda s: length(s) if s.op in ('tuple', 'cat') else T('count', s)


def _mkdim(x, k):
    d = dims(x)
    if d is not None and k < len(d) and d[k] is not None:
        return d[k]
    return T('dim', x, k)


_MK['dim'] = _mkdim
_MK['delete'] = delete


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op in ('sym', 'var', 'strsym'):
        return a[0]
    if op == 'bv':
        return 'i%d' % a[0]
    if op == 'poly':
        out = []
        for m, c in a:
            ms = '*'.join(show(x) + ('^%d' % e if e != 1 else '') for x, e in m)
            if not ms:
                out.append('%+d' % c if isinstance(c, int) else '+%s' % c)
            elif c == 1:
                out.append('+' + ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s%s*%s' % ('+' if c > 0 else '', c, ms))
        s = ' '.join(out)
        return '(' + (s[1:] if s.startswith('+') else s) + ')'
    if op == 'idx':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if op == 'seq':
        h, n, g, k, b = a
        s = '[%s | i%d<%s' % (show(b), h, show(n))
        if g is not TRUE:
            s += ' if ' + show(g)
        if k is not FALSE:
            s += ' until ' + show(k)
        return s + ']'
    if op == 'tuple':
        return '(' + ', '.join(show(x) for x in a) + ')'
    if op == 'ge0':
        return '%s>=0' % show(a[0])
    if op == 'eq0':
        return '%s==0' % show(a[0])
    if op == 'not':
        return '!(%s)' % show(a[0])
    if op == 'and':
        return '(' + ' & '.join(show(x) for x in a) + ')'
    if op == 'or':
        return '(' + ' | '.join(show(x) for x in a) + ')'
    if op == 'cat':
        return ' ++ '.join(show(x) for x in a)
    return '%s(%s)' % (op, ', '.join(show(x) if isinstance(x, Term) else repr(x) for x in a))


def atoms(t):
    return _atoms(t)


def reset():
    _table.clear()
    _atomcache.clear()
    RANGE.clear()
    SYM.clear()
