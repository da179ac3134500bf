"""Summaries of the solver's steps on an arbitrary linear system."""
from .core import *
from .vals import rng, question

STEPS = ['reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row']
FORK = 'fork_enum'


def syms(pre=''):
    s = {x: tm.sym(pre + x, (), True) for x in ('R', 'C', 'N', 'L', 'quota')}
    s['A'] = tm.sym(pre + 'A', (s['R'], s['C']), True)
    s['b'] = tm.sym(pre + 'b', (s['R'],), True)
    s['bounds'] = tm.sym(pre + 'bounds', (s['C'],), True)
    s['val'] = tm.sym(pre + 'val', (s['N'],))
    s['loc'] = tm.sym(pre + 'loc', (s['N'],), True)
    return s


def mkQ(ctx, s=None):
    s = s or syms()
    I = ctx.I
    dt = ctx.storage()
    ty = getattr(ctx, '_dtypes', {})
    ans = ctx.call('srg.srg:Answer', [], dict(value=I.arr(s['val'], ty.get('v') or dt), location=I.arr(s['loc'], ty.get('loc') or 'int64'),
                                              len=s['L']))
    Q = ctx.call('srg.srg:Question', [I.arr(s['A'], ty.get('A') or dt), I.arr(s['b'], ty.get('b') or dt), s['quota'],
                                      I.arr(s['bounds'], ty.get('bounds') or dt)],
                 dict(ans=ans))
    return Q


def fieldmap(ctx, Q, s):
    """which field of the objects holds which component"""
    I = ctx.I
    m = {}
    for k, x in I.heap[Q.loc].data.items():
        if isinstance(x, Obj):
            m['ans'] = k
            for k2, y in I.heap[x.loc].data.items():
                t = I.t(y)
                for nm, key in (('val', 'v'), ('loc', 'loc'), ('L', 'len')):
                    if t is s[nm]:
                        m[key] = k2
            continue
        t = I.t(x)
        for nm in ('A', 'b', 'quota', 'bounds'):
            if t is s[nm]:
                m[nm] = k
    # stored in another form: go by the name
    ans = I.heap[I.heap[Q.loc].data[m['ans']].loc].data if 'ans' in m else {}
    for k, at, names in [(k, I.heap[Q.loc].data, (k,)) for k in ('A', 'b', 'quota', 'bounds')] + [
            ('v', ans, ('v', 'val', 'value', 'values')), ('loc', ans, ('loc', 'location', 'locations')), ('len', ans, ('len', 'length'))]:
        if k not in m:
            hit = [x for x in at if x.lstrip('_').lower() in (y.lower() for y in names)]
            if len(hit) == 1:
                m[k] = hit[0]
    for k in ('A', 'b', 'quota', 'bounds', 'ans', 'v', 'loc', 'len'):
        if k not in m:
            raise Missing('field holding ' + k)
    return m


def state_terms(ctx, Q, m):
    I = ctx.I
    d = I.heap[Q.loc].data
    o = {k: I.t(d[m[k]]) for k in ('A', 'b', 'quota', 'bounds')}
    a = d[m['ans']]
    if isinstance(a, Obj):
        e = I.heap[a.loc].data
        for k in ('v', 'loc', 'len'):
            o[k] = I.t(e[m[k]])
    else:
        at_ = I.t(a)
        for k in ('v', 'loc', 'len'):
            o[k] = T('attr', at_, m[k])
    return o


def state_of_value(val, m):
    """components of an evaluated Question object"""
    if not (isinstance(val, tuple) and isinstance(val[1], dict)):
        raise Unknown('child')
    d = val[1]
    a = d[m['ans']]
    if not isinstance(a, tuple):
        raise Unknown('child answer')
    o = {k: d[m[k]] for k in ('A', 'b', 'quota', 'bounds')}
    for k in ('v', 'loc', 'len'):
        o[k] = a[1][m[k]]
    return o


_cache = {}


def step(ctx, name):
    if name in _cache:
        return _cache[name]
    q = 'srg.solver:' + name
    f = ctx.fn(q)
    ctx.dtypes()
    s = syms()
    box = {}

    def go():
        Q = mkQ(ctx, s)
        box['m'] = fieldmap(ctx, Q, s)
        r = ctx.call(f, [Q])
        return r, Q

    def outs(v):
        r, Q = v
        o = state_terms(ctx, Q, box['m'])
        o['ret'] = ctx.I.t(r)
        return o
    n0 = len(ctx.I.loops)
    ps = summary(ctx, go, outs)
    _cache[name] = (ps, box['m'], ctx.I.loops[n0:])
    return _cache[name]


def run_at(ctx, name, env, uf=None):
    """-> ('state', dict) | ('raise', name, path) | ('unknown', why)"""
    ps, m, loops = step(ctx, name)
    p, ev = at(ps, env, uf)
    if p is None:
        return ('endless' if 'comes back' in ev else 'unknown', ev)
    if p.kind == 'raise':
        return ('raise', p.exc, p)
    try:
        for c in p.asm:
            try:
                if ev(c) is False:
                    return ('raise', 'AssertionError', p)
            except Unknown:
                pass
        st = {k: ev(p.out[k]) for k in ('A', 'b', 'quota', 'bounds', 'v', 'loc', 'len')}
        st['ret'] = p.out['ret'], ev
        return ('state', st, p)
    except Endless as e:
        return ('endless', str(e))
    except Unknown as e:
        return ('unknown', str(e))
    except Undef as e:
        return ('undef', str(e), p)


def fields(ctx):
    """the field map, computed once on an arbitrary system"""
    if not hasattr(ctx, '_fm'):
        s = syms()
        box = {}

        def go():
            box['m'] = fieldmap(ctx, mkQ(ctx, s), s)
            return NONE
        ctx.explore(go)
        if 'm' not in box:
            raise Missing('fields of Question')
        ctx._fm = box['m']
    return ctx._fm
