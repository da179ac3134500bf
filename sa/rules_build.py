"""Rules over the leaf functions: seed, row system, appended row, expansion of an answer,
and the catalogue of pure functions that is compared with a reference value."""
from .core import *
from .steps import *
from .interp import WIDE
from .rules_steps import span_rows
from .vals import apart, rng
from . import graphs as G
from fractions import Fraction
import itertools
import math

N = {'quick': 120, 'thorough': 800}


def summarize(ctx, key, go, outs=None, mod='srg.solver', limit=600):
    c = ctx.__dict__.setdefault('_sums', {})
    if key not in c:
        I = ctx.I
        n0 = len(I.loops)
        ps = summary(ctx, go, outs or (lambda v: {'ret': I.t(v)}), mod, limit)
        c[key] = ps, I.loops[n0:]
    return c[key]


def evalat(ctx, ps, env, uf=None, loops=(), want=None):
    """-> ('val', dict) | ('raise', exc, path) | ('unknown', why) | ('undef', why, path)"""
    recs = [l for l in loops if l.kind == 'while']
    if recs:
        from .rules_search import run_loops, Escape, Runaway
        try:
            p, ev = run_loops(ctx, ps, recs, env, uf)
        except Escape as e:
            if e.p.kind == 'raise':
                return ('raise', getattr(e.p.exc.cls, 'name', str(e.p.exc.cls)), None)
            p, ev = at(ps, env, uf)
            if p is None:
                return ('unknown', ev)
        except Runaway:
            return ('runaway', 'loop does not end')
        except (Unknown, Undef) as e:
            return ('unknown', str(e))
    else:
        p, ev = at(ps, env, uf)
        if p is None:
            return ('unknown', ev)
    if p.kind == 'raise':
        return ('raise', p.exc, p)
    try:
        for c in p.asm:
            try:
                if ev(c) is False:
                    return ('raise', 'AssertionError', p)
            except (Unknown, Undef):
                pass
        return ('val', {k: ev(t) if isinstance(t, Term) else t for k, t in p.out.items() if want is None or k in want}, p, ev)
    except Unknown as e:
        return ('unknown', str(e))
    except Undef as e:
        return ('undef', str(e), p)


def norm(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict)):
        return [norm(a) for a in x]
    return x


def close(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9)
        except (TypeError, ValueError, OverflowError):
            return False
    return a == b and type(a) in (int, Fraction, str, type(None)) or a == b


def flatten(x):
    if isinstance(x, list):
        for y in x:
            yield from flatten(y)
    else:
        yield x


def too_wide(p, ev):
    """first width event on the path whose value does not fit -> (dtype, value, line, fn) ; count checked"""
    n = 0
    seen = set()
    for e in p.events:
        if e[0] != 'width' or (e[1], e[2]) in seen:
            continue
        seen.add((e[1], e[2]))
        vs = []
        try:
            vs.append(ev(e[2]))
        except (Unknown, Undef):
            for b in rounds(e, ev):
                try:
                    if all(ev(f, b) for f in e[5]):
                        vs.append(ev(e[2], b))
                except (Unknown, Undef):
                    pass
        n += bool(vs)
        for v in vs:
            for y in flatten(v):
                if isinstance(y, bool) or not isinstance(y, int):
                    continue
                lim = WIDE[e[1]]
                if y > lim or y < (-lim - 1 if e[1].startswith('i') else -lim if e[1].startswith('f') else 0):
                    return (e[1], y, getattr(e[3], 'lineno', '?'), e[4]), n
    return None, n


def rounds(e, ev):
    """the rounds of the loops around a value at which it is looked at: first, last and some between"""
    vs = [x for x in e[2].fv if x in tm.RANGE]
    if not 1 <= len(vs) <= 2 or any(x not in tm.RANGE for x in e[2].fv) or len(e) < 6:
        return
    out = [{}]
    for x in vs:
        nxt = []
        for b in out:
            try:
                lo, hi = (ev(y, b) for y in tm.RANGE[x])
            except (Unknown, Undef):
                return
            if not isinstance(lo, int) or not isinstance(hi, int):
                return
            for k in sorted({lo, lo + 1, (lo + hi) // 2, hi - 1, hi}):
                if lo <= k <= hi:
                    nxt.append({**b, x: k})
        out = nxt
    yield from out


RAISES = object()      # what compare expects of arguments that have to be refused


def compare(rep, ctx, rule, q, go, cases, tier, mod='srg.solver', describe=None, raises='bad', check=None, limit=600):
    """cases yields (env, expected); the summary of go at env has to be the expected value"""
    try:
        where = ctx.where(q)
        ps, loops = summarize(ctx, (rule, q), go, None, mod, limit)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return None
    rep.functions.add(where)
    n = 0
    why = {}
    for env, want in cases:
        o = evalat(ctx, ps, env, None, loops)
        if want is RAISES and o[0] in ('raise', 'undef'):
            n += 1
            continue
        if o[0] in ('unknown', 'undef'):
            why[str(o[1])[:80]] = why.get(str(o[1])[:80], 0) + 1
            continue
        d = describe(env) if describe else {k: v for k, v in env.items()}
        if o[0] == 'runaway':
            rep.bad('terminates', where, 'a loop does not end at %s' % str(d)[:300])
            return False
        if o[0] == 'raise':
            if raises == 'bad':
                rep.bad(rule, where, 'raises %s at %s' % (o[1], d))
                return False
            n += 1
            continue
        # what does not fit its element type wraps around in the program, but not in the terms
        over = too_wide(o[2], o[3])[0] if any(e[0] == 'width' for e in o[2].events) else None
        if over:
            if over[0][0] == 'u':
                why['unsigned arithmetic'] = why.get('unsigned arithmetic', 0) + 1
                continue
            rep.bad(rule, '%s line %s (%s)' % (where, over[2], over[3]), 'the value %s does not fit the element type %s at %s' % (over[1], over[0], str(d)[:300]))
            return False
        n += 1
        got = o[1]['ret']
        if want is RAISES:
            rep.bad(rule, where, 'gives %s instead of refusing %s' % (str(norm(got))[:200], str(d)[:300]))
            return False
        w = check(env, got) if check else (None if close(got, want) else 'gives %s instead of %s' % (norm(got), norm(want)))
        if w:
            rep.bad(rule, where, '%s at %s' % (w, d))
            return False
    if n:
        rep.ok(rule, where, 'agree', '%d valuations%s' % (n, ' (undecided: %s)' % why if why else ''))
        rep.count('valuations', n)
        return True
    rep.undecided(rule, where, str(why))
    return None


# ----------------------------------------------------------------- seed

def int_syms(*names):
    return {x: tm.sym(x, (), True) for x in names}


def seed_params():
    for v in list(range(2, 15)) + [70, 300]:
        for k in range(1, v) if v < 16 else (1, 2, 33, v // 2):
            for l in range(0, k) if v < 16 else (0, 1, k // 2, k - 1):
                if k - l - 1 <= v - k - 1 and l >= 0:
                    yield v, k, l


def seed(rep, ctx, tier, rule='seed-well-formed'):
    s = int_syms('v', 'k', 'l', 'u')
    q = 'srg.solver:_seed'

    def go():
        return ctx.call(q, [s['v'], s['k'], s['l'], s['u']])

    def cases():
        r = rng('seed')
        ps = list(seed_params())
        small = [p for p in ps if p[0] < 8]
        rest = [p for p in ps if p[0] >= 8]
        r.shuffle(rest)
        for v, k, l in small + rest[:{'quick': 60, 'thorough': 400}[tier]]:
            # u is determined by counting; a value for it is still passed
            u = k * (k - l - 1) // (v - k - 1) if v > k + 1 else 0
            yield dict(v=v, k=k, l=l, u=u), G.seed(v, k, l, u)
        for v, k, l, u in param_cases(tier, rule, ctx)[{'quick': -150, 'thorough': 0}[tier]:]:
            yield dict(v=v, k=k, l=l, u=u), G.seed(v, k, l, u)
    return compare(rep, ctx, rule, q, go, cases(), tier)


# ----------------------------------------------------------------- row system

def prefixes(ctx, r, n, tier):
    gs = G.all_small()
    big = G.around(r, ctx.sizes(100, (9, 20, 36, 50, 66)), {'quick': 2, 'thorough': 8}[tier], {'quick': 130, 'thorough': 150}[tier])
    for i, (m, (v, k, l, u)) in enumerate(itertools.chain(
            [gs[i % len(gs)] if i < 2 * len(gs) else r.choice(gs[:10]) for i in range(n)], big)):
        if k == 0:
            continue
        M = G.canonical(m, r)
        # a big graph: every other one stops before its last row, so that the new row has all its neighbours known
        R = r.choice([2, v - 1, v - 1, v - 1, r.randint(2, v - 1), r.randint(2, v - 1)]) if i >= n else r.randint(2, v - 1)
        P = [list(row) for row in M[:R]]
        if i % 3 == 2 and R > 2:
            # rows that no graph continues: flip entries, keeping symmetry and the first two rows
            for _ in range(r.randint(1, 3)):
                a = r.randrange(2, R)
                b = r.randrange(2, v)
                if a == b:
                    continue
                P[a][b] ^= 1
                if b < R:
                    P[b][a] ^= 1
        yield P, M, (v, k, l, u), R
        if k == u and v - k >= 3 and i < 2 * n:
            # all neighbours of vertex 0 are ones of the next vertex (not adjacent to 0), and one more is, which
            # has no other neighbour: only the degree of the next vertex is exceeded
            R = k + 2
            P = [list(row) for row in M[:R]]
            for a in range(R):
                P[a][k + 1] = 0
            P[k + 1] = [0] * R + [1] + [0] * (v - R - 1)
            yield P, M, (v, k, l, u), R


def row_spec(P, v, k, l, u):
    R = len(P)
    eqs = []
    known = [P[i][R] for i in range(R)]
    for i in range(R):
        t = l if known[i] else u
        eqs.append(P[i][R + 1:] + [t - sum(P[i][j] * known[j] for j in range(R))])
    eqs.append([1] * (v - R - 1) + [k - sum(known)])
    return eqs, k - sum(known)


def admits(eqs, n):
    for x in itertools.product((0, 1), repeat=n):
        if all(sum(a * y for a, y in zip(e, x)) == e[-1] for e in eqs):
            return True
    return False


def row_system(rep, ctx, tier, rule='row-system-exact', prune='no-solution-discarded', which=('eq', 'prune'),
               reach='infeasible-ends-the-branch-only'):
    q = 'srg.srg:Question.from_matrix'
    R, C = tm.sym('R', (), True), tm.sym('C', (), True)
    M = tm.sym('M', (R, C), True)
    fm = None

    def go():
        return ctx.call(q, [ctx.I.arr(M, ctx.storage())])

    def outs(Q):
        return state_terms(ctx, Q, fm) if isinstance(Q, Obj) else {'ret': ctx.I.t(Q)}
    try:
        fm = fields(ctx)
        where = ctx.where(q)
        ps, loops = summarize(ctx, q, go, outs)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    rep.functions.add(where)
    r = rng('rows')
    n = 0
    why = {}
    for P, full, (v, k, l, u), R_ in prefixes(ctx, r, N[tier], tier):
        env = dict(M=P, R=R_, C=v)
        o = evalat(ctx, ps, env, None, loops)
        eqs, quota = row_spec(P, v, k, l, u)
        nx = v - R_ - 1
        desc = 'first %d rows %s of a (%d,%d,%d,%d) problem' % (R_, P if v < 20 else '', v, k, l, u)
        if o[0] in ('unknown', 'undef'):
            why[str(o[1])[:80]] = why.get(str(o[1])[:80], 0) + 1
            continue
        n += 1
        if o[0] == 'raise':
            if 'reach' in which and not ctx.is_nosol(o[1]):
                rep.bad(reach, '%s line %s' % (where, o[2].line if o[2] else '?'), 'raises %s instead of NoSolution on the %s' % (o[1], desc))
                return
            if 'prune' in which and nx <= 12 and admits(eqs, nx):
                rep.bad(prune, '%s line %s' % (where, o[2].line if o[2] else '?'), 'rejects (%s) the %s, which has a next row' % (o[1], desc))
                return
            continue
        st = o[1]
        w = None
        if 'A' not in st:
            why['no system'] = 1
            continue
        if len(st['bounds']) != nx or any(not isinstance(x, list) or len(x) != nx for x in st['A']) or len(st['A']) != len(st['b']):
            w = 'the system has sizes A %dx%s, b %d, capacities %d for %d unknown entries' % (
                len(st['A']), len(st['A'][0]) if st['A'] and isinstance(st['A'][0], list) else '?', len(st['b']), len(st['bounds']), nx)
        elif any(x != 1 for x in st['bounds']):
            w = 'capacities of single entries are %s' % st['bounds']
        elif st['quota'] != quota:
            w = 'the new row needs %s more neighbours, quota is %s' % (quota, st['quota'])
        elif any(y != -1 for y in st['v']) or list(st['loc']) != list(range(nx)) or st['len'] != nx:
            w = 'the answer starts as %s at %s, length %s' % (st['v'], st['loc'], st['len'])
        else:
            have = [list(row) + [bb] for row, bb in zip(st['A'], st['b'])]
            if nx and span_rows(have) != span_rows(eqs):
                for e in eqs:
                    if span_rows(have + [e]) != span_rows(have):
                        w = 'the condition %s . x = %s is missing; the system is %s' % (e[:-1], e[-1], have)
                        break
                else:
                    for e in have:
                        if span_rows(eqs + [e]) != span_rows(eqs):
                            w = 'the equation %s . x = %s does not follow from the regularity conditions' % (e[:-1], e[-1])
                            break
            elif not nx and any(h[-1] for h in have) != any(e[-1] for e in eqs):
                w = 'contradictory last row is not reflected: %s' % have
        if w:
            if 'eq' in which:
                rep.bad(rule, where, '%s; %s' % (w, desc))
                return
    for kx in which:
        rl = dict(eq=rule, prune=prune, reach=reach)[kx]
        if n:
            rep.ok(rl, where, 'agree', '%d partial matrices%s' % (n, ' (undecided %s)' % why if why else ''))
        else:
            rep.undecided(rl, where, str(why))
    rep.count('valuations', n)


# ----------------------------------------------------------------- appended row

def append_row(rep, ctx, tier, rule='appended-row-symmetric'):
    q = 'srg.srg:SRG.append_and_return_new'
    R, C, n = (tm.sym(x, (), True) for x in ('R', 'C', 'n'))
    M = tm.sym('M', (R, C), True)
    a = tm.sym('a', (n,), True)

    def go():
        s = ctx.call('srg.srg:SRG', [ctx.I.arr(M, ctx.storage())])
        r = ctx.I.call(ctx.I.getattr(s, 'append_and_return_new'), [ctx.I.arr(a, ctx.storage())], {})
        return PyTuple([ctx.I.getattr(r, 'current_matrix'), ctx.I.getattr(s, 'current_matrix')])

    def cases():
        r = rng('append')
        sizes = [x for x in ctx.sizes(140, (20, 40, 66, 100)) for _ in (0, 1, 2)]
        for i in range(N[tier] + len(sizes)):
            c = r.randint(3, 8) if i < N[tier] else max(3, sizes[i - N[tier]] + 1)
            rr = r.randint(2, c - 1) if i < N[tier] else r.choice([c - 1, max(2, c - 2), 2, r.randint(2, c - 1), max(2, c - 4)])
            from .rules_search import Tree
            m = Tree.randm.__get__(type('X', (), {'r': r})())(rr, c)
            x = [r.randint(0, 1) for _ in range(c - rr - 1)]
            want = m + [[row[rr] for row in m] + [0] + x]
            yield dict(M=m, R=rr, C=c, a=x, n=len(x)), [want, m]
            if i % 5 == 0:
                # a solution of another length (two or more, one entry may stand for a whole slice)
                y = [r.randint(0, 1) for _ in range(len(x) + r.choice([2, 3] if len(x) < 4 else [-2, -1, 1, 2]))]
                yield dict(M=m, R=rr, C=c, a=y, n=len(y)), RAISES
    return compare(rep, ctx, rule, q, go, cases(), tier)


def solved(rep, ctx, tier, rule='complete-iff-square'):
    q = 'srg.srg:SRG.solved'
    R, C = tm.sym('R', (), True), tm.sym('C', (), True)
    M = tm.sym('M', (R, C), True)

    def go():
        s = ctx.call('srg.srg:SRG', [ctx.I.arr(M, ctx.storage())])
        return ctx.I.truth(ctx.I.call(ctx.I.getattr(s, 'solved'), [], {}))

    def cases():
        for c in list(range(2, 12)) + ctx.sizes(200, (20, 40, 66, 100, 128, 200)):
            for rr in sorted({2, c // 2, c - 2, c - 1, c} | set(range(2, min(c, 10)))):
                if rr < 2 or rr > c:
                    continue
                yield dict(M=[[0] * c for _ in range(rr)], R=rr, C=c), rr == c
    return compare(rep, ctx, rule, q, go, cases(), tier)


# ----------------------------------------------------------------- answers

def expand(rep, ctx, tier, rule='expansion-exact'):
    q = 'srg.srg:Answer.binarize'
    Nn, L = tm.sym('N', (), True), tm.sym('L', (), True)
    val, loc = tm.sym('val', (Nn,)), tm.sym('loc', (Nn,), True)

    def go():
        a = ctx.call('srg.srg:Answer', [], dict(value=ctx.I.arr(val, ctx.storage()), location=ctx.I.arr(loc, 'int64'), len=L))
        return ctx.I.call(ctx.I.getattr(a, 'binarize'), [], {})

    def cases():
        from .rules_search import binarize
        r = rng('bin')
        sizes = [x for x in ctx.sizes(140, (20, 40, 66, 100)) for _ in (0, 1, 2, 3)]
        for i in range(N[tier] + len(sizes)):
            n = r.randint(1, 6)
            sz = [r.choice([1, 1, 2, 3, 5, 140]) if i % 9 == 8 else r.randint(1, 5) for _ in range(n)]
            if i >= N[tier]:
                z = sizes[i - N[tier]]
                if i % 2:
                    sz[r.randrange(n)] = z
                else:
                    sz = [r.choice([1, 1, 1, 2, 3]) for _ in range(z)]
                    n = z
            loc, s = [], 0
            for z in sz:
                loc.append(s)
                s += z
            v = [r.choice([0, z, r.randint(0, z)]) for z in sz]
            yield dict(val=v, loc=loc, N=n, L=s), binarize(v, loc, s)
    return compare(rep, ctx, rule, q, go, cases(), tier)


# ----------------------------------------------------------------- relabelling and order

def refine(m, col):
    """stable colouring of a symmetric 0/1 matrix with loops, as canonical colour numbers"""
    n = len(m)
    nb = [[j for j in range(n) if m[i][j]] for i in range(n)]
    while True:
        key = [(col[i], tuple(sorted(col[j] for j in nb[i]))) for i in range(n)]
        ks = {k: x for x, k in enumerate(sorted(set(key)))}
        new = [ks[k] for k in key]
        if len(ks) == len(set(col)):
            return new, sorted(key)
        col = new


def isomorphic(a, b, budget=400):
    """is b a simultaneous row/column permutation of a (0/1 symmetric); when the search for one takes too
    long the answer is yes"""
    n = len(a)
    if len(b) != n or any(not isinstance(x, list) or len(x) != n for x in b):
        return False
    for i in range(n):
        for j in range(n):
            if b[i][j] not in (0, 1) or b[i][j] != b[j][i]:
                return False
    left = [budget]

    def rec(ca, cb):
        left[0] -= 1
        if left[0] < 0:
            return True
        ca, ka = refine(a, ca)
        cb, kb = refine(b, cb)
        if ka != kb:
            return False
        size = {}
        for x in ca:
            size[x] = size.get(x, 0) + 1
        many = [x for x in size if size[x] > 1]
        if not many:
            pa = {x: i for i, x in enumerate(ca)}
            p = [pa[x] for x in cb]
            return all(a[p[i]][p[j]] == b[i][j] for i in range(n) for j in range(n))
        t = min(many, key=lambda x: (size[x], x))
        i = ca.index(t)
        for j in range(n):
            if cb[j] == t:
                if rec([2 * x + (y == i) for y, x in enumerate(ca)], [2 * x + (y == j) for y, x in enumerate(cb)]):
                    return True
        return False
    return rec([a[i][i] for i in range(n)], [b[i][i] for i in range(n)])


def random_sym(r, c, d):
    m = [[0] * c for _ in range(c)]
    for a in range(c):
        for b in range(a):
            m[a][b] = m[b][a] = 1 if r.random() < d else 0
    return m


def sym_matrices(r, n, lo=2, hi=7, ctx=None, cap=70, per=2):
    gs = [g for g, p in G.all_small() if len(g) <= 10]
    for i in range(n):
        if i % 3 == 0:
            m = gs[(i // 3) % len(gs)]
            p = list(range(len(m)))
            r.shuffle(p)
            yield G.relabel(m, p)
        else:
            yield random_sym(r, r.randint(lo, hi), r.choice([.2, .5, .5, .8, 1]))
    if ctx is None:
        return
    sizes = ctx.sizes(cap, (8, 13, 16, 22, 36, 64))
    for c in sizes:
        for _ in range(per):
            yield random_sym(r, c, r.choice([.2, .5, .5, .8]))
    for m, p in G.around(r, sizes, 1, cap):
        p = list(range(len(m)))
        r.shuffle(p)
        yield G.relabel(m, p)


def square_sym(name='A'):
    n = tm.sym('n', (), True)
    return n, tm.sym(name, (n, n), True)


def maximize(rep, ctx, tier, rule='relabelling-only'):
    q = 'srg.sorter:maximize'
    n, A = square_sym()

    def go():
        return ctx.call(q, [ctx.I.arr(A, 'int64')])

    def cases():
        for m in sym_matrices(rng('max'), {'quick': 70, 'thorough': 400}[tier], ctx=ctx, cap={'quick': 40, 'thorough': 70}[tier], per=1):
            yield dict(A=m, n=len(m)), None
        for c in (140, 300):
            # vertex 0 is adjacent to all others: one sort, at a size past the range of a byte
            m = random_sym(rng('max' + str(c)), c, .5)
            for a in range(1, c):
                m[0][a] = m[a][0] = 1
            yield dict(A=m, n=c), None

    def check(env, got):
        got = norm(got)
        if got == env['A']:
            return None
        if not isinstance(got, list) or not isomorphic(env['A'], got):
            return 'the result %s is not a relabelling of the argument' % (got,)
    return compare(rep, ctx, rule, q, go, cases(), tier, 'srg.sorter', check=check)


def swaps(rep, ctx, tier, rule='relabelling-only'):
    for name in ('swap', 'swap_and_verify'):
        q = 'srg.sorter:' + name
        n, A = square_sym()
        s = int_syms('i', 'j')

        def go():
            return ctx.call(q, [ctx.I.arr(A, 'int64'), s['i'], s['j']])

        def cases():
            r = rng('swap')
            for m in sym_matrices(r, N[tier], ctx=ctx):
                i, j = r.randrange(len(m)), r.randrange(len(m))
                p = list(range(len(m)))
                p[i], p[j] = p[j], p[i]
                yield dict(A=m, n=len(m), i=i, j=j), G.relabel(m, p)
            for c in (140, 300):
                m = random_sym(r, c, .5)
                i, j = 135, 2
                p = list(range(c))
                p[i], p[j] = p[j], p[i]
                yield dict(A=m, n=c, i=i, j=j), G.relabel(m, p)
        compare(rep, ctx, rule, q, go, cases(), tier, 'srg.sorter')


def triangle(m):
    return [m[i][j] for i in range(len(m)) for j in range(i + 1, len(m))]


def comparator(rep, ctx, tier, rule='order-is-lexicographic'):
    q = 'srg.sorter:_cmp_srg_matrix'
    n, A = square_sym()
    B = tm.sym('B', (n, n), True)

    def go():
        return ctx.call(q, [ctx.I.arr(A, 'int64'), ctx.I.arr(B, 'int64')])

    def cases():
        r = rng('cmp')
        for m in sym_matrices(r, N[tier], ctx=ctx, per=3):
            c = len(m)
            k = r.random()
            m2 = [list(x) for x in m]
            if k < .85 and c > 1:
                for _ in range(1 if k < .6 else 3):
                    i, j = r.sample(range(c) if r.random() < .6 else range(max(0, c - 4), c), 2)
                    m2[i][j] ^= 1
                    m2[j][i] = m2[i][j]
            x, y = (m, m2) if r.random() < .5 else (m2, m)
            yield dict(A=x, B=y, n=c), None

    def check(env, got):
        a, b = triangle(env['A']), triangle(env['B'])
        want = (a > b) - (a < b)
        g = norm(got)
        if not isinstance(g, (int, float)) or (g > 0) - (g < 0) != want:
            return 'comparison gives %s, the upper triangles %s and %s compare as %d' % (g, a, b, want)
    return compare(rep, ctx, rule, q, go, cases(), tier, 'srg.sorter', check=check)


def sorting(rep, ctx, tier, rule='output-is-sorted-permutation'):
    q = 'srg.sorter:sort'
    N_ = tm.sym('N', (), True)
    n = tm.sym('n', (), True)
    S = tm.sym('S', (N_, n, n), True)

    def go():
        return ctx.call(q, [ctx.I.lst_term(S)])

    def cases():
        r = rng('sort')
        def lists():
            for m in sym_matrices(r, {'quick': 40, 'thorough': 200}[tier], hi=5):
                if len(m) <= 5:
                    yield m, r.randint(0, 5)
            for m in sym_matrices(r, 0, ctx=ctx, cap=66, per=1):
                yield m, r.randint(2, 3)
            for x in ctx.sizes(150, (8, 17, 33)):
                yield random_sym(r, r.choice([4, 5, 6]), .5), x
        for m, k in lists():
            c = len(m)
            l = []
            for _ in range(k):
                p = list(range(c))
                if c < 8 or r.random() < .3:
                    r.shuffle(p)
                else:
                    # differ near the end only
                    t = p[c - 4:]
                    r.shuffle(t)
                    p[c - 4:] = t
                l.append(G.relabel(m, p))
            yield dict(S=l, N=len(l), n=c), sorted(l, key=triangle)
    return compare(rep, ctx, rule, q, go, cases(), tier, 'srg.sorter')


# ----------------------------------------------------------------- algebra of parameters

def feasible():
    """parameters of existing graphs and feasible parameter sets"""
    out = []
    for v in range(2, 60):
        for k in range(1, v - 1):
            for l in range(0, k):
                t = k * (k - l - 1)
                if t % (v - k - 1):
                    continue
                u = t // (v - k - 1)
                if u > k or v - 2 - 2 * k + u < 0 or v - 2 * k + l < 0:
                    continue
                d2 = (l - u) ** 2 + 4 * (k - u)
                cf = 2 * k + (v - 1) * (l - u)
                d = math.isqrt(d2)
                if cf == 0:
                    out.append((v, k, l, u))
                elif d * d == d2 and d and cf % d == 0 and (v - 1 - cf // d) % 2 == 0:
                    out.append((v, k, l, u))
    return out


_feas = []


def param_cases(tier, tag, ctx=None):
    if not _feas:
        _feas.extend(feasible())
    r = rng(tag)
    ps = list(_feas)
    r.shuffle(ps)
    conf = [p for p in ps if 2 * p[1] + (p[0] - 1) * (p[2] - p[3]) == 0]
    big = [(61, 30, 14, 15), (101, 50, 24, 25), (80, 78, 76, 78), (77, 16, 0, 4), (100, 22, 0, 6), (275, 112, 30, 56)]
    if ctx:
        fam = [x[0] for x in G.family(400)]
        fam += [(q, (q - 1) // 2, (q - 5) // 4, (q - 1) // 4) for q in (157, 173, 181, 193, 197, 229, 257, 313, 389)]
        for z in ctx.sizes(400, (64, 128, 256)):
            for j in range(4):
                hit = [p for p in fam if z <= p[j] <= z + 2]
                big += r.sample(hit, min(len(hit), 2))
        if tag.split(':')[-1] in ('eig', 'conference', 'complement_vklu', 'assert_srg'):
            # rook's graphs, some of them huge
            for n in (1000, 4099, 20000003, *ctx.marks(10 ** 7)):
                if n > 3:
                    big += [(n * n, 2 * n - 2, n - 2, 2), (n * n, (n - 1) ** 2, (n - 2) ** 2, (n - 1) * (n - 2))]
    return conf[:20] + ps[:{'quick': 500, 'thorough': 5000}[tier]] + big


def fn4(rep, ctx, rule, q, tier, spec, check=None, params=None, mod='srg.utils'):
    s = int_syms('v', 'k', 'l', 'u')

    def go():
        return ctx.call(q, [s['v'], s['k'], s['l'], s['u']])

    def cases():
        for p in params or param_cases(tier, q, ctx):
            yield dict(zip('vklu', p)), spec(*p)
    return compare(rep, ctx, rule, q, go, cases(), tier, mod, check=check)


def complement_params(rep, ctx, tier, rule='complement-parameters'):
    return fn4(rep, ctx, rule, 'srg.utils:complement_vklu', tier,
               lambda v, k, l, u: [v, v - k - 1, v - 2 - 2 * k + u, v - 2 * k + l])


def complement_matrix(rep, ctx, tier, rule='complement-matrix'):
    q = 'srg.utils:complement'
    n, A = square_sym('mat')

    def go():
        return ctx.call(q, [ctx.I.arr(A, 'int64')])

    def cases():
        for m in sym_matrices(rng('comp'), N[tier], ctx=ctx, cap=140):
            yield dict(mat=m, n=len(m)), [[0 if i == j else 1 - a for j, a in enumerate(row)] for i, row in enumerate(m)]
    return compare(rep, ctx, rule, q, go, cases(), tier, 'srg.utils')


def spectrum(rep, ctx, tier, rule='spectrum-identities'):
    # complete graphs have no second parameter
    ps = lambda q: list(param_cases(tier, q, ctx)) + [(v, v - 1, v - 2, u) for v in (3, 4, 5, 7, 10, 17, 30) for u in sorted({0, 1, (v - 1) // 2, v - 1})]
    fn4(rep, ctx, rule, 'srg.utils:conference', tier, lambda v, k, l, u: 2 * k + (v - 1) * (l - u), params=ps('srg.utils:conference'))

    def check(env, got):
        v, k, l, u = (env[x] for x in 'vklu')
        g = got
        if not isinstance(g, list) or any(not isinstance(p, list) or len(p) != 2 for p in g):
            return 'the spectrum is %s' % (norm(g),)
        es = [p[0] for p in g]
        ms = [norm(p[1]) for p in g]
        if len(g) != 3:
            return '%d eigenvalues' % len(g)
        if sum(ms) != v:
            return 'multiplicities %s do not sum to %d' % (ms, v)
        if not close(sum(e * m for e, m in zip(es, ms)), 0):
            return 'the trace of the spectrum %s is %s, not 0' % (norm(g), norm(sum(e * m for e, m in zip(es, ms))))
        if not close(sum(e * e * m for e, m in zip(es, ms)), v * k):
            return 'the squares of the spectrum %s sum to %s, not v*k = %d' % (norm(g), norm(sum(e * e * m for e, m in zip(es, ms))), v * k)
        if not close(es[0], k) or ms[0] != 1:
            return 'the first eigenvalue is %s with multiplicity %s' % (norm(es[0]), ms[0])
        for e in es[1:]:
            if not close(float(e) ** 2 - (l - u) * float(e) - (k - u), 0.0):
                return '%s is not a root of x^2 - (l-u)x - (k-u)' % norm(e)
        if 2 * k + (v - 1) * (l - u):
            d = math.isqrt((l - u) ** 2 + 4 * (k - u))
            if [norm(e) for e in es] != [k, (l - u + d) // 2, (l - u - d) // 2]:
                return 'the eigenvalues %s are not the integers %s' % (norm(es), [k, (l - u + d) // 2, (l - u - d) // 2])
        if not float(es[1]) >= float(es[2]):
            return 'eigenvalues are not in decreasing order: %s' % norm(es)
    fn4(rep, ctx, rule, 'srg.utils:eig', tier, lambda *a: None, check=check, params=ps('srg.utils:eig'))

    def exact(v, k, l, u):
        cf = 2 * k + (v - 1) * (l - u)
        if cf == 0:
            return k * (u - k) ** ((v - 1) // 2)
        d = math.isqrt((l - u) ** 2 + 4 * (k - u))
        r_, s_ = (l - u + d) // 2, (l - u - d) // 2
        f, g = (v - 1 - cf // d) // 2, (v - 1 + cf // d) // 2
        return k * r_ ** f * s_ ** g

    def checkd(env, got):
        want = exact(*(env[x] for x in 'vklu'))
        g = norm(got)
        if isinstance(g, float):
            ok = math.isclose(g, float(want), rel_tol=1e-9) if abs(want) < 1e300 else True
        else:
            ok = g == want
        return None if ok else 'determinant %s, the product of the eigenvalues is %s' % (g, want)
    fn4(rep, ctx, rule, 'srg.utils:determinant', tier, lambda *a: None, check=checkd, params=ps('srg.utils:determinant'))


def assertion(rep, ctx, tier, rule='parameter-equation-checked'):
    """assert_srg accepts exactly the parameters with (v-k-1)u = k(k-l-1)"""
    q = 'srg.utils:assert_srg'
    s = int_syms('v', 'k', 'l', 'u')

    def go():
        return ctx.call(q, [s['v'], s['k'], s['l'], s['u']])
    try:
        where = ctx.where(q)
        ps, loops = summarize(ctx, (rule, q), go, None, 'srg.utils')
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    rep.functions.add(where)
    r = rng(rule)
    good = param_cases(tier, rule, ctx)
    good = good[:80] + good[-60:]
    bad = []
    for p in good:
        p2 = list(p)
        p2[r.randrange(4)] += r.choice([-1, 1, 2])
        if min(p2) >= 0 and (p2[0] - p2[1] - 1) * p2[3] != p2[1] * (p2[1] - p2[2] - 1):
            bad.append(tuple(p2))
    # every small set of numbers; two sides that differ by any small amount, by any constant of the source and its
    # multiples, by a power of two, and by one although both are huge
    diffs = sorted(set(range(1, 1101)) | {2 ** i for i in range(10, 66)} | {c * j for c in ctx.sizes(10 ** 9, (1000, 10 ** 6)) for j in (1, 2, 3)})
    more = list(itertools.product(range(1, 8), range(0, 6), range(0, 5), range(0, 5)))
    more += [(2 + d, 1, 0, 1) for d in diffs] + [(9, d, d - 2, 0) for d in diffs if d > 1]
    for k in (10 ** 3, 10 ** 5, 10 ** 8, 10 ** 10, 3 ** 25):
        for l in (0, k // 3):
            more += [(k + 1 + k * (k - l - 1) + e, k, l, 1) for e in (-1, 0, 1)]
    for p in more:
        ok = (p[0] - p[1] - 1) * p[3] == p[1] * (p[1] - p[2] - 1)
        (good if ok else bad).append(p)
    n = 0
    for p, ok in [(p, True) for p in good] + [(p, False) for p in bad]:
        env = dict(zip('vklu', p))
        ev = Ev(env)
        o = None
        for path in ps:
            try:
                c = all(ev(x) for x in path.conds)
                a = all(ev(x) for x in path.asm)
            except (Unknown, Undef):
                o = 'unknown'
                break
            if c and path.kind != 'raise' and a:
                o = 'accepted'
                break
            if c and (path.kind == 'raise' or not a):
                o = o or 'rejected'
        if o in ('unknown', None):
            continue
        n += 1
        if (o == 'accepted') != ok:
            rep.bad(rule, where, '(%d,%d,%d,%d) is %s although (v-k-1)u = %d and k(k-l-1) = %d' % (
                p + (o, (p[0] - p[1] - 1) * p[3], p[1] * (p[1] - p[2] - 1))))
            return
    if n:
        rep.ok(rule, where, 'agree', '%d parameter sets' % n)
        rep.count('valuations', n)
    else:
        rep.undecided(rule, where, 'not decided')


# ----------------------------------------------------------------- helpers

def partitions(rep, ctx, tier, rule='bounded-compositions-exact'):
    q = 'srg.partition:enum'
    for L in sorted({1, 2, 3, 4, 5, 6, 7} | {z + d for z in ctx.sizes(9, ()) for d in (0, 1) if z >= 7}):
        s = tm.sym('s', (), True)
        bs = [tm.sym('b%d' % i, (), True) for i in range(L)]

        def go():
            return ctx.call(q, [s, ctx.I.lst(list(bs))])

        def pcase(b, x):
            e = {'s': x}
            e.update({'b%d' % i: y for i, y in enumerate(b)})
            return e, None

        def cases():
            r = rng('part%d' % L)
            for i in range(N[tier] // 2 if L < 6 else 12):
                b = [r.randint(0, 3 if L < 4 else 2 if L < 6 else 1 + (i % 4 == 0)) for _ in range(L)]
                yield pcase(b, r.randint(0, sum(b) + 1))
            for z in ctx.marks(5000) if L < 3 else ():
                for s_ in (z - 1, z, z + 1, 2 * z):
                    yield pcase([z + 1] * L, s_)
            for z in ctx.sizes(66 if L < 3 else 20 if L < 4 else 8, (6, 9, 13, 20)[:max(0, 5 - L)]) if L < 6 else ():
                for _ in range(4):
                    b = [r.choice([1, 2, 3]) for _ in range(L)]
                    b[r.randrange(L)] = z
                    if L < 3 and r.random() < .5:
                        b[r.randrange(L)] = z + 1
                    yield pcase(b, r.choice([z, z - 1, sum(b), sum(b) - 1, r.randint(0, sum(b) + 1)]))

        def all_(b, s):
            if len(b) == 1:
                return [[s]] if 0 <= s <= b[0] else []
            return [[y] + t for y in range(max(0, s - sum(b[1:])), min(b[0], s) + 1) for t in all_(b[1:], s - y)]

        def check(env, got):
            g = norm(got)
            want = sorted(all_([env['b%d' % i] for i in range(L)], env['s']))
            if not isinstance(g, list) or sorted(map(list, g)) != want:
                return 'enumerates %s instead of %s' % (g, want)
        compare(rep, ctx, rule + ('' if L == 1 else ':%d' % L), q, go, cases(), tier, 'srg.partition', check=check)


def unique_rt(rep, ctx, tier, rule='reduce-expand-inverse'):
    q1, q2 = 'srg.unique:reduce', 'srg.unique:expand'
    R, C, K = (tm.sym(x, (), True) for x in ('R', 'C', 'K'))
    A = tm.sym('A', (R, C), True)
    B = tm.sym('B', (R, K), True)
    rp = tm.sym('rp', (K,), True)

    def runs(m):
        cols = list(zip(*m))
        out, st = [], []
        for j, c in enumerate(cols):
            if not out or out[-1][0] != c:
                out.append([c, 0])
                st.append(j)
            out[-1][1] += 1
        return [list(x) for x in zip(*[c for c, k in out])], [k for c, k in out], st

    def mats():
        r = rng('uniq')
        sizes = [x for x in ctx.sizes(140, (9, 20, 40, 66)) for _ in (0, 1, 2)]
        for i in range(N[tier] + len(sizes)):
            rr, c, run = r.randint(1, 4), r.randint(1, 7), 3
            if i >= N[tier]:
                z = sizes[i - N[tier]]
                rr, c, run = [(rr, z, 3), (z, c, 3), (rr, z + r.choice([0, 0, 3, 8]), z)][i % 3]
            cols = []
            while len(cols) < c:
                x = [r.randint(0, 1) for _ in range(rr)]
                cols += [x] * (r.randint(1, 3) if run == 3 else r.choice([1, run, run, run + 1]))
            cols = cols[:c]
            yield [[x[i] for x in cols] for i in range(rr)]
        # many different columns
        for z in ctx.sizes(140, (20, 66, 130)):
            rr = z.bit_length() + 2
            xs = r.sample(range(2 ** rr), z + r.randint(0, 3))
            cols = [[x >> i & 1 for i in range(rr)] for x in xs for _ in range(r.choice([1, 1, 2]))]
            yield [[x[i] for x in cols] for i in range(rr)]
        # tall ones whose columns differ in a single row, and columns apart by a constant of the source
        for z in (30, 60, 70, 130):
            for j in (0, -1, z // 2):
                x = [r.randint(0, 1) for _ in range(z)]
                y = x[:]
                y[j] = 1 - y[j]
                cols = [x] * r.randint(1, 2) + [y] * r.randint(1, 2) + [x] * r.randint(0, 1)
                yield [[c[i] for c in cols] for i in range(z)]
        for kw in apart(ctx, r):
            cols = kw['cols']
            yield [[c[i] for c in cols] for i in range(len(cols[0]))]

    def go1():
        return ctx.call(q1, [ctx.I.arr(A, 'int64')])

    def c1():
        for m in mats():
            yield dict(A=m, R=len(m), C=len(m[0])), list(runs(m))

    def go2():
        return ctx.call(q2, [ctx.I.arr(B, 'int64'), ctx.I.arr(rp, 'int64')])

    def c2():
        for m in mats():
            u, k, s = runs(m)
            yield dict(B=u, R=len(u), K=len(k), rp=k), m
    compare(rep, ctx, rule, q1, go1, c1(), tier, 'srg.unique')
    compare(rep, ctx, rule, q2, go2, c2(), tier, 'srg.unique')


def elim_sort(rep, ctx, tier, rule='equation-sort-permutes'):
    """gauss_elim.sort permutes the rows of A and b alike"""
    q = 'srg.gauss_elim:sort'
    R, C = tm.sym('R', (), True), tm.sym('C', (), True)
    A, b = tm.sym('A', (R, C), True), tm.sym('b', (R,), True)

    def go():
        x, y = ctx.I.arr(A, 'int64'), ctx.I.arr(b, 'int64')
        ctx.call(q, [x, y])
        return PyTuple([x, y])

    def cases():
        from .vals import systems
        r = rng('gsort')
        far = [2, 120, 128, 256, 40000, 70000, 2 ** 31 - 5, 2 ** 33] + ctx.marks(2 ** 40)
        for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(minc=1), tier, per=1):
            yield dict(A=env['A'], b=env['b'], R=env['R'], C=env['C']), None
            if i % 4 == 0:
                yield dict(A=env['A'], b=[r.choice(far) + r.randint(-2, 2) for _ in env['b']], R=env['R'], C=env['C']), None

    def check(env, got):
        g = norm(got)
        h = sorted(list(a) + [bb] for a, bb in zip(env['A'], env['b']))
        if sorted(list(a) + [bb] for a, bb in zip(*g)) != h or len(g[0]) != len(g[1]):
            return 'the equations become %s | %s' % tuple(g)
        if list(g[1]) != sorted(env['b']):
            return 'right hand sides are not sorted: %s' % g[1]
    compare(rep, ctx, rule, q, go, cases(), tier, 'srg.gauss_elim', check=check)
