"""Rules over what the objects of the search show and accept: constructors and setters, derived views, the
small queries the steps are made of, and the tracing wrapper."""
from .core import *
import ast
import re
from .interp import Builtin, Func, Spread
from .steps import *
from . import rules_build as rb
from .rules_build import compare, N
from .vals import rng, systems


def wellformed(ctx, r, tier, per=1):
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(minc=0 if i % 9 == 0 else 1, tight=i % 2, unit=i % 7 == 3), tier, per=per):
        yield i, env, unk


def refused(rep, ctx, rule, q, go, cases, tier):
    """every case has to raise"""
    try:
        where = ctx.where(q)
        ctx.I.loop_asserts = True
        try:
            ps, loops = rb.summarize(ctx, (rule, q), go, None)
        finally:
            ctx.I.loop_asserts = False
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    rep.functions.add(where)
    n, why, kinds = 0, {}, set()
    for kind, env in cases:
        o = rb.evalat(ctx, ps, env, None, loops)
        if o[0] == 'raise':
            n += 1
            kinds.add(kind)
        elif o[0] == 'val':
            rep.bad(rule, where, 'accepts %s: %s' % (kind, {k: env[k] for k in env if k in ('A', 'b', 'bounds', 'quota', 'val', 'loc', 'L', 'nb', 'nbounds', 'nq', 'val2')}))
            return
        else:
            why[str(o[1])[:80]] = why.get(str(o[1])[:80], 0) + 1
    if n:
        rep.ok(rule, where, 'agree', '%d malformed arguments refused (%s)%s' % (n, ', '.join(sorted(kinds)), ' undecided: %s' % why if why else ''))
        rep.count('valuations', n)
    else:
        rep.undecided(rule, where, str(why))


# ----------------------------------------------------------------- constructors and setters

def broken_answers(r, env, ctx):
    """the same partial answer, spoilt in one way"""
    v, loc, L = env['val'], env['loc'], env['L']
    n = len(v)
    yield 'more values than positions', dict(env, val=v + [-1], N=n)
    if n > 1:
        yield 'more positions than values', dict(env, val=v[:-1])
    yield 'positions not starting at 0', dict(env, loc=[y + 1 for y in loc], L=L + 1)
    if n > 1:
        i = r.randrange(n - 1)
        yield 'a repeated position', dict(env, loc=loc[:i + 1] + [loc[i]] + loc[i + 2:])
    if n > 2 and loc[-1] > loc[1]:
        w = loc[:]
        i = r.randrange(1, n - 1)
        w[i], w[i + 1] = w[i + 1], w[i]
        yield 'positions out of order', dict(env, loc=w)
    yield 'a position beyond the length', dict(env, L=loc[-1])
    if loc[-1] > 0:
        yield 'a position beyond the length', dict(env, L=loc[-1] - r.choice([1, 1, 2]))


def constructors(rep, ctx, tier, rule='malformed-refused', good='well-formed-accepted'):
    I = ctx.I
    dt = ctx.storage()
    s = syms()
    Rb, Cb, Nv = (tm.sym(x, (), True) for x in ('Rb', 'Cb', 'Nv'))
    b, bounds, val = tm.sym('rhs', (Rb,)), tm.sym('caps', (Cb,)), tm.sym('vals', (Nv,))
    qu = tm.sym('qu', ())
    nb, nbounds, nq = tm.sym('nb', (s['R'],)), tm.sym('nbounds', (s['C'],)), tm.sym('nq', ())
    val2 = tm.sym('val2', (s['N'],))
    get = I.getattr

    def answer(v, loc=s['loc'], L=s['L']):
        return ctx.call('srg.srg:Answer', [], dict(value=I.arr(v, dt), location=I.arr(loc, 'int64'), len=L))

    def system(ans=True):
        return ctx.call('srg.srg:Question', [I.arr(s['A'], dt), I.arr(b, dt), qu, I.arr(bounds, dt)],
                        dict(ans=answer(val)) if ans else {})

    def full(env):
        e = dict(env)
        e.update(Rb=len(e['b']), Cb=len(e['bounds']), Nv=len(e['val']), rhs=e['b'], caps=e['bounds'], vals=e['val'], qu=e['quota'])
        return e

    def view(Q):
        a = get(Q, 'answer')
        m = fields(ctx)
        d = I.heap[a.loc].data if isinstance(a, Obj) else {}
        return PyTuple([get(Q, 'A'), get(Q, 'b'), get(Q, 'quota'), get(Q, 'bounds'), d[m['v']], d[m['loc']], d[m['len']]])

    def state(env):
        return [env['A'], env['b'], env['quota'], env['bounds'], env['val'], env['loc'], env['L']]

    def cases():
        for i, env, unk in wellformed(ctx, rng(good), tier):
            yield full(env), state(env)
    q = 'srg.srg:Question.__init__'
    compare(rep, ctx, good, q, lambda: view(system()), cases(), tier)

    def spoilt():
        r = rng(rule + 'Q')
        for i, env, unk in wellformed(ctx, r, tier):
            b_, bd = env['b'], env['bounds']
            yield 'a right hand side too many', full(dict(env, b=b_ + [r.choice([0, 1])]))
            yield 'a right hand side too few', full(dict(env, b=b_[:-1]))
            yield 'a capacity too many', full(dict(env, bounds=bd + [r.choice([0, 1])]))
            if bd:
                yield 'a capacity too few', full(dict(env, bounds=bd[:-1]))
                w = bd[:]
                w[r.choice([0, -1, r.randrange(len(w))])] = r.choice([-1, -1, -2, -7])
                yield 'a negative capacity', full(dict(env, bounds=w))
            w = b_[:]
            w[r.choice([0, -1, r.randrange(len(w))])] = r.choice([-1, -1, -2, -7])
            yield 'a negative right hand side', full(dict(env, b=w))
            yield 'a negative quota', full(dict(env, quota=r.choice([-1, -1, -2, -7])))
    refused(rep, ctx, rule, q, lambda: (system(), NONE)[1], spoilt(), tier)

    # partial answers on their own
    qa = 'srg.srg:Answer.__init__'

    def acases():
        for i, env, unk in wellformed(ctx, rng(good + 'A'), tier):
            yield full(env), [env['val'], env['loc'], env['L']]

    def avig():
        a = answer(val)
        d, m = I.heap[a.loc].data, fields(ctx)
        return PyTuple([d[m['v']], d[m['loc']], d[m['len']]])
    compare(rep, ctx, good, qa, avig, acases(), tier)

    def aspoilt():
        r = rng(rule + 'A')
        for i, env, unk in wellformed(ctx, r, tier):
            for kind, e in broken_answers(r, env, ctx):
                yield kind, full(e)
    refused(rep, ctx, rule, qa, lambda: (answer(val), NONE)[1], aspoilt(), tier)

    # setters
    def assign(name, value):
        def go():
            Q = system()
            I.setattr(Q, name, value())
            return get(Q, name)
        return go

    def old(env):
        return dict(full(env), nb=env['b'], nbounds=env['bounds'], nq=env['quota'])
    for name, new, value in (('b', 'nb', lambda: I.arr(nb, dt)), ('bounds', 'nbounds', lambda: I.arr(nbounds, dt)), ('quota', 'nq', lambda: nq)):
        def scases(good_):
            r = rng(rule + name + str(good_))
            for i, env, unk in wellformed(ctx, r, tier):
                e = old(env)
                if name == 'quota':
                    e['nq'] = r.choice([0, 1, env['quota'] + 1, 200])
                else:
                    e[new] = [r.choice([0, 1, y, y + 1, 200]) for y in e[new]]
                if good_:
                    yield e, e[new]
                    continue
                if name == 'quota':
                    e['nq'] = r.choice([-1, -1, -2, -9])
                elif e[new]:
                    e[new][r.choice([0, -1, r.randrange(len(e[new]))])] = r.choice([-1, -1, -2, -9])
                else:
                    continue
                yield 'a negative value', e
        qs = 'srg.srg:Question.%s' % name
        if not ctx.has(qs):
            qs = 'srg.srg:Question.__init__'
        compare(rep, ctx, good + ':' + name, qs, assign(name, value), scases(True), tier)
        refused(rep, ctx, rule + ':' + name, qs, lambda go=assign(name, value): (go(), NONE)[1], scases(False), tier)

    def ago():
        Q = system()
        a = answer(val2)
        I.setattr(Q, 'answer', a)
        a = get(Q, 'answer')
        d, m = I.heap[a.loc].data, fields(ctx)
        return PyTuple([d[m['v']], d[m['loc']], d[m['len']]])

    def vcases(good_):
        r = rng(rule + 'answer' + str(good_))
        for i, env, unk in wellformed(ctx, r, tier):
            w = [-1 if y == -1 else r.choice([0, 1, 200]) for y in env['val']]
            r.shuffle(w)
            if good_:
                yield dict(full(env), val2=w), [w, env['loc'], env['L']]
                continue
            known = [j for j, y in enumerate(w) if y != -1]
            j = r.randrange(len(w))
            w[j] = 0 if w[j] == -1 else -1
            yield 'an answer with another number of unknowns', dict(full(env), val2=w)
    qs = 'srg.srg:Question.answer' if ctx.has('srg.srg:Question.answer') else 'srg.srg:Question.__init__'
    compare(rep, ctx, good + ':answer', qs, ago, vcases(True), tier)
    refused(rep, ctx, rule + ':answer', qs, lambda: (ago(), NONE)[1], vcases(False), tier)


# ----------------------------------------------------------------- derived views

def views(rep, ctx, tier, rule='derived-view-exact'):
    I = ctx.I
    dt = ctx.storage()
    s = syms()

    def answer():
        return ctx.call('srg.srg:Answer', [], dict(value=I.arr(s['val'], dt), location=I.arr(s['loc'], 'int64'), len=s['L']))

    def widths(e):
        l = e['loc'] + [e['L']]
        return [l[i + 1] - l[i] for i in range(len(e['loc']))]

    def answers():
        r = rng(rule)
        for i, env, unk in wellformed(ctx, r, tier, 2):
            e = dict(env)
            k = r.randrange(6)
            if k == 0:
                e['val'] = [0 if y == -1 else y for y in e['val']]
            elif k == 1:
                e['val'] = [-1] * len(e['val'])
            elif k == 2:
                e['val'] = [r.choice([0, 1]) for y in e['val']]
                e['val'][r.choice([0, -1])] = -1
            yield e
    for name, spec in (('quota', widths), ('unknown_loc', lambda e: [j for j, y in enumerate(e['val']) if y == -1]),
                       ('unknown', lambda e: -1 in e['val'])):
        compare(rep, ctx, rule, 'srg.srg:Answer.' + name, lambda: (I.truth(I.getattr(answer(), name)) if name == 'unknown' else I.getattr(answer(), name)),
                ((e, spec(e)) for e in answers()), tier)
    compare(rep, ctx, rule, 'srg.srg:Answer.__len__', lambda: I.call(Builtin('len'), [answer()], {}), ((e, e['L']) for e in answers()), tier)

    # the empty answer of a given length
    n = tm.sym('n', (), True)

    def dgo():
        a = I.call(I.getattr(ctx.fn('srg.srg:Answer'), 'default'), [n], {})
        d, m = I.heap[a.loc].data, fields(ctx)
        return PyTuple([d[m['v']], d[m['loc']], d[m['len']]])
    compare(rep, ctx, rule, 'srg.srg:Answer.default', dgo,
            ((dict(n=z), [[-1] * z, list(range(z)), z]) for z in [0, 1, 2, 3, 4, 5, 7] + ctx.sizes(300, (20, 130, 300))), tier)

    # parameters read back from a partial matrix
    R, C = tm.sym('R', (), True), tm.sym('C', (), True)
    M = tm.sym('M', (R, C), True)

    def pcases():
        for P, full, par, R_ in rb.prefixes(ctx, rng(rule + 'p'), N[tier] // 2, tier):
            if par[1] < par[0] - 1:
                yield dict(M=P, R=len(P), C=len(P[0])), list(par)
        for v, k, l, u in rb.param_cases(tier, rule, ctx):
            if 0 < k < v - 1 and v <= 400 and (v - k - 1) * u == k * (k - l - 1) and 0 <= l < k and k - l - 1 <= v - k - 1:
                yield dict(M=rb.G.seed(v, k, l, u), R=2, C=v), [v, k, l, u]
    compare(rep, ctx, rule, 'srg.srg:vklu', lambda: ctx.call('srg.srg:vklu', [I.arr(M, dt)]), pcases(), tier)


# ----------------------------------------------------------------- queries the steps are made of

def queries(rep, ctx, tier, rule='query-exact'):
    I = ctx.I
    dt = ctx.storage()
    s = syms()
    A, b, bd = s['A'], s['b'], s['bounds']
    q_, i_ = tm.sym('q', (), True), tm.sym('i', (), True)
    arr = lambda t: I.arr(t, dt)

    def envs(tag, **kw):
        r = rng(rule + tag)
        for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(dict(minc=1, tight=i % 2, sat=i % 3 > 0), **kw), tier):
            e = dict(env)
            e['i'] = r.randrange(e['C'])
            if i % 4 == 1:
                # an equation or capacity of exactly the values around one another
                e['bounds'] = [max(0, r.choice(e['b']) + r.choice([-1, 0, 1])) for _ in e['bounds']]
            elif i % 4 == 2:
                # capacities above every right hand side, some unknown in no equation
                e['bounds'] = [max(e['b'] + [0]) + r.choice([0, 1, 2, 9]) for _ in e['bounds']]
                j = r.randrange(e['C'])
                e['A'] = [[0 if c == j and r.random() < .9 else a for c, a in enumerate(row)] for row in e['A']]
            yield r, e

    def tightened(e):
        return [min([y] + [bb for row, bb in zip(e['A'], e['b']) if row[j]]) for j, y in enumerate(e['bounds'])]

    def tgo():
        x = arr(bd)
        ctx.call('srg.bounds:lower_upper_bound', [arr(A), arr(b), x])
        return x
    compare(rep, ctx, rule, 'srg.bounds:lower_upper_bound', tgo, ((e, tightened(e)) for r, e in envs('t')), tier, 'srg.bounds')

    def zcases():
        for r, e in envs('z'):
            w = [0 if r.random() < .4 else y for y in e['bounds']]
            yield dict(e, bounds=w), [j for j, y in enumerate(w) if y == 0]
        for z in sorted({20, 70, *ctx.marks(300)}):
            for p in (0, .1, .5):
                w = [int(r.random() < p) * r.choice([1, 4, 120]) for _ in range(z + 1)]
                yield dict(e, C=z + 1, bounds=w), [j for j, y in enumerate(w) if y == 0]
    compare(rep, ctx, rule, 'srg.bounds:zero_bound_loc', lambda: ctx.call('srg.bounds:zero_bound_loc', [arr(bd)]), zcases(), tier, 'srg.bounds')

    def ocheck(e, got):
        try:
            g = sorted(list(p) for p in rb.norm(got))
        except TypeError:
            return 'gives %s' % rb.norm(got)
        single = {}
        for i, row in enumerate(e['A']):
            nz = [j for j, a in enumerate(row) if a]
            if len(nz) == 1:
                single.setdefault(nz[0], []).append(i)
        if sorted(c for _, c in g) != sorted(single) or any(len(p) != 2 or p[0] not in single[p[1]] for p in g):
            return 'gives %s, but the columns alone in a row are %s' % (g, single)

    def ogo():
        x = ctx.call('srg.bounds:one_element_row_locs', [arr(A)])
        return I.call(Builtin('sorted'), [x], {})

    def ocases():
        for r, e in envs('o', dens=.3, maxr=6):
            for _ in range(r.choice([0, 1, 2])):
                row = [0] * e['C']
                row[r.choice([0, -1, r.randrange(e['C'])])] = 1
                A_ = e['A'][:]
                A_.insert(r.choice([0, len(A_), r.randrange(len(A_) + 1)]), row)
                e = dict(e, A=A_, R=len(A_))
            yield e, None
    compare(rep, ctx, rule, 'srg.bounds:one_element_row_locs', ogo, ocases(), tier, 'srg.bounds', check=ocheck)

    compare(rep, ctx, rule, 'srg.fork:_pop_col', lambda: ctx.call('srg.fork:_pop_col', [arr(A), i_]),
            ((e, [[row[e['i']] for row in e['A']], [row[:e['i']] + row[e['i'] + 1:] for row in e['A']]]) for r, e in envs('c')), tier, 'srg.fork')
    compare(rep, ctx, rule, 'srg.fork:_pop_ele', lambda: ctx.call('srg.fork:_pop_ele', [arr(bd), i_]),
            ((e, [e['bounds'][e['i']], e['bounds'][:e['i']] + e['bounds'][e['i'] + 1:]]) for r, e in envs('e')), tier, 'srg.fork')

    def split(e):
        y = e['bounds'][e['i']]
        return [[z, e['q'] - z] for z in range(max(0, e['q'] - sum(e['bounds']) + y), min(y, e['q']) + 1)]

    def scases():
        for r, e in envs('s'):
            t = sum(e['bounds'])
            y = e['bounds'][e['i']]
            q = max(0, min(t, r.choice([e['quota'], 0, y, t, t - 1, t - y, t - y + 1, y + 1, r.randint(0, t)])))
            yield dict(e, q=q), split(dict(e, q=q))

    def scheck(e, got):
        w = split(e)
        try:
            # values above the quota are harmless only if refused later; they are not part of the enumeration
            g = sorted(list(p) for p in rb.norm(got) if p[1] >= 0)
        except TypeError:
            return 'gives %s' % rb.norm(got)
        if g != w:
            return 'gives %s instead of %s' % (g, w)
    compare(rep, ctx, rule, 'srg.fork:enum', lambda: I.call(Builtin('list'), [ctx.call('srg.fork:enum', [q_, arr(bd), i_])], {}),
            scases(), tier, 'srg.fork', check=scheck)


# ----------------------------------------------------------------- tracing

# made-up steps, each of which does one thing the decorator could lose or change
PROBES = {
    'probe_returns': 'def probe_returns(Q):\n    return 7\n',
    'probe_raises_quota': 'def probe_raises_quota(Q):\n    Q.quota = Q.quota + 1\n    return [Q.quota]\n',
    'probe_raises_bounds': 'def probe_raises_bounds(Q):\n    Q.bounds = Q.bounds + 1\n    return 0\n',
    'probe_finishes': 'def probe_finishes(Q):\n    Q.answer.%(v)s[Q.answer.unknown_loc] = 0\n    Q.A = Q.A[:, :0]\n    Q.b = Q.b * 0\n    Q.bounds = Q.bounds[:0]\n    Q.quota = 0\n    return [7]\n',
    'probe_infeasible': 'def probe_infeasible(Q):\n    raise NoSolution("infeasible")\n',
    'probe_fails_late': 'def probe_fails_late(Q):\n    Q.quota = Q.quota + 1\n    raise AssertionError("probe")\n',
    'probe_breaks': 'def probe_breaks(Q):\n    raise ValueError("probe")\n',
}


def tracing(rep, ctx, tier, rule='tracing-is-transparent'):
    """debug(step) does to a system what the step does, returns what it returns and raises what it raises"""
    I = ctx.I
    q = 'srg.utils:debug'
    try:
        where = ctx.where(q)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    rep.functions.add(where)
    s = syms()
    for name in STEPS + [FORK] + sorted(PROBES):
        try:
            m = fields(ctx)

            def outs(v):
                o = state_terms(ctx, v[1], m)
                o['ret'] = I.t(v[0])
                return o
            if name in PROBES:
                M = ctx.mod('srg.solver')
                f = Func(ast.parse(PROBES[name] % m).body[0], None, M, name)

                def bare():
                    Q = mkQ(ctx, s)
                    return I.call(f, [Q], {}), Q
                plain, ploops = rb.summarize(ctx, (rule, name, 'bare'), bare, outs)
            else:
                f = ctx.fn('srg.solver:' + name)
                plain, pm, ploops = step(ctx, name)
        except Missing as e:
            rep.undecided(rule, name, 'anchor %s not found' % e)
            continue
        except (AnalysisError, Budget) as e:
            rep.undecided(rule, name, str(e))
            continue

        def go():
            Q = mkQ(ctx, s)
            g = ctx.call(q, [f])
            r = I.call(g, [Q], {})
            return r, Q
        try:
            ps, loops = rb.summarize(ctx, (rule, name), go, outs)
        except (AnalysisError, Budget) as e:
            rep.undecided(rule, name, str(e))
            continue
        r = rng(rule + name)
        n, why = 0, {}
        for i, env, x, unk in systems(ctx, r, N[tier] // 2, lambda i: dict(distinct=name == 'reduce_col' and [None, False][i % 2] or True,
                                                                        minc=1, sat=i % 3 > 0, tight=i % 2), tier, per=1, cap=40):
            a, c = compact(ctx, plain, env, ploops), compact(ctx, ps, env, loops)
            if a[0] in ('unknown', 'undef') or c[0] in ('unknown', 'undef'):
                w = str((a if a[0] in ('unknown', 'undef') else c)[1])[:80]
                why[w] = why.get(w, 0) + 1
                continue
            n += 1
            if a != c:
                rep.bad(rule, where, 'around %s on the system %s it gives %s instead of %s' % (name, {k: env[k] for k in ('A', 'b', 'bounds', 'quota', 'val', 'loc', 'L')}, c, a))
                return
        if n:
            rep.ok(rule, '%s around %s' % (where, name), 'agree', '%d valuations%s' % (n, ' (undecided: %s)' % why if why else ''))
            rep.count('valuations', n)
        else:
            rep.undecided(rule, '%s around %s' % (where, name), str(why))


def compact(ctx, ps, env, loops):
    o = rb.evalat(ctx, ps, env, None, loops)
    if o[0] == 'val':
        return 'val', {k: rb.norm(v) for k, v in o[1].items()}
    if o[0] == 'raise':
        x = o[1]
        return 'raise', x if isinstance(x, str) else getattr(x, 'name', str(x))
    return o


# ----------------------------------------------------------------- texts

INTS = re.compile(r'-?\d+')


def run_in(text, want):
    """is the list of integers a contiguous part of the integers of the text"""
    xs = [int(x) for x in INTS.findall(text)]
    k = len(want)
    return any(xs[i:i + k] == want for i in range(len(xs) - k + 1))


def answer_text(text, e):
    for what, xs in (('values', e['val']), ('positions', e['loc']), ('length', [e['L']])):
        if not run_in(text, list(xs)):
            return 'the text %r of the answer does not show its %s %s' % (text[:300], what, xs)


def system_text(text, e):
    rows = sum(e['A'], [])
    if not any(run_in(text, xs) for xs in (sum(([y] + row for row, y in zip(e['A'], e['b'])), []), sum((row + [y] for row, y in zip(e['A'], e['b'])), []))) and \
            not (run_in(text, rows) and run_in(text, list(e['b']))):
        return 'the text %r does not show the equations %s = %s in order' % (text[:600], e['A'], e['b'])
    if not run_in(text, list(e['bounds'])):
        return 'the text %r does not show the capacities %s' % (text[:600], e['bounds'])
    if not run_in(text, [e['quota']]):
        return 'the text %r does not show the quota %s' % (text[:600], e['quota'])
    return answer_text(text, e)


def texts(rep, ctx, tier, rule='text-shows-state'):
    """the texts of systems, answers and partial graphs show all of their state"""
    I = ctx.I
    s = syms()
    n_, R = tm.sym('c', (), True), tm.sym('r', (), True)
    M = tm.sym('M', (R, n_), True)

    def question(how):
        def go():
            return ctx.I.call(I.getattr(mkQ(ctx, s), how), [], {})
        return go

    def answer():
        return I.call(I.getattr(I.getattr(mkQ(ctx, s), 'answer'), '__repr__'), [], {})

    def matrix():
        return I.call(I.getattr(ctx.call('srg.srg:SRG', [I.arr(M, ctx.storage())]), '__repr__'), [], {})

    def cases(key):
        def go():
            r = rng(rule)
            if key == 'matrix':
                for i in range(N[tier]):
                    c = r.randint(2, 28)
                    rr = r.randint(2, c)
                    yield dict(M=[[r.randint(0, 1) for _ in range(c)] for _ in range(rr)], r=rr, c=c), None
                return
            for i, e, x, unk in systems(ctx, r, N[tier], lambda i: dict(minc=1, tight=i % 2, sat=i % 2 > 0), tier, per=1, cap=28):
                if e['R'] * e['C'] < 900 and len(e['val']) < 900 and e['R'] and e['A']:
                    yield e, None
            for z in sorted({12, 18, 24, 40, 70, 110, 200} | set(ctx.sizes(140, ()))):
                # many equations, and many buckets
                c = max(1, min(5, 900 // z))
                yield dict(A=[[r.randint(0, 1) for _ in range(c)] for _ in range(z)], b=[r.randint(0, 9) for _ in range(z)], bounds=[r.randint(1, 4) for _ in range(c)],
                           quota=r.randint(5, 99), val=[-1] * c + [r.randint(0, 3) for _ in range(z)], loc=list(range(0, 4 * (c + z), 4)), L=4 * (c + z), N=c + z,
                           C=c, R=z), None
        return go()
    for q, go, key, check in (
            ('srg.srg:Answer.__repr__', answer, 'answer', answer_text), ('srg.srg:Question.__repr__', question('__repr__'), 'system', system_text),
            ('srg.srg:Question.__str__', question('__str__'), 'system', system_text),
            ('srg.srg:SRG.__repr__', matrix, 'matrix', lambda t, e: None if run_in(t, sum(e['M'], [])) else 'the text %r does not show the matrix %s' % (t[:300], e['M']))):
        try:
            ctx.where(q)
        except Missing:
            continue        # the text then comes from elsewhere

        def chk(env, got, check=check):
            if not isinstance(got, str):
                raise Unknown('text')
            return check(got, env)
        try:
            compare(rep, ctx, rule, q, go, cases(key), tier, check=chk)
        except (Unknown, AnalysisError, Budget) as e:
            rep.undecided(rule, q, str(e))


COLOURS = ('green', 'blue', 'red', 'yellow')
SINKS = ('click.secho', 'click.echo', 'print', 'sys.stdout.write')


def printing(rep, ctx, tier, rule='printed-once-in-colour'):
    """green(x) prints the text of x once, in green"""
    I = ctx.I
    n_, R = tm.sym('c', (), True), tm.sym('r', (), True)
    M = tm.sym('M', (R, n_), True)
    w = T('strsym', 'w')
    for name in COLOURS:
        q = 'srg.pprint:' + name
        try:
            ctx.mod('srg.pprint')
            f = I.getattr(ctx.mod('srg.pprint'), name) if not hasattr(ctx.mod('srg.pprint'), 'ns') else ctx.mod('srg.pprint').ns.get(name)
            if f is None:
                continue
        except Missing as e:
            rep.undecided(rule, q, str(e))
            return
        n = 0
        why = ''
        for kind, arg in (('matrix', lambda: I.arr(M, 'int64')), ('string', lambda: w)):
            def go():
                return I.call(f, [arg()], {'bold': TRUE})
            try:
                ps, loops = rb.summarize(ctx, (rule, name, kind), go, None, 'srg.pprint')
            except (Missing, AnalysisError, Budget) as e:
                why = str(e)
                continue
            r = rng(rule + name)
            for i in range(30):
                c = r.randint(2, 20)
                rr = r.randint(2, c)
                env = dict(M=[[r.randint(0, 1) for _ in range(c)] for _ in range(rr)], r=rr, c=c, w='**** text %d ****' % i)
                styles = []
                uf = {'click.style': lambda t, *a: t}
                p, ev = at(ps, env, uf)
                if p is None:
                    why = ev
                    continue
                if p.kind == 'raise':
                    rep.bad(rule, 'srg/pprint.py %s' % name, 'raises %s' % p.exc)
                    return
                out, colour, bold = [], [], []
                try:
                    for e in p.events:
                        if e[0] != 'extcall':
                            continue
                        kw = e[5] if len(e) > 5 else {}
                        if e[1] in SINKS + ('click.style',):
                            if 'fg' in kw:
                                colour.append(ev(I.t(kw['fg'])))
                            for k in set(kw) & {'bg', 'blink', 'reverse', 'strikethrough'}:
                                if ev(I.t(kw[k])) not in (None, False):
                                    colour.append('%s=%s' % (k, ev(I.t(kw[k]))))
                            if 'bold' in kw:
                                bold.append(ev(I.t(kw['bold'])))
                        if e[1] in SINKS and e[2]:
                            if any(isinstance(a, Spread) for a in e[2]):
                                raise Unknown('spread')
                            out.append(' '.join(str(ev(I.t(a))) for a in e[2]))
                except (Unknown, Undef) as e:
                    why = str(e)
                    continue
                if not out or not colour:
                    why = 'printed by other means'
                    continue
                n += 1
                want = sum(env['M'], []) if kind == 'matrix' else None
                where = 'srg/pprint.py %s' % name
                if len(out) != 1:
                    rep.bad(rule, where, 'prints %d times: %s' % (len(out), out))
                    return
                if kind == 'matrix' and not run_in(out[0], want) or kind == 'string' and env['w'] not in out[0]:
                    rep.bad(rule, where, 'prints %r for %s' % (out[0], env['M' if kind == 'matrix' else 'w']))
                    return
                if set(colour) != {name}:
                    rep.bad(rule, where, 'prints in %s' % ', '.join(map(str, colour)))
                    return
                if bold and bold[-1] is not True or not bold:
                    rep.bad(rule, where, 'does not pass the keyword bold on')
                    return
        if n:
            rep.ok(rule, 'srg/pprint.py ' + name, 'agree', '%d texts' % n)
            rep.count('valuations', n)
        else:
            rep.undecided(rule, 'srg/pprint.py ' + name, why)
        rep.functions.add('srg/pprint.py ' + name)


PARTS = ['def f0(x): return 2 * x + 1', 'def f1(x): return x * x - 3', 'def f2(x): return x + 7', 'def f3(x): return 5 - 3 * x', 'def f4(x): return x * x + x']
LAST = 'def last(x, y): return 10 * x + y'


def composing(rep, ctx, tier, rule='composed-right-to-left'):
    q = 'srg.pprint:compose'
    I = ctx.I
    x, y = tm.sym('x', (), True), tm.sym('y', (), True)
    # the reference functions of this rule
    fs = [lambda x: 2 * x + 1, lambda x: x * x - 3, lambda x: x + 7, lambda x: 5 - 3 * x, lambda x: x * x + x]
    for k in (0, 1, 2, 3, 5):
        def go(k=k):
            m = ctx.mod('srg.pprint')
            g = [Func(ast.parse(PARTS[i]).body[0], None, m, 'f%d' % i) for i in range(k)] + [Func(ast.parse(LAST).body[0], None, m, 'last')]
            c = ctx.call(q, g)
            return I.call(c, [x, y], {})

        def cases():
            r = rng(rule)
            for i in range(20):
                e = dict(x=r.randint(-9, 20), y=r.randint(-9, 20))
                v = 10 * e['x'] + e['y']
                for f in reversed(fs[:k]):
                    v = f(v)
                yield e, v
        try:
            compare(rep, ctx, '%s' % rule, q, go, cases(), tier, mod='srg.pprint')
        except (AnalysisError, Budget) as e:
            rep.undecided(rule, q, str(e))
        ctx.__dict__.get('_sums', {}).pop((rule, q), None)
