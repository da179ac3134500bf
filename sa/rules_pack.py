"""Exactness of arithmetic: at wide systems and large counts, every array the analysis
gives a fixed-width element type has to hold the value its term denotes."""
from .core import *
from .steps import *
from .vals import apart, rng
from . import rules_build as rb
from .rules_build import flatten, too_wide, rounds
from . import graphs as G


def wide_question(r, kind):
    """systems beyond 64 rows or columns, or with counts beyond a byte"""
    if kind == 'rows':
        R = r.choice([64, 65, 70, 90])
        C = r.randint(2, 4)
        base = [r.randint(0, 1) for _ in range(R)]
        cols = []
        for j in range(C):
            c = list(base)
            if j:
                c[r.choice([0, 1, 2, 5, R - 1])] ^= 1
            if c not in cols or r.random() < .3:
                cols.append(c)
        cols.sort(reverse=True)
        C = len(cols)
        A = [[cols[j][i] for j in range(C)] for i in range(R)]
        size = [r.randint(1, 3) for _ in range(C)]
    elif kind == 'cols':
        C = r.choice([63, 64, 65, 70, 100])
        R = 1
        A = [[1] + [r.randint(0, 1) for _ in range(C - 1)]]
        size = [1] * C
    else:
        C = r.randint(1, 3)
        R = r.randint(1, 3)
        A = [[r.randint(0, 1) for _ in range(C)] for _ in range(R)] + [[1] * C]
        R += 1
        size = [r.choice([130, 200, 300, 300, 40000, 70000]) for _ in range(C)]
    loc, s = [], 0
    for z in size:
        loc.append(s)
        s += z
    x = [r.choice([0, z, r.randint(0, z)]) for z in size]
    b = [sum(a * y for a, y in zip(row, x)) for row in A]
    return dict(A=A, b=b, bounds=list(size), quota=sum(x), val=[-1] * C, loc=loc, L=s, N=C, C=C, R=len(A)), x, list(range(C))


TARGETS = ('reduce_col', 'eliminate', 'zero_in_b', 'only_1_element_in_row', 'fork_enum', 'from_matrix', 'binarize', 'encoders')


def width(rep, ctx, tier, targets=TARGETS, rule='values-fit-their-type'):
    r = rng('width')
    k = {'quick': 6, 'thorough': 30}[tier]
    for tgt in targets:
        n = 0
        cases = []
        try:
            if tgt in STEPS or tgt == FORK:
                where = ctx.where('srg.solver:' + tgt)
                ps, m, loops = step(ctx, tgt)
                for i in range(k):
                    for kind in ('rows', 'cols', 'counts'):
                        env, x, unk = wide_question(r, kind)
                        cases.append((ps, env, 'a system of %d equations in %d unknowns with capacities up to %d' % (
                            env['R'], env['C'], max(env['bounds']))))
            elif tgt == 'from_matrix':
                q = 'srg.srg:Question.from_matrix'
                where = ctx.where(q)
                rb.row_system(Report('x', tier), ctx, 'quick', which=())
                ps = ctx._sums[q][0]
                for prm in [(256, 128, 0, 128), (280, 139, 138, 0), (300, 149, 148, 0), (260, 130, 0, 130), (70000, 35000, 0, 35000), (70000, 34999, 34998, 0)]:
                    v = prm[0]
                    cases.append((ps, dict(M=G.seed(*prm), R=2, C=v), 'the first two rows of a (%d,%d,%d,%d) problem' % prm))
                # many common neighbours among the rows that are there: i and v-1-i are the only non-adjacent pairs
                for v, R in ((280, 200), (300, 299), (520, 400)):
                    cases.append((ps, dict(M=[[int(j not in (i, v - 1 - i)) for j in range(v)] for i in range(R)], R=R, C=v),
                                  'the first %d rows of a (%d,%d,%d,%d) problem' % (R, v, v - 2, v - 4, v - 2)))
            elif tgt == 'binarize':
                q = 'srg.srg:Answer.binarize'
                where = ctx.where(q)
                rb.expand(Report('x', tier), ctx, 'quick', 'w')
                ps = ctx._sums[('w', q)][0]
                for i in range(k):
                    sz = [r.choice([130, 200, 300, 1]) for _ in range(3)]
                    cases.append((ps, dict(val=[r.choice([0, z]) for z in sz], loc=[0, sz[0], sz[0] + sz[1]], N=3, L=sum(sz)),
                                  'buckets of sizes %s' % sz))
            else:
                where = 'srg.gauss_elim / srg.unique encoders'
                cases = list(encoders(ctx, r, k))
        except (Missing, KeyError) as e:
            rep.undecided(rule, tgt, 'anchor %s not found' % e)
            continue
        bad = None
        for ps, env, desc in cases:
            p, ev = at(ps, env)
            if p is None:
                continue
            b, c = too_wide(p, ev)
            n += c
            if b:
                rep.bad(rule, '%s line %s (%s)' % (where, b[2], b[3]), 'the value %s does not fit the element type %s at %s' % (b[1], b[0], desc))
                bad = b
                break
        if bad:
            continue
        rep.functions.add(where)
        if n:
            rep.ok(rule, where, 'agree', '%d array values at %d wide valuations' % (n, len(cases)))
            rep.count('array values checked', n)
        else:
            rep.undecided(rule, where, 'no array value evaluated')


def encoders(ctx, r, k):
    R, C = tm.sym('R', (), True), tm.sym('C', (), True)
    A, b = tm.sym('A', (R, C), True), tm.sym('b', (R,), True)
    for q, two, mod in (('srg.gauss_elim:_encode', True, 'srg.gauss_elim'), ('srg.unique:_encode', False, 'srg.unique'),
                        ('srg.unique:reduce', False, 'srg.unique')):
        if not ctx.has(q):
            continue

        def go():
            dt = ctx.storage()
            a = [ctx.I.arr(A, dt)] + ([ctx.I.arr(b, dt)] if two else [])
            return ctx.call(q, a)
        ps, loops = rb.summarize(ctx, ('enc', q), go, None, mod)
        for i in range(k):
            for kind in ('rows', 'cols'):
                env, x, unk = wide_question(r, kind)
                yield ps, dict(A=env['A'], b=env['b'], R=env['R'], C=env['C']), '%s of a %d x %d matrix' % (q, env['R'], env['C'])


def roundtrip(rep, ctx, tier, rule='packing-round-trip'):
    """decode(encode(A, b)) is A, b; encodings of different columns differ"""
    q1, q2 = 'srg.gauss_elim:_encode', 'srg.gauss_elim:_decode'
    R, C = tm.sym('R', (), True), tm.sym('C', (), True)
    A, b = tm.sym('A', (R, C), True), tm.sym('b', (R,), True)
    r = rng(rule)

    def go():
        dt = ctx.storage()
        return ctx.call(q2, [ctx.call(q1, [ctx.I.arr(A, dt), ctx.I.arr(b, dt)])])

    def cases():
        widths = [1, 2, 3, 5, 8, 63, 64, 65, 90]
        wide = [54, 55, 60, 64, 128, 130, 257, 300, 520] + [z + 1 for z in ctx.sizes(600, (100, 200)) if z > 8]
        for i in range({'quick': 40, 'thorough': 300}[tier] + 2 * len(wide)):
            c = r.choice(widths) if i >= 2 * len(wide) else wide[i // 2]
            n = r.randint(1, 4)
            m = [[r.randint(0, 1) for _ in range(c)] for _ in range(n)]
            if i < 2 * len(wide) and i % 2 or i % 4 == 3:
                # a power of two, one less, one more
                for row in m:
                    e = r.randrange(c) if r.random() < .5 else 0
                    kind = r.randint(0, 2)
                    row[:] = [int(j >= e if kind == 0 else j == e or j == c - 1 and kind == 2) for j in range(c)]
            for row in m:
                if not any(row):
                    row[r.randrange(c)] = 1
            m[r.randrange(n)][0] = 1
            bb = [r.choice([0, 1, 5, 200, 300, 40000]) if ctx.storage() == 'object' or i % 3 else r.choice([0, 1, 5, 200]) for _ in range(n)]
            yield dict(A=m, b=bb, R=n, C=c), [m, bb]
    rb.compare(rep, ctx, rule, q1, go, cases(), tier, 'srg.gauss_elim',
               describe=lambda e: 'a %d x %d matrix %s' % (e['R'], e['C'], e['A'] if e['C'] < 10 else ''))
    q3 = 'srg.unique:_encode'

    def go3():
        return ctx.call(q3, [ctx.I.arr(A, ctx.storage())])

    def cases3():
        for i in range({'quick': 40, 'thorough': 300}[tier]):
            n = r.choice([1, 2, 3, 6, 63, 64, 65, 90])
            base = [r.randint(0, 1) for _ in range(n)]
            cols = [list(base) for _ in range(r.randint(2, 5))]
            for c in cols:
                if r.random() < .7:
                    c[r.choice([0, n - 1, r.randrange(n)])] ^= 1
            yield dict(A=[[c[i] for c in cols] for i in range(n)], R=n, C=len(cols)), None
        for kw in apart(ctx, r):
            cols = kw['cols']
            yield dict(A=[[c[i] for c in cols] for i in range(len(cols[0]))], R=len(cols[0]), C=len(cols)), None

    def check(env, got):
        cols = list(zip(*env['A']))
        g = rb.norm(got)
        if not isinstance(g, list) or len(g) != len(cols):
            return '%s keys for %d columns' % (g, len(cols))
        for i in range(len(cols)):
            for j in range(i):
                if (cols[i] == cols[j]) != (g[i] == g[j]):
                    return 'columns %d and %d are %s but their keys are %s and %s' % (
                        j, i, 'equal' if cols[i] == cols[j] else 'different', g[j], g[i])
    rb.compare(rep, ctx, rule + ':columns', q3, go3, cases3(), tier, 'srg.unique', check=check,
               describe=lambda e: 'a %d x %d matrix' % (e['R'], e['C']))
