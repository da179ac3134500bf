"""Rules over the solver's steps (reduce, tighten, assign, branch)."""
from .core import *
from .steps import *
from .vals import rng, question, systems
import itertools

N = {'quick': 160, 'thorough': 900}


def brief(env):
    return {k: env[k] for k in ('A', 'b', 'bounds', 'quota', 'val', 'loc', 'L')}


def shape_ok(st):
    C = len(st['bounds'])
    return len(st['A']) == len(st['b']) and all(isinstance(r, list) and len(r) == C for r in st['A'])


def lifted(env, x, unk):
    v = list(env['val'])
    for i, y in zip(unk, x):
        v[i] = y
    return v


def check_state(st, env, vstar, quota_known=True):
    """the planted solution vstar survives in st -> None or what is wrong"""
    if not shape_ok(st):
        return 'the remaining matrix, right hand side and capacities disagree in size: A=%s b=%s bounds=%s' % (st['A'], st['b'], st['bounds'])
    v = st['v']
    if len(v) != len(vstar):
        return 'answer has %d entries instead of %d' % (len(v), len(vstar))
    un = [i for i, y in enumerate(v) if y == -1]
    for i, y in enumerate(v):
        if y != -1 and y != vstar[i]:
            return 'answer position %d is set to %s but the solution of the system has %s there' % (i, y, vstar[i])
    if len(un) != len(st['bounds']):
        return '%d unknown positions for %d columns' % (len(un), len(st['bounds']))
    x = [vstar[i] for i in un]
    for r, (row, bb) in enumerate(zip(st['A'], st['b'])):
        if sum(a * y for a, y in zip(row, x)) != bb:
            return 'equation %d (%s | %s) is not satisfied by the remaining solution %s' % (r, row, bb, x)
    if st['quota'] != sum(x):
        return 'quota %s, but the remaining solution %s sums to %s' % (st['quota'], x, sum(x))
    for j, (y, bb) in enumerate(zip(x, st['bounds'])):
        if y > bb:
            return 'capacity %s of remaining column %d excludes the solution value %s' % (bb, j, y)
    return None


def preserve(rep, ctx, name, tier, rule='solution-preserved', prune_rule='no-solution-discarded', distinct=True):
    """at every valuation with a solution, the step keeps the solution and does not raise"""
    q = 'srg.solver:' + name
    where = ctx.where(q)
    try:
        step(ctx, name)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    r = rng(name + rule)
    n = 0
    seen = 0
    why = {}
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(
            distinct=distinct, minc=0 if i % 9 == 0 else 1, tight=i % 2, unit=i % 7 == 3), tier):
        seen += 1
        o = run_at(ctx, name, env)
        if o[0] in ('unknown', 'endless'):
            why[o[1]] = why.get(o[1], 0) + 1
            continue
        n += 1
        if o[0] == 'undef':
            why['undefined: ' + o[1]] = why.get('undefined: ' + o[1], 0) + 1
            continue
        if o[0] == 'raise':
            rep.bad(prune_rule, '%s raise at %s line %s' % (where, o[2].efn, o[2].line),
                    'raises %s on the system %s, which has the solution %s' % (o[1], brief(env), x))
            break
        bad = check_state(o[1], env, lifted(env, x, unk)) if distinct else None
        if bad:
            rep.bad(rule, where, '%s; system %s with solution %s becomes %s' % (
                bad, brief(env), x, {k: o[1][k] for k in ('A', 'b', 'bounds', 'quota', 'v')}))
            break
    else:
        if n:
            rep.ok(rule, where, 'agree', '%d of %d valuations decided' % (n, seen))
        else:
            rep.undecided(rule, where, str(why))
    rep.count('valuations', n)
    rep.functions.add(where)


def residual(rep, ctx, name, tier, rule='equations-conserved'):
    """for arbitrary x agreeing with what the step assigned, every equation keeps its residual:
    A' x' - b' = A x - b row by row, quota' - sum x' = quota - sum x; an assigned value must be
    certified by an equation of the system"""
    q = 'srg.solver:' + name
    where = ctx.where(q)
    try:
        step(ctx, name)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    r = rng(name + rule)
    n = 0
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(distinct=True, sat=i % 2 == 0, minc=1), tier):
        o = run_at(ctx, name, env)
        if o[0] != 'state':
            continue
        st = o[1]
        n += 1
        w = check_residual(st, env, unk, r)
        if w:
            rep.bad(rule, where, '%s; system %s becomes %s' % (w, brief(env), {k: st[k] for k in ('A', 'b', 'bounds', 'quota', 'v')}))
            return
    if n:
        rep.ok(rule, where, 'agree', '%d valuations' % n)
        rep.count('valuations', n)
    else:
        rep.undecided(rule, where, 'no valuation decided')
    rep.functions.add(where)


P61 = (1 << 61) - 1


def span_rows(rows):
    """reduced row echelon form, over the integers modulo a large prime: equal for equal row spaces"""
    m = []
    for r in rows:
        m.append([a % P61 if isinstance(a, int) else a.numerator * pow(a.denominator, -1, P61) % P61 for a in r])
    if not m:
        return []
    W = len(m[0])
    r0 = 0
    for c in range(W):
        p = next((i for i in range(r0, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r0], m[p] = m[p], m[r0]
        pv = pow(m[r0][c], -1, P61)
        if pv != 1:
            m[r0] = [a * pv % P61 for a in m[r0]]
        row = m[r0]
        for i in range(len(m)):
            f = m[i][c]
            if f and i != r0:
                m[i] = [(a - f * bb) % P61 for a, bb in zip(m[i], row)]
        r0 += 1
        if r0 == len(m):
            break
    return [r for r in m if any(r)]


def check_residual(st, env, unk, r):
    """the equations after the step, together with what it assigned, are equivalent to the
    equations before it"""
    if not shape_ok(st):
        return 'sizes disagree'
    if len(st['v']) != len(env['val']):
        return 'answer length changed'
    un = [i for i, y in enumerate(st['v']) if y == -1]
    for i, (y, y0) in enumerate(zip(st['v'], env['val'])):
        if y0 != -1 and y != y0:
            return 'answer position %d, already %s, is overwritten with %s' % (i, y0, y)
    if list(st['loc']) != list(env['loc']) or st['len'] != env['L']:
        return 'bucket layout changed'
    if len(un) != len(st['bounds']):
        return '%d unknown positions for %d columns' % (len(un), len(st['bounds']))
    C = len(unk)
    ones = [1] * C
    before = [list(row) + [bb] for row, bb in zip(env['A'], env['b'])] + [ones + [env['quota']]]
    after = []
    pos = {p: j for j, p in enumerate(unk)}
    for row, bb in zip(st['A'], st['b']):
        full = [0] * C
        rhs = bb
        for i, a in zip(un, row):
            full[pos[i]] = a
        # the assigned columns come back with their value
        after.append((full, rhs))
    if len(after) == len(env['A']):
        # rows kept in place: compare residuals row by row
        for k, ((full, rhs), row0, b0) in enumerate(zip(after, env['A'], env['b'])):
            for p, j in pos.items():
                y = st['v'][p]
                if y == -1 and full[j] != row0[j]:
                    return 'equation %d: coefficient of unknown position %d changed from %s to %s' % (k, p, row0[j], full[j])
                if y != -1:
                    rhs = rhs + row0[j] * y
            if rhs != b0:
                return 'equation %d: right hand side %s plus what was assigned is %s, it was %s' % (k, after[k][1], rhs, b0)
    q = st['quota'] + sum(st['v'][p] for p in unk if st['v'][p] != -1)
    if q != env['quota']:
        return 'quota %s plus the assigned values gives %s, it was %s' % (st['quota'], q, env['quota'])
    # assigned values need a certificate: a value forced by one equation or by a zero capacity
    for p, j in pos.items():
        y = st['v'][p]
        if y == -1:
            continue
        ok = False
        for row, bb in zip(env['A'], env['b']):
            if row[j] == 1:
                if sum(row) == 1 and bb == y:
                    ok = True
                if y == 0 and bb == 0:
                    ok = True
        if y == 0 and env['bounds'][j] == 0:
            ok = True
        if y == 0 and env['quota'] == 0:
            ok = True
        if not ok:
            # forced by the whole system?
            e = [0] * C
            e[j] = 1
            if span_rows(before) != span_rows(before + [e + [y]]):
                return 'position %d is set to %s without an equation that forces it' % (p, y)
    # capacities may only be tightened by an equation
    for i, bb in zip(un, st['bounds']):
        j = pos[i]
        up = env['bounds'][j]
        low = min([up, env['quota']] + [b0 for row, b0 in zip(env['A'], env['b']) if row[j]])
        if not (low <= bb <= up):
            return 'capacity of unknown position %d becomes %s (was %s, equations allow %s)' % (i, bb, up, low)
    return None


def contradictory(r, i, env, x, unk):
    """the system with a plain contradiction put in, and which"""
    kind = i % 3
    if kind == 0:
        for j, p in enumerate(unk):
            env['val'][p] = x[j]
        env['A'] = [[] for _ in env['A']]
        env['C'] = 0
        env['bounds'] = []
        env['b'] = [0] * env['R']
        env['quota'] = 0
        env['b'][r.randrange(env['R'])] = r.randint(1, 3)
        what = 'no unknown is left and an equation still demands a nonzero sum'
    elif kind == 1:
        if env['quota'] == 0:
            return None, None
        while sum(env['bounds']) >= env['quota']:
            j = r.randrange(env['C'])
            if env['bounds'][j]:
                env['bounds'][j] -= 1
        what = 'the quota exceeds what the capacities admit'
    else:
        kn = [p for p in range(env['N']) if env['val'][p] != -1]
        if not kn:
            return None, None
        p = r.choice(kn)
        size = (env['loc'] + [env['L']])[p + 1] - env['loc'][p]
        env['val'][p] = size + r.randint(1, 2)
        what = 'an assigned value exceeds its bucket'
    return env, what


def infeasible(rep, ctx, names, tier, rule='contradiction-detected'):
    """no round of steps lets through a system whose contradiction is plain:
    no unknown left but a nonzero right hand side, capacities short of the quota,
    an answer above its bucket.  Some step of the round has to reject it."""
    have = []
    for name in names:
        q = 'srg.solver:' + name
        try:
            step(ctx, name)
            have.append(name)
            rep.functions.add(ctx.where(q))
        except Missing as e:
            rep.undecided(rule, q, 'anchor %s not found' % e)
    r = rng(rule)
    n = 0
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(distinct=True, minc=0 if i % 3 == 0 else 1), tier, per=3):
        env, what = contradictory(r, i, env, x, unk)
        if env is None:
            continue
        os_ = [(name, run_at(ctx, name, env)) for name in have]
        if any(o[0] == 'raise' for _, o in os_):
            n += 1
            continue
        if any(o[0] != 'state' for _, o in os_):
            continue
        rep.bad(rule, 'srg.solver: %s' % ', '.join(have), 'every step accepts %s although %s' % (brief(env), what))
        return
    if n:
        rep.ok(rule, ', '.join(have), 'agree', '%d valuations' % n)
        rep.count('valuations', n)
    else:
        rep.undecided(rule, 'srg.solver', 'no valuation decided')


def unsat(rep, ctx, names, tier, rule='infeasible-ends-the-branch-only'):
    """a system without solution makes a step raise NoSolution or nothing, never another exception"""
    for name in names:
        q = 'srg.solver:' + name
        try:
            step(ctx, name)
            where = ctx.where(q)
        except Missing as e:
            rep.undecided(rule, q, 'anchor %s not found' % e)
            continue
        r = rng(name + rule)
        n = 0
        bad = False
        for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(distinct=True, sat=False, minc=1, tight=i % 2), tier, per=1):
            o = run_at(ctx, name, env)
            n += o[0] in ('raise', 'state')
            if o[0] == 'raise' and not ctx.is_nosol(o[1]):
                rep.bad(rule, '%s line %s' % (where, o[2].line if o[2] else '?'), 'raises %s instead of NoSolution on %s' % (o[1], brief(env)))
                bad = True
                break
            if o[0] == 'state' and name == FORK:
                try:
                    children(o, step(ctx, name)[1])
                except (Unknown, Undef):
                    pass
        if n and not bad:
            rep.ok(rule, where, 'agree', '%d systems without solution' % n)
            rep.count('valuations', n)
        elif not bad:
            rep.undecided(rule, where, 'no valuation decided')


def merge(rep, ctx, tier, rule='merge-identical-columns'):
    name = 'reduce_col'
    q = 'srg.solver:' + name
    where = ctx.where(q)
    try:
        step(ctx, name)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    r = rng(rule)
    n = 0
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(
            distinct=False if i % 4 else True, maxc=7, minc=1, maxr=4, known=i % 3 if i % 4 else None), tier, per=4):
        cols = [tuple(row[j] for row in env['A']) for j in range(env['C'])]
        o = run_at(ctx, name, env)
        if o[0] in ('unknown', 'undef', 'endless'):
            continue
        n += 1
        if o[0] == 'raise':
            rep.bad('no-solution-discarded', '%s line %s' % (where, o[2].line), 'raises %s on %s with solution %s' % (o[1], brief(env), x))
            return
        st = o[1]
        # expected grouping
        firsts, groups = [], {}
        for j, c in enumerate(cols):
            groups.setdefault(c, []).append(j)
        reps = [g[0] for g in groups.values()]
        order = list(groups)
        w = None
        if not shape_ok(st):
            w = 'sizes disagree'
        else:
            ncols = [tuple(row[j] for row in st['A']) for j in range(len(st['bounds']))]
            un = [k for k, y in enumerate(st['v']) if y == -1]
            if len(un) != len(ncols):
                w = '%d unknown positions for %d columns' % (len(un), len(ncols))
            elif len(set(ncols)) != len(ncols):
                w = 'identical columns are left unmerged: %s' % (ncols,)
            elif set(ncols) != set(order):
                w = 'columns %s become %s: different columns were merged or a column was lost' % (cols, ncols)
            elif list(st['b']) != env['b'] or st['quota'] != env['quota']:
                w = 'right hand side or quota changed'
            else:
                for c, bb, k in zip(ncols, st['bounds'], un):
                    s = sum(env['bounds'][j] for j in groups[c])
                    if bb != s:
                        w = 'capacity %s for columns of capacity %s' % (bb, [env['bounds'][j] for j in groups[c]])
                        break
                    # the surviving bucket starts where the first of the group starts
                    if st['loc'][k] != env['loc'][unk[groups[c][0]]]:
                        w = 'the merged column %s starts at %s instead of %s' % (c, st['loc'][k], env['loc'][unk[groups[c][0]]])
                        break
                if not w:
                    kn0 = [(l, y) for l, y in zip(env['loc'], env['val']) if y != -1]
                    kn1 = [(l, y) for l, y in zip(st['loc'], st['v']) if y != -1]
                    if kn0 != kn1 or st['len'] != env['L']:
                        w = 'assigned buckets or total length changed'
        if w:
            rep.bad(rule, where, '%s; system %s becomes %s' % (w, brief(env), {k: st[k] for k in ('A', 'b', 'bounds', 'v', 'loc')}))
            return
    if n:
        rep.ok(rule, where, 'agree', '%d valuations' % n)
        rep.count('valuations', n)
    else:
        rep.undecided(rule, where, 'no valuation decided')
    rep.functions.add(where)


def ends(rep, ctx, tier, rule='step-ends'):
    """no loop inside a step comes back to the same state"""
    from .rules_elim import antichain
    for name in STEPS + [FORK]:
        q = 'srg.solver:' + name
        where = ctx.where(q)
        try:
            step(ctx, name)
        except Missing as e:
            rep.undecided(rule, q, 'anchor %s not found' % e)
            continue
        r = rng(rule + name)
        n = 0
        many = [(0, antichain(r, None, z), None, None) for z in [5, 12, 30] + [z + 2 for z in ctx.marks(70)]]
        for i, env, x, unk in itertools.chain(systems(ctx, r, N[tier] // 2, lambda i: dict(distinct=True, sat=i % 3 > 0, minc=1, tight=i % 2), tier), many):
            o = run_at(ctx, name, env)
            if o[0] == 'endless':
                rep.bad(rule, where, '%s on the system %s' % (o[1], brief(env)))
                break
            n += o[0] != 'unknown'
        else:
            if n:
                rep.ok(rule, where, 'agree', '%d valuations' % n)
            else:
                rep.undecided(rule, where, 'no valuation decided')
        rep.count('valuations', n)
        rep.functions.add(where)


def children(o, m):
    t, ev = o[1]['ret']
    val = ev(t)
    if not isinstance(val, list):
        raise Unknown('children')
    return [state_of_value(c, m) for c in val]


def fork(rep, ctx, tier, rules=('cover', 'account')):
    name = FORK
    q = 'srg.solver:' + name
    where = ctx.where(q)
    R1, R2 = 'no-branch-discarded' if 'lost' in rules else 'branch-covers-every-value-once', 'branch-accounting'
    try:
        ps, m, loops = step(ctx, name)
    except Missing as e:
        rep.undecided(R1, q, 'anchor %s not found' % e)
        return
    r = rng('fork')
    n = 0
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(distinct=True, minc=1, tight=i % 2), tier):
        o = run_at(ctx, name, env)
        if o[0] == 'raise':
            if 'cover' in rules or 'lost' in rules:
                rep.bad(R1, '%s line %s' % (where, o[2].line), 'raises %s on %s with solution %s' % (o[1], brief(env), x))
            return
        if o[0] != 'state':
            continue
        try:
            ch = children(o, m)
        except (Unknown, Undef):
            continue
        n += 1
        seen = {}
        hit = []
        for k, c in enumerate(ch):
            if not shape_ok(c) or len(c['v']) != len(env['val']):
                if 'account' in rules:
                    rep.bad(R2, where, 'child %d has inconsistent sizes %s for %s' % (k, c, brief(env)))
                return
            new = [p for p in unk if c['v'][p] != -1]
            w = check_residual(c, env, unk, r) if False else account(c, env, unk)
            if w:
                if 'account' in rules:
                    rep.bad(R2, where, '%s; child %s of %s' % (w, {z: c[z] for z in ('A', 'b', 'bounds', 'quota', 'v')}, brief(env)))
                    return
                if 'negative' in w:
                    rep.bad(R1, where, '%s: a branch that cannot even be set up, the others are not reached; branch %s of %s' % (w, list(c['v']), brief(env)))
                    return
            key = tuple(c['v'])
            if key in seen and 'cover' in rules:
                rep.bad(R1, where, 'the same branch %s is produced twice for %s' % (list(key), brief(env)))
                return
            seen[key] = k
            if not check_state(c, env, lifted(env, x, unk)):
                hit.append(k)
        if len(hit) != 1 and 'cover' in rules or not hit and 'lost' in rules:
            rep.bad(R1, where, 'the solution %s of %s lies in %d of the branches %s' % (
                x, brief(env), len(hit), [c['v'] for c in ch]))
            return
    for k in rules:
        rule = R2 if k == 'account' else R1
        if n:
            rep.ok(rule, where, 'agree', '%d valuations' % n)
        else:
            rep.undecided(rule, where, 'no valuation decided')
    rep.count('valuations', n)
    rep.functions.add(where)


def account(c, env, unk):
    pos = {p: j for j, p in enumerate(unk)}
    for i, (y, y0) in enumerate(zip(c['v'], env['val'])):
        if y0 != -1 and y != y0:
            return 'answer position %d, already %s, is overwritten with %s' % (i, y0, y)
    if list(c['loc']) != list(env['loc']) or c['len'] != env['L']:
        return 'bucket layout changed'
    un = [i for i, y in enumerate(c['v']) if y == -1]
    new = [p for p in unk if c['v'][p] != -1]
    if len(un) != len(c['bounds']):
        return '%d unknown positions for %d columns' % (len(un), len(c['bounds']))
    if len(c['b']) != len(env['b']):
        return 'equations were dropped'
    for p in new:
        if not 0 <= c['v'][p] <= env['bounds'][pos[p]]:
            return 'position %d gets %s, its capacity is %s' % (p, c['v'][p], env['bounds'][pos[p]])
    for k, (row, row0, bb, b0) in enumerate(zip(c['A'], env['A'], c['b'], env['b'])):
        if list(row) != [row0[pos[i]] for i in un]:
            return 'equation %d: coefficients %s instead of %s' % (k, row, [row0[pos[i]] for i in un])
        if bb + sum(row0[pos[p]] * c['v'][p] for p in new) != b0:
            return 'equation %d: right hand side %s plus what was assigned is not %s' % (k, bb, b0)
        if bb < 0:
            return 'equation %d: negative right hand side %s' % (k, bb)
    if c['quota'] + sum(c['v'][p] for p in new) != env['quota']:
        return 'quota %s plus the assigned values is not %s' % (c['quota'], env['quota'])
    if c['quota'] < 0:
        return 'negative quota'
    if list(c['bounds']) != [env['bounds'][pos[i]] for i in un]:
        low = [min(env['bounds'][pos[i]], env['quota']) for i in un]
        if any(not lo <= bb <= env['bounds'][pos[i]] for i, lo, bb in zip(un, low, c['bounds'])):
            return 'capacities %s instead of %s' % (c['bounds'], [env['bounds'][pos[i]] for i in un])
    return None
