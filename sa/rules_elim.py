"""Rules over the elimination step: the system of equations is conserved."""
from .core import *
from .steps import *
from .rules_steps import span_rows, brief, N, check_state, lifted, shape_ok
from .vals import rng, question, systems
import itertools


def while_records(ctx, name):
    ps, m, loops = step(ctx, name)
    return [l for l in loops if l.kind == 'while']


def loop_of(ctx, name):
    """paths of the step with the while record whose exit state they continue from (or None)"""
    ps, m, loops = step(ctx, name)
    recs = [l for l in loops if l.kind == 'while']
    out = []
    for p in ps:
        at_ = set()
        for c in p.conds + p.asm:
            at_ |= atoms(c)
        if p.out:
            for t in p.out.values():
                if isinstance(t, Term):
                    at_ |= atoms(t)
        rec = [l for l in recs if any(ct is not None and ct in at_ for ct in (getattr(l, 'post', None) or {}).values())]
        out.append((p, rec))
    return out, recs


def lists_of(rec):
    return [(k, ct, t0) for k, (ct, t0, kind) in rec.carry.items() if ct is not None and kind == 'list']


def encode_env(env, shape, width):
    """the rows of [A|b] as the loop's tuples"""


class Shape:
    """how a tuple of the worklist holds an equation"""

    def __init__(self, ki, vi, msb):
        self.ki, self.vi, self.msb = ki, vi, msb

    def row(self, t, C):
        k = t[self.ki]
        if not isinstance(k, int) or k < 0:
            raise Unknown('key')
        if k >> C:
            raise ValueError('key %s has more than %d columns' % (k, C))
        bits = [(k >> (C - 1 - j)) & 1 if self.msb else (k >> j) & 1 for j in range(C)]
        return bits + [t[self.vi]]

    def rows(self, ts, C):
        return [self.row(t, C) for t in ts]

    def make(self, row, rhs, i, n):
        C = len(row)
        k = 0
        for j, a in enumerate(row):
            if a:
                k |= 1 << ((C - 1 - j) if self.msb else j)
        t = [i] * n
        t[self.ki] = k
        t[self.vi] = rhs
        return t


def find_shape(ctx, rec, envs):
    """the tuple layout under which the initial worklist is the system"""
    ls = lists_of(rec)
    for trial in range(2):
        pass
    tuples = []
    for env in envs:
        ev = Ev(env)
        ts = []
        for k, ct, t0 in ls:
            v = ev(t0)
            if not isinstance(v, list):
                raise Unknown('worklist')
            ts += v
        tuples.append(ts)
    n = None
    for ts in tuples:
        for t in ts:
            if not isinstance(t, list):
                raise Unknown('worklist element')
            n = len(t) if n is None else n
            if len(t) != n:
                raise Unknown('worklist element')
    if n is None or n < 2:
        raise Unknown('worklist empty')
    best = None
    fails = None
    for ki, vi in itertools.permutations(range(n), 2):
        for msb in (True, False):
            sh = Shape(ki, vi, msb)
            good = 0
            bad = None
            for env, ts in zip(envs, tuples):
                try:
                    rows = sh.rows(ts, env['C'])
                except (ValueError, Unknown, TypeError):
                    bad = bad or (env, ts)
                    continue
                if span_rows(rows) == span_rows([list(r) + [x] for r, x in zip(env['A'], env['b'])]):
                    good += 1
                else:
                    bad = bad or (env, ts)
            if best is None or good > best[0]:
                best = (good, sh, bad, n)
    return best


def elim(rep, ctx, tier, rule='equations-conserved', prune='no-solution-discarded', progress=None):
    name = 'eliminate'
    q = 'srg.solver:' + name
    where = ctx.where(q)
    try:
        pairs, recs = loop_of(ctx, name)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    rep.functions.add(where)
    r = rng(rule + 'elim')
    ps, m, loops = step(ctx, name)
    # ---- paths that do not pass the loop, and a loop-free elimination
    n0 = direct(rep, ctx, where, tier, rule, prune)
    if not recs:
        if n0:
            rep.ok(rule, where, 'agree', '%d valuations, no loop left unsummarised' % n0)
        else:
            rep.undecided(rule, where, 'no valuation decided')
        return
    rec = recs[-1]
    lw = 'loop in %s, line %s' % (rec.fn, getattr(rec.node, 'lineno', '?'))
    envs = []
    while len(envs) < 40:
        env, x, unk = question(r, distinct=True, minc=1, maxr=5)
        if env['R'] > 1:
            envs.append(env)
    try:
        good, sh, bad, width = find_shape(ctx, rec, envs)
    except (Unknown, Undef) as e:
        rep.undecided(rule, lw, 'initial worklist: %s' % e)
        return
    if good < len(envs):
        if good >= len(envs) // 4:
            rep.bad(rule, lw, 'the initial worklist %s does not represent the system %s' % (bad[1], brief(bad[0])))
        else:
            rep.undecided(rule, lw, 'worklist layout not recognised')
        return
    rep.ok(rule + ':init', lw, 'agree', '%d valuations' % len(envs))
    # ---- inductive step
    ls = lists_of(rec)
    n = 0
    und = {}
    raise_false = {}
    cand = set(range(len(ls)))     # lists that get shorter whenever no key gets smaller
    for p in rec.paths:
        for c in p.conds:
            for a in atoms(c):
                if a.op == 'bool' and a.args and a.args[0] == 'loopraise':
                    raise_false[a] = False
    I = ctx.I
    pths = []
    for p in rec.paths:
        post = {}
        for k in rec.carry:
            x, t = I.value_after(k, p)
            post[k] = t
        pths.append((p, [c for i, c in enumerate(p.conds) if i not in p.asm], post))
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(distinct=True, minc=1, maxr=6), tier, per=1):
        C = env['C']
        rows = [(row, bb) for row, bb in zip(env['A'], env['b']) if any(row)]
        most = max([20] + [z + 4 for z in ctx.marks(70)])
        if len(rows) > most:
            rows = rows[:most]
        sat = i % 5 != 4
        if not sat:
            j = r.randrange(len(rows))
            row, bb = rows[j]
            if i % 2:
                rows.append((row, bb + r.randint(1, 2)))
            else:
                rows[j] = (row, max(0, bb + r.choice([-1, 1, 2])))
        ts = [sh.make(row, bb, k, width) for k, (row, bb) in enumerate(rows)]
        cut = r.choice([r.randint(0, len(ts) - 1), len(ts) - 1, max(0, len(ts) - 2)] if len(ts) > 8 else [r.randint(0, len(ts) - 1)]) if i % 3 else 0
        for which in range(len(ls)):
            parts = [[] for _ in ls]
            parts[which] = sorted(ts[cut:])
            parts[(which + 1) % len(ls)] += sorted(ts[:cut])
            e2 = dict(env)
            e2.update(raise_false)
            for (k, ct, t0), v in zip(ls, parts):
                e2[ct] = v
            ev = Ev(e2)
            for p, conds, post in pths:
                if p.kind == 'next' and p.val and p.val[0] == 'exit':
                    continue
                try:
                    if not all(ev(c) for c in conds):
                        continue
                except (Unknown, Undef) as ex:
                    und[str(ex)] = und.get(str(ex), 0) + 1
                    continue
                if p.kind == 'raise':
                    n += 1
                    if not sat:
                        en = getattr(p.exc.cls, 'name', str(p.exc.cls))
                        if not ctx.is_nosol(en):
                            rep.bad(prune, lw, 'raises %s instead of NoSolution on the worklist %s' % (en, parts))
                            return
                        break
                    if refuted(ctx, env, rows, r):
                        rep.undecided(rule + ':round', lw, 'raises on the worklist %s, which no run was seen to reach' % parts)
                        return
                    rep.bad(prune, lw, 'raises on the worklist %s, whose equations have the solution %s' % (parts, x))
                    return
                try:
                    after = []
                    for k, ct, t0 in ls:
                        after.append(ev(post[k]))
                    rows2 = sh.rows([t for l in after for t in l], C)
                except (Unknown, Undef, TypeError) as ex:
                    und[str(ex)] = und.get(str(ex), 0) + 1
                    continue
                except ValueError as ex:
                    if refuted(ctx, env, rows, r):
                        rep.undecided(rule + ':round', lw, 'worklist %s becomes %s, but no run was seen to reach it' % (parts, after))
                        return
                    rep.bad(rule, lw, 'worklist %s becomes %s: %s' % (parts, after, ex))
                    return
                n += 1
                before = [list(a) + [bb] for a, bb in rows]
                wrong = any(t[sh.vi] < 0 or t[sh.ki] < 0 for l in after for t in l) or span_rows(rows2) != span_rows(before)
                if wrong and refuted(ctx, env, rows, r):
                    rep.undecided(rule + ':round', lw, 'worklist %s becomes %s, but no run was seen to reach it' % (parts, after))
                    return
                if any(t[sh.vi] < 0 or t[sh.ki] < 0 for l in after for t in l):
                    rep.bad(rule, lw, 'worklist %s becomes %s with a negative entry' % (parts, after))
                    return
                if span_rows(rows2) != span_rows(before):
                    rep.bad(rule, lw, 'one round turns the equations %s into %s, which are not equivalent' % (parts, after))
                    return
                if progress:
                    s0 = sum(t[sh.ki] for l in parts for t in l)
                    s1 = sum(t[sh.ki] for l in after for t in l)
                    if s1 < s0:
                        continue
                    cand = {j for j in cand if s1 == s0 and len(after[j]) < len(parts[j])}
                    if not cand and refuted(ctx, env, rows, r):
                        rep.undecided(progress, lw, 'the measure does not get smaller at %s, yet every run was seen to end' % (parts,))
                        cand, progress = set(range(len(ls))), None
                    elif not cand:
                        rep.bad(progress, lw, 'a round leaves the worklist %s at %s: nothing gets smaller' % (parts, after))
                        return
    if n:
        rep.ok(rule + ':round', lw, 'agree', '%d valuations of the loop state' % n)
        if progress:
            rep.ok(progress, lw, 'agree', '%d valuations of the loop state' % n)
    else:
        rep.undecided(rule + ':round', lw, str(und)[:300])
    rep.count('valuations', n)
    # ---- after the loop
    n = 0
    live = {}
    for env in envs:
        for p, rec_ in pairs:
            if not rec_ or p.kind not in ('next', 'return') or id(rec_[-1]) in live and live[id(rec_[-1])] is None:
                continue
            got = live.setdefault(id(rec_[-1]), set())
            ev = Ev({a: False for c in p.conds for a in atoms(c) if a.op == 'bool' and a.args and a.args[0] == 'loopraise'} | env)
            try:
                if not all(ev(c) for c in p.conds):
                    continue
                got |= {k for k, ct, t0 in lists_of(rec_[-1]) if ev(rec_[-1].post[k])}
            except (Unknown, Undef):
                live[id(rec_[-1])] = None
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(distinct=True, minc=1, maxr=5), tier, per=1):
        C = env['C']
        rows = [(row, bb) for row, bb in zip(env['A'], env['b']) if any(row)]
        if len(rows) < 2 or len(rows) < env['R'] and False:
            continue
        ts = [sh.make(row, bb, k, width) for k, (row, bb) in enumerate(rows)]
        for p, rec_ in pairs:
            if not rec_ or p.kind not in ('next', 'return'):
                continue
            rp = rec_[-1]
            e2 = dict(env)
            for c in p.conds + [t for t in p.out.values() if isinstance(t, Term)]:
                for a in atoms(c):
                    if a.op == 'bool' and a.args and a.args[0] == 'loopraise':
                        e2[a] = False
            keys = [k for k, ct, t0 in lists_of(rp)]
            held = live.get(id(rp))
            for which in range(len(keys)):
                if held and keys[which] not in held:
                    continue        # no run leaves the equations there
                e3 = dict(e2)
                for j, k in enumerate(keys):
                    e3[rp.post[k]] = sorted(ts) if j == which else []
                ev = Ev(e3)
                try:
                    if not all(ev(c) for c in p.conds):
                        continue
                    A, b = ev(p.out['A']), ev(p.out['b'])
                    q_, bd, v = ev(p.out['quota']), ev(p.out['bounds']), ev(p.out['v'])
                except (Unknown, Undef) as ex:
                    und[str(ex)] = und.get(str(ex), 0) + 1
                    continue
                n += 1
                w = None
                if len(A) != len(b) or any(len(row) != C for row in A):
                    w = 'sizes are wrong'
                elif span_rows([list(a) + [bb] for a, bb in zip(A, b)]) != span_rows([list(a) + [bb] for a, bb in rows]):
                    w = 'the result is not equivalent'
                elif q_ != env['quota'] or bd != env['bounds'] or v != env['val']:
                    w = 'quota, capacities or answer changed'
                if w and not held and refuted(ctx, env, rows, r):
                    rep.undecided(rule + ':decode', where, '%s: worklist %s, but no run was seen to end in it' % (w, sorted(ts)))
                    return
                if w:
                    rep.bad(rule, where, '%s: worklist %s is decoded to A=%s b=%s' % (w, sorted(ts), A, b))
                    return
    if n:
        rep.ok(rule + ':decode', where, 'agree', '%d valuations' % n)
    else:
        rep.undecided(rule + ':decode', where, str(und)[:300])
    rep.count('valuations', n)


def refuted(ctx, env, rows, r):
    """a state of the loop was assumed in which a round goes wrong: True when the whole elimination, run from the
    equations of that state and from others like them, is seen to conserve them, so that no run reaches that state"""
    seen = 0
    many = [antichain(r, env, z + 2) for z in ctx.marks(70) for _ in range(2)]
    for k in range(120 + len(many)):
        if k == 0:
            e2 = dict(env, A=[list(a) for a, bb in rows], b=[bb for a, bb in rows], R=len(rows))
        elif k > 119:
            e2 = many[k - 120]
        else:
            e2, x, unk = question(r, distinct=True, minc=1, maxr=6)
        o = run_at(ctx, 'eliminate', e2)
        if o[0] == 'endless':
            return False
        if o[0] == 'state':
            seen += 1
            if span_rows([list(a) + [bb] for a, bb in zip(o[1]['A'], o[1]['b'])]) != \
                    span_rows([list(a) + [bb] for a, bb in zip(e2['A'], e2['b'])]) or any(bb < 0 for bb in o[1]['b']):
                return False
        elif o[0] == 'raise':
            if k or not contradictory(rows):
                return False
            seen += 1
        elif k == 0:
            return False
    return seen > 60


def antichain(r, env, n):
    """a system of n equations none of which contains another"""
    import itertools
    C = next(c for c in range(4, 99) if c * (c - 1) // 2 >= n)
    pairs = list(itertools.combinations(range(C), 2))
    r.shuffle(pairs)
    x = [r.randint(0, 3) for _ in range(C)]
    A = [[int(j in p) for j in range(C)] for p in pairs[:n]]
    return dict(A=A, b=[x[i] + x[j] for i, j in pairs[:n]], bounds=[3] * C, quota=sum(x), val=[-1] * C, loc=[3 * j for j in range(C)],
                L=3 * C, N=C, C=C, R=n)


def contradictory(rows):
    return not any(all(sum(a * x for a, x in zip(row, xs)) == bb for row, bb in rows)
                   for xs in itertools.product(range(max([bb for a, bb in rows] + [0]) + 1), repeat=len(rows[0][0]))) \
        if len(rows[0][0]) <= 5 else True


def direct(rep, ctx, where, tier, rule, prune):
    r = rng(rule + 'direct')
    n = 0
    for i, env, x, unk in systems(ctx, r, N[tier], lambda i: dict(
            distinct=True, minc=0 if i % 8 == 0 else 1, maxr=1 if i % 2 else 4), tier, per=1):
        o = run_at(ctx, 'eliminate', env)
        if o[0] == 'raise' and ctx.is_nosol(o[1]):
            rep.bad(prune, '%s line %s' % (where, o[2].line), 'raises on %s with solution %s' % (brief(env), x))
            return n
        if o[0] != 'state':
            continue
        st = o[1]
        n += 1
        w = check_state(st, env, lifted(env, x, unk))
        if not w and span_rows([list(a) + [bb] for a, bb in zip(st['A'], st['b'])]) != \
                span_rows([list(a) + [bb] for a, bb in zip(env['A'], env['b'])]):
            w = 'the equations are not equivalent'
        if w:
            rep.bad(rule, where, '%s; %s becomes %s' % (w, brief(env), {k: st[k] for k in ('A', 'b')}))
            return n
    # a contradictory equation must not disappear
    for i in range(N[tier]):
        env, x, unk = question(r, distinct=True, minc=1, maxr=2)
        env['A'] = env['A'] + [[0] * env['C']]
        env['b'] = env['b'] + [r.randint(1, 3)]
        env['R'] += 1
        o = run_at(ctx, 'eliminate', env)
        if o[0] == 'raise':
            n += 1
        elif o[0] == 'state':
            st = o[1]
            if span_rows([list(a) + [bb] for a, bb in zip(st['A'], st['b'])]) != \
                    span_rows([list(a) + [bb] for a, bb in zip(env['A'], env['b'])]):
                rep.bad(rule, where, 'the contradictory equation 0 = %s of %s is dropped: %s' % (
                    env['b'][-1], brief(env), {k: st[k] for k in ('A', 'b')}))
                return n
    # nor one of two equations that contradict one another
    for i in range(N[tier]):
        env, x, unk = question(r, distinct=True, minc=1, maxr=4, sat=i % 3 > 0, maxsize=r.choice([4, 4, 40]))
        A, b = [row[:] for row in env['A']], env['b'][:]
        for _ in range(r.choice([0, 1, 1, 2]) if i % 3 == 0 else r.choice([1, 1, 2, 3])):
            j = r.randrange(len(A))
            k = r.choice([j, j + 1, 0, len(A)])
            A.insert(k, A[j][:])
            b.insert(k, max(0, b[j] + r.choice([-2, -1, 1, 2, 3])))
        env.update(A=A, b=b, R=len(A))
        o = run_at(ctx, 'eliminate', env)
        if o[0] == 'raise' and ctx.is_nosol(o[1]):
            if not refutable(env):
                rep.bad(prune, '%s line %s' % (where, o[2].line), 'raises on %s, which has a solution' % brief(env))
                return n
            n += 1
        elif o[0] == 'state':
            n += 1
            st = o[1]
            new, old = ([list(a) + [bb] for a, bb in zip(y['A'], y['b'])] for y in (st, env))
            if span_rows(new) != span_rows(old) and not (absurd(new) and absurd(old)):
                rep.bad(rule, where, 'the equations of %s are not equivalent to %s' % (brief(env), {k: st[k] for k in ('A', 'b')}))
                return n
    rep.count('valuations', n)
    return n


def absurd(rows):
    """the equations alone are contradictory over the rationals"""
    top = [0] * (len(rows[0]) - 1) + [1]
    return span_rows(rows) == span_rows(rows + [top])


def refutable(env):
    """no vector of non-negative integers within the capacities meets the equations and the quota"""
    rows = [(a, bb) for a, bb in zip(env['A'], env['b'])] + [([1] * env['C'], env['quota'])]

    def go(j, rest):
        if min(rest) < 0:
            return False
        if j == env['C']:
            return not any(rest)
        top = min([z for (a, _), z in zip(rows, rest) if a[j]] + [env['bounds'][j]])
        return any(go(j + 1, [z - y * a[j] for (a, _), z in zip(rows, rest)]) for y in range(top + 1))
    return not go(0, [bb for _, bb in rows])
