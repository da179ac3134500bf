"""Rules over the search: the worklist of systems, the row-by-row extension, the output.

What is analysed is the transition relation of the loops (the value of every loop-carried
collection after one round, as a function of its value before), with the step functions, the
branching step and the row system replaced by uninterpreted operators.  The relation is
compared with the conservation law

      emitted + completions(worklist)   is the same before and after every round

where completions(.) is defined by the uninterpreted operators alone."""
from .core import *
from .steps import *
from .interp import IterV
from .vals import rng, question
from .rules_steps import contradictory
from .npmodel import *
import itertools


def key(x):
    return repr(x)


def msort(xs):
    return sorted(xs, key=key)


class Again:
    """calls of a module-level function to itself with one system or one partial matrix: the call stays a
    term, and is evaluated with the function's own summary"""

    def __init__(self, ctx, take):
        self.ctx, self.take = ctx, take     # take(I, argument) -> term that stands for it, or None
        self.found = {}

    def __call__(self, I, f, args, kw):
        if not isinstance(f, Func) or f.env is not None or len(args) != 1 or kw or f.module.name != 'srg.solver' or not any(fr.fn is f for fr in I.frames):
            return NotImplemented
        if not f.is_gen and not all(n.value is not None for n in ast.walk(f.node) if isinstance(n, ast.Return)):
            return NotImplemented
        t = self.take(I, args[0])
        if t is None:
            return NotImplemented
        self.found[f.name] = f
        r = T('call', 'again:' + f.name, t)
        return IterV(r) if f.is_gen else I.lst_term(r)


def again_uf(ctx, sums, toenv, uf, limit=3000):
    """evaluation of the recursive calls"""
    depth = [0]

    def mk(ps, recs):
        def h(x):
            if depth[0] > 40:
                raise Runaway()
            depth[0] += 1
            try:
                p, ev = run_loops(ctx, ps, recs, toenv(x), uf, limit)
                if p.kind == 'raise':
                    raise Undef('%s in a recursive call' % p.exc)
                return ev(p.out['out'])
            finally:
                depth[0] -= 1
        return h
    for name, (ps, recs) in sums.items():
        uf['again:' + name] = mk(ps, recs)
    return uf


class Hook:
    def __init__(self, ctx, table, again=None):
        self.again = again
        self.ctx = ctx
        self.table = table     # list of (function value, handler)

    def __enter__(self):
        def h(I, f, args, kw):
            for v, g in self.table:
                if f is v or (isinstance(f, Bound) and f.f is v):
                    a = list(args)
                    if isinstance(f, Bound):
                        a = [f.self] + a
                    return g(I, a, kw)
            return NotImplemented if self.again is None else self.again(I, f, args, kw)
        self.ctx.I.call_hook = h
        return self

    def __exit__(self, *a):
        self.ctx.I.call_hook = None


def rounds(I, rec):
    """the paths of one round: (path, conditions, values after)"""
    out = []
    for p in rec.paths:
        post = {}
        for k in rec.carry:
            x, t = I.value_after(k, p)
            post[k] = t
        out.append((p, [c for i, c in enumerate(p.conds) if i not in p.asm], post))
    return out


def taken(pths, ev):
    for p, conds, post in pths:
        ok = True
        for c in conds:
            v = ev(c)
            if not v:
                ok = False
                break
        if ok:
            return p, post
    raise Unknown('no path of the loop')


def is_exit(p):
    return p.kind == 'break' or (p.kind == 'next' and isinstance(p.val, tuple) and p.val and p.val[0] == 'exit')


def mention(ts):
    s = set()
    for t in ts:
        if isinstance(t, Term):
            s |= atoms(t)
    return s


def live_carries(rec, pths, out_terms):
    """loop-carried values some condition, emitted value or live value depends on"""
    live = set()
    todo = set()
    for p, conds, post in pths:
        todo |= mention(conds)
    todo |= mention(out_terms)
    cts = {k: v[0] for k, v in rec.carry.items() if v[0] is not None}
    post2 = {v: k for k, v in (rec.post or {}).items() if v is not None}
    changed = True
    while changed:
        changed = False
        for k, ct in cts.items():
            if k in live:
                continue
            pt = (rec.post or {}).get(k)
            if ct in todo or pt in todo:
                live.add(k)
                changed = True
                for p, conds, post in pths:
                    if post.get(k) is not None:
                        todo |= mention([post[k]])
    return live


def run_loops(ctx, paths, recs, env, uf, limit=3000):
    """follow the summary at a valuation: straight-line terms evaluated, each unsummarised loop
    by iterating its round relation.  -> (path, evaluator)"""
    I = ctx.I
    env = dict(env)
    done = set()
    for it in range(8):
        ev = Ev(env, uf)
        pending = None
        for p in paths:
            h = holds(p, ev)
            if h is True:
                ts = [t for t in (p.out or {}).values() if isinstance(t, Term)]
                need = mention(ts)
                for rec in recs:
                    if id(rec) in done:
                        continue
                    if any(v is not None and v in need for v in rec.post.values()):
                        pending = rec
                        break
                if pending is None:
                    return p, ev
                break
            if h is None:
                need = mention(p.conds)
                for rec in recs:
                    if id(rec) not in done and any(v is not None and v in need for v in rec.post.values()):
                        pending = rec
                        break
                if pending is not None:
                    break
        if pending is None:
            raise Unknown('no path')
        iterate(I, pending, env, uf, limit)
        done.add(id(pending))
    raise Unknown('loops')


def holds(p, ev):
    unk = False
    for c in p.conds:
        try:
            v = ev(c)
        except (Unknown, Undef):
            unk = True
            continue
        if not v:
            return False
    return None if unk else True


class Escape(Exception):
    def __init__(self, p):
        self.p = p


class Runaway(Exception):
    pass


def iterate(I, rec, env, uf, limit):
    ev = Ev(env, uf)
    state = {}
    why = {}
    for k, (ct, t0, kind) in rec.carry.items():
        if ct is None or t0 is None:
            continue
        try:
            state[k] = ev(t0)
        except (Unknown, Undef) as e:
            why[k] = str(e)
    pths = rounds(I, rec)
    for n in range(limit):
        e2 = dict(env)
        for k, v in state.items():
            e2[rec.carry[k][0]] = v
        ev = Ev(e2, uf)
        try:
            p, post = taken(pths, ev)
        except Unknown as e:
            raise Unknown('%s: %s' % (e, sorted(set(why.values())))) if why else e
        if p.kind == 'raise' or p.kind == 'return':
            raise Escape(p)
        new = {}
        for k in rec.carry:
            if rec.carry[k][0] is None or post.get(k) is None:
                continue
            try:
                new[k] = ev(post[k])
            except (Unknown, Undef) as e:
                why[k] = str(e)
        state = new
        if is_exit(p):
            for k, v in state.items():
                if rec.post.get(k) is not None:
                    env[rec.post[k]] = v
            return
    raise Runaway()


# ------------------------------------------------------------------ extension by rows

class Tree:
    """an uninterpreted search tree over partial matrices"""

    def __init__(self, r, C, R=2, width=3, first=None, full=None):
        self.r, self.C = r, C
        self.full = full          # or: how many rows at every depth
        self.first = first        # number of rows the root admits
        self.infe = {}
        self.comp = {}
        self.width = width
        self.root = self.randm(R, C)
        self.calls = {}
        self.like = None
        self.leaves = []
        self.build(self.root, 0)

    def randm(self, R, C):
        r = self.r
        m = [[0] * C for _ in range(R)]
        for i in range(R):
            for j in range(C):
                if j > i:
                    m[i][j] = r.randint(0, 1)
                elif j < i:
                    m[i][j] = m[j][i]
        return m

    def extend(self, m, vec):
        R = len(m)
        return m + [[row[R] for row in m] + [0] + list(vec)]

    def build(self, m, d):
        R = len(m)
        if R == self.C:
            self.leaves.append(m)
            return
        kk = key(m)
        self.infe[kk] = self.r.random() < (.03 if self.first and self.first < 150 else .8 if self.first and d == 1 else .15) and d > 0 and not self.full
        n = self.C - R - 1
        vs = []
        if not self.infe[kk]:
            want = self.r.randint(0 if d else 1, self.width)
            if self.first and not d:
                vs = [[int(c) for c in format(x, '0%db' % n)] for x in self.r.sample(range(1 << n), min(self.first, 1 << n))]
                want = 0
            elif self.first:
                want = 1
            elif self.full:
                w = self.full[d] if d < len(self.full) else 1
                vs = [[int(c) for c in format(x, '0%db' % n)] if n else [] for x in self.r.sample(range(1 << n), min(w, 1 << n))]
                want = 0
            for _ in range(want):
                v = [self.r.randint(0, 1) for _ in range(n)]
                if v not in vs:
                    vs.append(v)
        self.comp[kk] = vs
        for v in vs:
            self.build(self.extend(m, v), d + 1)

    def completions(self, m):
        out = []
        if len(m) == self.C:
            return [m]
        for v in self.comp[key(m)]:
            out += self.completions(self.extend(m, v))
        return out


def solve_summary(ctx):
    I = ctx.I
    if hasattr(ctx, '_solve'):
        return ctx._solve
    fm = ctx.fn('srg.srg:Question.from_matrix')
    fmf = fm.f if isinstance(fm, Bound) else fm
    sq = ctx.fn('srg.solver:solve_question')
    sv = ctx.fn('srg.solver:solve')
    nosol = ctx.fn('srg.srg:NoSolution')
    qcls = ctx.fn('srg.srg:Question')

    def h_from(I, a, kw):
        a = [x for x in a if not isinstance(x, ClassV)]
        t = I.t(a[0] if a else kw['m'])
        I.emit('row-system', t)
        if I.choose(T('bool', 'infeasible', t)):
            raise AbsRaise(nosol, None, 'from_matrix')
        new = T('call', 'system', t)
        if 'Q' not in box:
            return IterV(new)
        I.protos[new] = box['Q'].loc
        return I.materialize(new, box['Q']) or IterV(new)

    def h_sq(I, a, kw):
        q = a[0] if a else list(kw.values())[0]
        t = q.term if isinstance(q, IterV) else I.t(q)
        return IterV(T('call', 'rows', t))
    R, C = tm.sym('R', (), True), tm.sym('C', (), True)
    M = tm.sym('M', (R, C), True)
    box = {}

    def go():
        try:
            ss = syms('proto.')
            box['Q'] = mkQ(ctx, ss)
            box['m'] = ctx._sysfields = fieldmap(ctx, box['Q'], ss)
        except (Missing, AbsRaise):
            box.clear()
        s = ctx.call('srg.srg:SRG', [I.arr(M, 'int8')])
        return ctx.call(sv, [s])

    def outs(v):
        return {'out': I.t(v)}
    n0 = len(I.loops)
    srgcls = ctx.fn('srg.srg:SRG')

    def take(I, x):
        if isinstance(x, Term):
            x = I.obj_of_term(x)
        if not isinstance(x, Obj) or I.heap[x.loc].meta.get('cls') is not srgcls:
            return None
        return I.t(I.getattr(x, 'current_matrix'))
    again = Again(ctx, take)
    with Hook(ctx, [(fmf, h_from), (sq, h_sq)], again):
        ps = summary(ctx, go, outs)
    ctx._solve = ps, [l for l in I.loops[n0:] if l.kind == 'while'], I.loops[n0:]
    ctx._again_s = again_sums(ctx, again, lambda f: ctx.call(f, [ctx.call('srg.srg:SRG', [I.arr(M, 'int8')])]), [(fmf, h_from), (sq, h_sq)])
    return ctx._solve


def again_sums(ctx, again, go, table):
    sums = {}
    I = ctx.I
    while set(again.found) - set(sums):
        f = again.found[min(set(again.found) - set(sums))]
        n0 = len(I.loops)
        with Hook(ctx, table, again):
            ps = summary(ctx, lambda: go(f), lambda v: {'out': I.t(v)})
        sums[f.name] = ps, [l for l in I.loops[n0:] if l.kind == 'while']
    return sums


class EvT(Ev):
    pass


def tree_uf(tree, fm=None):
    def system(m):
        tree.calls[key(m)] = tree.calls.get(key(m), 0) + 1
        if not fm:
            return ('system', {'m': m})
        # what it looks like: some well-formed system with a solution
        e = plausible(tree, m)
        a = ('Answer', {fm['v']: e['val'], fm['loc']: e['loc'], fm['len']: e['L']})
        return ('Question', {'m': m, fm['A']: e['A'], fm['b']: e['b'], fm['quota']: e['quota'], fm['bounds']: e['bounds'], fm['ans']: a})

    def rows(q):
        if 'm' not in q[1]:
            raise Unknown('another system than the one set up')
        m = q[1]['m']
        k = key(m)
        if len(m) >= len(m[0]):
            raise Undef('row system of a complete matrix')
        if k not in tree.comp:
            raise Undef('row system of a matrix that is not in the search tree')
        if tree.infe[k]:
            raise Undef('infeasible')
        return copy(tree.comp[k])

    def infeasible(m):
        return tree.infe.get(key(m), False)
    return {'system': system, 'rows': rows, 'infeasible': infeasible}


def plausible(tree, m):
    """the system of a row with as many unknowns as the row has, satisfied by a row of many ones"""
    r = tree.r
    n = len(m[0]) - len(m) - 1
    C = tree.like or n
    x = [int(r.random() < r.choice([.5, .9, 1])) for _ in range(C)]
    A = [[r.randint(0, 1) for _ in range(C)] for _ in m] + [[1] * C]
    return dict(A=A, b=[sum(p * q for p, q in zip(row, x)) for row in A], bounds=[1] * C, quota=sum(x), val=[-1] * C, loc=list(range(C)), L=C)


def extension(rep, ctx, tier, rules=('explore', 'square')):
    """every partial matrix is extended exactly once by every row its system admits, and exactly
    the complete ones are emitted"""
    q = 'srg.solver:solve'
    R1, R2 = 'no-extension-discarded' if 'lost' in rules else 'every-extension-once', 'only-complete-emitted'
    try:
        ps, recs, _ = solve_summary(ctx)
    except Missing as e:
        rep.undecided(R1, q, 'anchor %s not found' % e)
        return
    where = ctx.where(q)
    rep.functions.add(where)
    r = rng('tree')
    n = 0
    why = {}
    plan = [(2 if i == 0 else r.randint(3, 6), 1 + i % 3, None, None) for i in range({'quick': 60, 'thorough': 300}[tier])]
    for z in ctx.sizes({'quick': 1100, 'thorough': 2100}[tier], (40, 130)):
        if z > 8:
            plan.append((4 + (z + z // 20 + 5).bit_length(), 1, z + z // 20 + 2, None))
            plan.append((8, 1, None, [1 + z // 64, 16, 5, 1, 1]))
        if z <= 24:
            plan.append((z + 2, 1, 2, None))
    # matrices too large to be shown in full
    plan += [(C, 1, None, [w] + [1] * C, C - d) for C, w, d in ((40, 40, 10), (130, 60, 8))]
    plan = [(p + (2,))[:5] + (None,) for p in plan] + [(r.randint(3, 6), 2, None, None, 2, z) for z in ctx.marks(200) for z in (z, 2 * z, 3 * z) for _ in range(3)]
    for C, wd, first, full, R, like in plan:
        tree = Tree(r, C, R, width=wd, first=first, full=full)
        tree.like = like
        env = {'M': tree.root, 'R': R, 'C': C}
        env.update({'proto.' + k: v for k, v in dict(R=1, C=1, N=1, L=1, quota=1, A=[[1]], b=[1], bounds=[1], val=[-1], loc=[0]).items()})
        uf = tree_uf(tree, getattr(ctx, '_sysfields', None))
        again_uf(ctx, ctx._again_s, lambda m: dict(env, M=m, R=len(m)), uf)
        try:
            p, ev = run_loops(ctx, ps, recs, env, uf)
            if p.kind == 'raise':
                rep.bad(R1, '%s, raise at %s line %s' % (where, p.efn, p.line), 'the search ends with %s on a search tree with %d complete matrices' % (p.exc, len(tree.leaves)))
                return
            out = ev(p.out['out'])
        except (Unknown, Undef) as e:
            if isinstance(e, Undef) and 'row system of' in str(e) and 'square' in rules:
                rep.bad(R2, where, '%s is set up; search tree with root %s' % (e, tree.root))
                return
            why[str(e)] = why.get(str(e), 0) + 1
            continue
        except Runaway:
            rep.bad(R1, where, 'the worklist does not run empty on a finite search tree')
            return
        except Escape as e:
            if e.p.kind != 'raise':
                why['return inside the loop'] = why.get('return inside the loop', 0) + 1
                continue
            rep.bad(R1, where, 'the search is left by %s inside the loop' % e.p.kind)
            return
        n += 1
        part = [m for m in out if not (isinstance(m, list) and len(m) == C and all(isinstance(x, list) and len(x) == C for x in m))]
        if part:
            if 'square' in rules:
                rep.bad(R2, where, 'a matrix that is not %d x %d is emitted: %s' % (C, C, part[0]))
            return
        if msort(out) != msort(tree.leaves):
            lost = [m for m in tree.leaves if m not in out]
            if not lost and 'explore' not in rules:
                continue
            if 'explore' in rules or 'lost' in rules:
                extra = [m for m in out if m not in tree.leaves]
                rep.bad(R1, where, 'from the first rows %s with row completions %s: emitted %d matrices, the search tree has %d complete ones%s%s' % (
                    tree.root, tree.comp[key(tree.root)] if C > 2 else [], len(out), len(tree.leaves),
                    '; never emitted: %s' % lost[0] if lost else '', '; not in the tree: %s' % extra[0] if extra else ''))
            return
    for k in rules:
        rule = R2 if k == 'square' else R1
        if n:
            rep.ok(rule, where, "agree", '%d search trees %s' % (n, why or ''))
            rep.count('valuations', n)
        else:
            rep.undecided(rule, where, str(why))


# ------------------------------------------------------------------ worklist of systems

def sq_summary(ctx):
    if hasattr(ctx, '_sq'):
        return ctx._sq
    I = ctx.I
    nosol = ctx.fn('srg.srg:NoSolution')
    sq = ctx.fn('srg.solver:solve_question')
    table = []
    for name in STEPS + [FORK]:
        try:
            table.append((ctx.fn('srg.solver:' + name), name))
        except Missing:
            pass
    if not any(n == FORK for _, n in table):
        raise Missing(FORK)

    def mk(name):
        def h(I, a, kw):
            Q = a[0] if a else list(kw.values())[0]
            if isinstance(Q, Term):
                Q = I.obj_of_term(Q)
            t = I.t(Q)
            I.emit('step', name, t)
            if I.choose(T('bool', 'nosol', STR(name), t)):
                raise AbsRaise(nosol, None, name)
            if name == FORK:
                return IterV(T('call', 'children', t))
            # a step changes the system: its state afterwards is whatever `after` says
            new = T('call', 'after', STR(name), t)
            I.protos[new] = Q.loc
            o = I.materialize(new, Q)
            c = I.heap[Q.loc]
            c.data = dict(I.heap[o.loc].data)
            c.meta['symterm'] = new
            return NONE
        return h
    s = syms()
    box = {}

    def go():
        Q = mkQ(ctx, s)
        box['m'] = fieldmap(ctx, Q, s)
        return ctx.call(sq, [Q])

    def outs(v):
        return {'out': I.t(v)}
    n0 = len(I.loops)
    qcls = ctx.fn('srg.srg:Question')

    def take(I, x):
        if isinstance(x, Term):
            x = I.obj_of_term(x)
        return I.t(x) if isinstance(x, Obj) and I.heap[x.loc].meta.get('cls') is qcls else None
    again = Again(ctx, take)
    with Hook(ctx, [(f, mk(n)) for f, n in table], again):
        ps = summary(ctx, go, outs)
    ctx._again_q = again_sums(ctx, again, lambda f: ctx.call(f, [mkQ(ctx, s)]), [(f, mk(n)) for f, n in table])
    ctx._sq = ps, [l for l in I.loops[n0:] if l.kind == 'while'], box['m'], I.loops[n0:]
    return ctx._sq


class QTree:
    """an uninterpreted branching tree of systems; a system is named by its quota, or by its whole state
    (then the branches of one system may agree in all but one component)"""

    def __init__(self, r, m, depth=3, width=3, first=None, rounds=(0, 0, 1, 2), dying=STEPS + [FORK], dims=None, bystate=False):
        self.r, self.m = r, m
        self.dims = dims
        self.bystate, self.named, self.last = bystate, {}, None
        self.wide = first
        self.rounds, self.dying = rounds, dying
        self.n = 0
        self.kids, self.dead, self.final = {}, {}, {}
        self.root = self.node(depth, width, True)
        self.forked = {}

    def key(self, q):
        d, m = q[1], self.m
        a = d[m['ans']][1]
        return repr((d[m['A']], d[m['b']][1:], len(d[m['b']]), d[m['quota']], d[m['bounds']], a[m['v']], a[m['loc']], a[m['len']]))

    def name(self, q):
        if not self.bystate:
            return q[1][self.m['quota']]
        try:
            return self.named[self.key(q)]
        except KeyError:
            raise Unknown('a system which is none of the tree')

    def obj(self, ident, unknown, rounds=0):
        while True:
            env, o = self.draw(ident, unknown, rounds)
            if not self.bystate:
                return env, o
            k = self.key(o)
            if self.named.setdefault(k, ident) == ident:
                if unknown:
                    self.last = env
                return env, o

    def draw(self, ident, unknown, rounds):
        if self.bystate and unknown and self.last and self.r.random() < .8:
            env = {k: list(v) if isinstance(v, list) else v for k, v in self.last.items()}
            unk = [p for p, x in enumerate(env['val']) if x == -1]
            what = self.r.choice(['quota', 'bounds', 'b', 'val', 'A'])
            if what == 'quota':
                env['quota'] += self.r.randint(1, 3)
            elif what == 'A':
                env['A'] = [list(row) for row in env['A']]
                env['A'].reverse()
            elif what == 'val':
                ks = [p for p, x in enumerate(env['val']) if x != -1]
                if ks:
                    p = self.r.choice(ks)
                    env['val'][p] = self.r.randint(0, (env['loc'] + [env['L']])[p + 1] - env['loc'][p])
            elif env[what]:
                i = self.r.randrange(len(env[what]))
                env[what][i] += 1
            x = [0] * len(unk)
        elif self.dims:
            R, C = self.dims
            env, x, unk = question(self.r, distinct=True, minc=C, maxc=C, minr=R, maxr=R)
        else:
            env, x, unk = question(self.r, distinct=True, minc=1)
        if not unknown:
            for j, p in enumerate(unk):
                env['val'][p] = x[j]
            env['A'] = [[] for _ in env['A']]
            env['b'] = [0 for _ in env['b']]
            env['bounds'] = []
            env['C'] = 0
        if not self.bystate:
            env['quota'] = ident
        if env['b']:
            env['b'] = [rounds] + env['b'][1:]
        m = self.m
        a = ('Answer', {m['v']: env['val'], m['loc']: env['loc'], m['len']: env['L']})
        return env, ('Question', {m['A']: env['A'], m['b']: env['b'], m['quota']: env['quota'], m['bounds']: env['bounds'], m['ans']: a})

    def toenv(self, q):
        d, m = q[1], self.m
        a = d[m['ans']][1]
        e = dict(self.env, A=d[m['A']], b=d[m['b']], quota=d[m['quota']], bounds=d[m['bounds']], val=a[m['v']], loc=a[m['loc']], L=a[m['len']])
        e.update(R=len(e['b']), C=len(e['bounds']), N=len(e['val']))
        return e

    def node(self, depth, width, first=False):
        ident = self.n
        self.n += 1
        unknown = depth > 0 and (self.r.random() < .8 or first and bool(self.wide))
        # before the steps reach their fixpoint the system may still have unknowns it loses later
        env, o = self.obj(ident, unknown)
        self.final[ident] = o
        k = self.r.choice(self.rounds)
        if k:
            env, o = self.obj(ident, True, k)
        if first:
            self.env = env
        self.dead[ident] = self.r.choice(self.dying) if self.r.random() < .25 and not first else None
        ks = []
        if unknown:
            for _ in range(self.wide if first and self.wide else self.r.randint(0, width)):
                ks.append(self.node(depth - 1, width))
        self.kids[ident] = (unknown, ks, o)
        return ident

    def answers(self, ident):
        unknown, ks, o = self.kids[ident]
        d = self.dead[ident]
        if d in STEPS or (d == FORK and unknown):
            return []
        if not unknown:
            return [self.binarize(self.final[ident])]
        return [a for k in ks for a in self.answers(k)]

    def binarize(self, o):
        a = o[1][self.m['ans']][1]
        return binarize(a[self.m['v']], a[self.m['loc']], a[self.m['len']])

    def uf(self):
        m = self.m

        def children(q):
            i = self.name(q)
            if left(q) > 0:
                raise Unknown('branching before the steps have come to rest')
            self.forked[i] = self.forked.get(i, 0) + 1
            unknown, ks, o = self.kids[i]
            if not unknown:
                raise Undef('branching on a system without unknowns')
            return [copy(self.kids[k][2]) if False else self.kids[k][2] for k in ks]

        def nosol(name, q):
            return self.dead[self.name(q)] == name and (name == FORK or left(q) <= 1)

        def left(q):
            return q[1][m['b']][0] if q[1][m['b']] else 0

        def after(name, q):
            # the first step of a round makes progress as long as rounds are left
            d = dict(q[1])
            bb = list(d[m['b']])
            if name == STEPS[self.name(q) % len(STEPS)] and bb and bb[0] > 0:
                bb[0] -= 1
                if not bb[0]:
                    return self.final[self.name(q)]
            d[m['b']] = bb
            return (q[0], d)
        return {'children': children, 'nosol': nosol, 'after': after}


def fork_rejects(ctx):
    """can branching report a contradiction in a system which every step has let pass"""
    r = rng('forkrejects')
    have = []
    for name in STEPS + [FORK]:
        try:
            step(ctx, name)
            have.append(name)
        except Missing:
            pass
    for i in range(150):
        env, what = contradictory(r, i, *question(r, distinct=True, minc=0 if i % 3 == 0 else 1)) if i < 120 else question(r, minc=1)[:2]
        if env and run_at(ctx, FORK, env)[0] == 'raise' and all(
                run_at(ctx, name, env)[0] != 'raise' for name in have[:-1]):
            return True
    return False


def binarize(v, loc, L):
    out = [0] * L
    ends = list(loc[1:]) + [L]
    for x, s, e in zip(v, loc, ends):
        for i in range(s, s + x):
            out[i] = 1
    return out


def worklist(rep, ctx, tier, lost=False):
    """every system on the worklist is either rejected by a step, emitted once when nothing is
    unknown, or replaced by all its branches; the loop ends exactly when no system is left"""
    q = 'srg.solver:solve_question'
    R1 = 'no-system-discarded' if lost else 'every-branch-once'
    try:
        ps, recs, m, _ = sq_summary(ctx)
    except Missing as e:
        rep.undecided(R1, q, 'anchor %s not found' % e)
        return
    where = ctx.where(q)
    rep.functions.add(where)
    r = rng('qtree')
    n = 0
    why = {}
    dying = STEPS + [FORK] if fork_rejects(ctx) else STEPS
    plan = [(i % 4, 1 + i % 3, None) for i in range({'quick': 60, 'thorough': 300}[tier])]
    for z in ctx.sizes({'quick': 6000, 'thorough': 20000}[tier], (40, 130)):
        plan.append((2, 1, z + z // 20 + 2) if z <= 520 else (1, 1, z + z // 20 + 2))
        if z <= 24:
            plan.append((z + 2, 1, 2))
        if z <= 60:
            plan.append((2, 2, 3, (0, z, z + 2, z + 5)))
    plan = [(x, None) for x in plan]
    # systems of many equations or unknowns
    for z in ctx.sizes({'quick': 700, 'thorough': 3000}[tier], (30, 70, 300)):
        plan += [((2, 1, 2, (0, 1, 2)), (z + 3, 2)), ((1, 1, 2, (0, 1, 2)), (14, min(z + 3, 300)))]
    plan += [((4, 4, None), 'bystate') for _ in range({'quick': 40, 'thorough': 200}[tier])]
    for (dp, wd, first, *rounds), dims in plan:
        tree = QTree(r, m, dp, wd, first, *rounds, dying=dying, dims=None if dims == 'bystate' else dims, bystate=dims == 'bystate')
        env = dict(tree.env)
        want = tree.answers(tree.root)
        try:
            p, ev = run_loops(ctx, ps, recs, env, again_uf(ctx, ctx._again_q, tree.toenv, tree.uf(), 3000 + 8 * tree.n), 3000 + 8 * tree.n)
            if p.kind == 'raise':
                rep.bad(R1, '%s, raise at %s line %s' % (where, p.efn, p.line), 'the search ends with %s instead of trying the other branches' % p.exc)
                return
            out = ev(p.out['out'])
        except (Unknown, Undef) as e:
            if 'branching on a system without' in str(e):
                rep.bad(R1, where, str(e))
                return
            if 'comes back' in str(e):
                rep.bad(R1, where, 'on a system of %d equations in %d unknowns %s' % (len(env['b']), len(env['bounds']), e))
                return
            why[str(e)] = why.get(str(e), 0) + 1
            continue
        except Runaway:
            rep.bad(R1, where, 'the worklist does not run empty on a finite branching tree')
            return
        except Escape as e:
            if e.p.kind != 'raise':
                why['return inside the loop'] = why.get('return inside the loop', 0) + 1
                continue
            rep.bad(R1, where, 'the search is left by %s inside the loop, %d answers of the other branches are lost' % (
                'exception %s' % getattr(e.p.exc.cls, 'name', e.p.exc.cls) if e.p.kind == 'raise' else e.p.kind, len(want)))
            return
        n += 1
        if lost and all(a in out for a in want):
            continue
        if msort(out) != msort(want):
            twice = [i for i, c in tree.forked.items() if c > 1]
            rep.bad(R1, where, 'on a branching tree with %d answers %d are emitted%s; answers %s, emitted %s' % (
                len(want), len(out), '; some system is branched on twice' if twice else '', msort(want)[:4], msort(out)[:4]))
            return
    if n:
        rep.ok(R1, where, 'agree', '%d branching trees %s' % (n, why or ''))
        rep.count('valuations', n)
    else:
        rep.undecided(R1, where, str(why))
