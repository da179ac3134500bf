"""Effect, aliasing, exception and determinism rules."""
import ast
import itertools
import builtins
from copy import deepcopy
from .core import *
from .steps import *
from .vals import rng, question, systems
from . import rules_build as rb

COMPONENTS = ('A', 'b', 'bounds', 'v', 'loc')


# ----------------------------------------------------------------- in-place effects of a step

def effects(ctx, name):
    """paths of a step with the components it writes in place while they are still the caller's
    arrays, and the components that are other arrays afterwards"""
    c = ctx.__dict__.setdefault('_eff', {})
    if name in c:
        return c[name]
    m = fields(ctx)
    s = syms()
    f = ctx.fn('srg.solver:' + name)
    I = ctx.I

    def locs(Q):
        d = I.heap[Q.loc].data
        o = {}
        for k in COMPONENTS:
            h = d
            if k in ('v', 'loc'):
                a = d[m['ans']]
                if not isinstance(a, Obj):
                    continue
                h = I.heap[a.loc].data
            x = h[m[k]]
            if isinstance(x, (Arr, View)):
                l = x.loc
                po = I.heap[l].meta.get('viewof')
                o[k] = po if po is not None else l
        return o

    def go():
        Q = mkQ(ctx, s)
        l0 = locs(Q)
        n0 = len(I.events)
        r = ctx.call(f, [Q])
        ws = {}
        for e in I.events[n0:]:
            if e[0] == 'write':
                for k, l in l0.items():
                    if e[1] == l:
                        ws.setdefault(k, getattr(e[3], 'lineno', '?'))
        l1 = locs(Q)
        return ws, {k for k in l0 if l1.get(k) == l0[k]}
    ps = summary(ctx, go, lambda v: {'w': v[0], 'kept': v[1]})
    c[name] = ps
    return ps


def order(ctx):
    """the steps in the order the worklist applies them"""
    seen = []
    try:
        for n in ast.walk(ctx.tree('srg.solver')):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in STEPS:
                seen.append((n.lineno, n.col_offset, n.id))
    except Missing:
        pass
    out = []
    for l, c, n in sorted(seen):
        if n not in out:
            out.append(n)
    return out or list(STEPS)


def inplace(ctx, tier):
    """components of a queued system that a round of steps can write in place -> example"""
    r = rng('inplace')
    names = [n for n in order(ctx) if ctx.has('srg.solver:' + n)]
    out = {}
    n = 0
    for i in range({'quick': 200, 'thorough': 1000}[tier]):
        env, x, unk = question(r, distinct=True, minc=0 if i % 4 == 0 else 1, maxc=4)
        cur = dict(env)
        owned = set(COMPONENTS)
        for name in names:
            p, ev = at(effects(ctx, name), cur)
            if p is None or p.kind == 'raise':
                break
            n += 1
            for k, line in p.out['w'].items():
                if k in owned:
                    out.setdefault(k, '%s (line %s) on %s' % (name, line, {z: cur[z] for z in ('A', 'b', 'bounds', 'val')}))
            owned &= p.out['kept']
            o = run_at(ctx, name, cur)
            if o[0] != 'state':
                # the loop of the elimination is not evaluated; its result keeps the solution set
                if name != 'eliminate':
                    break
                continue
            st = o[1]
            cur = dict(A=st['A'], b=st['b'], bounds=st['bounds'], quota=st['quota'], val=st['v'], loc=st['loc'],
                       L=st['len'], N=len(st['v']), C=len(st['bounds']), R=len(st['A']))
    return out, n


def branches(rep, ctx, tier, rule='branches-share-no-mutable-state'):
    q = 'srg.solver:' + FORK
    try:
        where = ctx.where(q)
        ps, m, loops = step(ctx, FORK)
        mut, n = inplace(ctx, tier)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return
    path = {'A': m['A'], 'b': m['b'], 'bounds': m['bounds'], 'v': m['ans'] + '.' + m['v'], 'loc': m['ans'] + '.' + m['loc']}
    ny = 0
    for p in ps:
        for e in p.events:
            if e[0] != 'yield' or not e[4] or path['bounds'] not in e[4]:
                continue
            ny += 1
            for k in mut:
                c = e[4].get(path[k])
                if c and c[1] < e[5]:
                    rep.bad(rule, '%s, yield at line %s' % (where, getattr(e[2], 'lineno', '?')),
                            'every branch carries the same array as its %s, which is later written in place by %s' % (k, mut[k]))
                    return
            # one array in two roles of the same branch
            seen = {}
            for k in COMPONENTS:
                c = e[4].get(path[k])
                if c:
                    if c[0] in seen and (k in mut or seen[c[0]] in mut):
                        rep.bad(rule, where, 'one array serves as both %s and %s of a branch and is written in place' % (seen[c[0]], k))
                        return
                    seen[c[0]] = k
    rep.functions.add(where)
    if ny and n:
        rep.ok(rule, where, 'proved', '%d yield sites on abstract paths; components written in place downstream: %s' % (ny, sorted(mut)))
        rep.count('yield sites', ny)
        rep.count('step paths', n)
    else:
        rep.undecided(rule, where, 'no branch recognised')


def copies(rep, ctx, tier, rule='copy-is-independent'):
    """a copied system is equal and shares no array that a step writes in place"""
    m = fields(ctx)
    s = syms()
    I = ctx.I
    q = 'srg.srg:Question.copy'
    try:
        where = ctx.where(q)
        f = ctx.fn(q)
        mut, n = inplace(ctx, tier)
    except Missing as e:
        rep.undecided(rule, q, 'anchor %s not found' % e)
        return

    def go():
        Q = mkQ(ctx, s)
        c0 = I.cells_of(Q)
        Q2 = I.call(I.getattr(Q, 'copy'), [], {})
        return Q, Q2, c0

    def outs(v):
        Q, Q2, c0 = v
        o = state_terms(ctx, Q2, m) if isinstance(Q2, Obj) else {}
        c2 = I.cells_of(Q2)
        path = {'A': m['A'], 'b': m['b'], 'bounds': m['bounds'], 'v': m['ans'] + '.' + m['v'], 'loc': m['ans'] + '.' + m['loc']}
        o['shared'] = [k for k in COMPONENTS if path[k] in c0 and path[k] in c2 and c0[path[k]][0] == c2[path[k]][0]]
        return o
    ps, loops = rb.summarize(ctx, (rule, q), go, outs)
    rep.functions.add(where)
    done = 0
    for p in ps:
        if p.kind == 'raise':
            continue
        done += 1
        bad = [k for k in p.out['shared'] if k in mut]
        if bad:
            rep.bad(rule, where, 'the copy shares its %s with the original, which %s writes in place' % (bad[0], mut[bad[0]]))
            return
    r = rng(rule)
    k = 0
    for i, env, x, unk in systems(ctx, r, 60, lambda i: dict(distinct=True), tier, per=1):
        o = rb.evalat(ctx, ps, env)
        if o[0] == 'raise':
            rep.bad(rule, where, 'copying %s raises %s' % (env, o[1]))
            return
        if o[0] != 'val':
            continue
        k += 1
        st = o[1]
        want = dict(A=env['A'], b=env['b'], bounds=env['bounds'], quota=env['quota'], v=env['val'], loc=env['loc'], len=env['L'])
        for z, y in want.items():
            if rb.norm(st[z]) != y:
                rep.bad(rule, where, 'the copy has %s = %s instead of %s' % (z, st[z], y))
                return
    if done and k:
        rep.ok(rule, where, 'agree', '%d paths, %d valuations' % (done, k))
        rep.count('valuations', k)
    else:
        rep.undecided(rule, where, 'not decided')


# ----------------------------------------------------------------- arguments stay as they are

def intact(rep, ctx, tier, rule='arguments-unchanged'):
    I = ctx.I
    dt = ctx.storage()
    R, C, n, m_, N_ = (tm.sym(x, (), True) for x in ('R', 'C', 'n', 'm', 'N'))
    A = tm.sym('A', (R, C), True)
    b = tm.sym('b', (R,), True)
    S = tm.sym('S', (n, n), True)
    M = tm.sym('M', (R, C), True)
    a = tm.sym('a', (m_,), True)
    bd = tm.sym('bounds', (C,), True)
    L = tm.sym('L', (N_, n, n), True)
    i_, j_, q_ = (tm.sym(x, (), True) for x in ('i', 'j', 'q'))
    r = rng(rule)

    def sysenv():
        env, x, unk = question(r, minc=1)
        return env

    def sysenv1():
        e = sysenv()
        e['q'] = e['quota']
        e['i'] = r.randrange(e['C'])
        return e

    def rows():
        P, full, (v, k, l, u), R_ = pick()
        return dict(M=P, R=R_, C=v, a=[r.randint(0, 1) for _ in range(v - R_ - 1)], m=v - R_ - 1)

    pool = [x for x in rb.prefixes(ctx, r, 40, tier) if x[2][0] <= 60]

    def pick():
        return r.choice(pool)

    def square():
        m = r.choice(mats)
        return dict(S=m, n=len(m), i=r.randrange(len(m)), j=r.randrange(len(m)))
    mats = list(rb.sym_matrices(r, 40))

    def lists():
        m = r.choice([x for x in mats if len(x) <= 5])
        l = []
        for _ in range(r.randint(1, 4)):
            p = list(range(len(m)))
            r.shuffle(p)
            l.append(rb.G.relabel(m, p))
        return dict(L=l, N=len(l), n=len(m))
    arr = lambda t: I.arr(t, dt)
    targets = [
        ('srg.srg:Question.from_matrix', [('M', lambda: arr(M))], rows),
        ('srg.srg:SRG.append_and_return_new', None, rows),
        ('srg.srg:vklu', [('M', lambda: arr(M))], rows),
        ('srg.sorter:maximize', [('S', lambda: arr(S))], square),
        ('srg.sorter:swap', [('S', lambda: arr(S)), i_, j_], square),
        ('srg.sorter:swap_and_verify', [('S', lambda: arr(S)), i_, j_], square),
        ('srg.sorter:sort', [('L', lambda: I.lst_term(L))], lists),
        ('srg.utils:complement', [('S', lambda: arr(S))], square),
        ('srg.unique:reduce', [('A', lambda: arr(A))], sysenv),
        ('srg.gauss_elim:elim', [('A', lambda: arr(A)), ('b', lambda: arr(b))], sysenv),
        ('srg.fork:enum', [q_, ('bounds', lambda: arr(bd)), i_], sysenv1),
        ('srg.bounds:one_element_row_locs', [('A', lambda: arr(A))], sysenv),
        ('srg.bounds:zero_bound_loc', [('bounds', lambda: arr(bd))], sysenv),
    ]
    for q, args, mk in targets:
        if not ctx.has(q):
            rep.undecided(rule, q, 'not found')
            continue
        where = ctx.where(q)
        mod = q.split(':')[0]

        def go():
            if args is None:
                x, y = arr(M), arr(a)
                s = ctx.call('srg.srg:SRG', [x])
                n0 = len(I.events)
                I.call(I.getattr(s, 'append_and_return_new'), [y], {})
                named = [('M', x), ('a', y)]
            else:
                named, vals = [], []
                for z in args:
                    if isinstance(z, tuple):
                        v = z[1]()
                        named.append((z[0], v))
                        vals.append(v)
                    else:
                        vals.append(z)
                n0 = len(I.events)
                try:
                    ctx.call(q, vals)
                except AbsRaise:
                    pass
            locs = {v.loc: k for k, v in named}
            hit = [(locs[e[1]], getattr(e[3], 'lineno', '?')) for e in I.events[n0:] if e[0] == 'write' and e[1] in locs]
            return hit, {k: I.t(v) for k, v in named}
        try:
            ps, loops = rb.summarize(ctx, (rule, q), go, lambda v: dict(hit=v[0], **v[1]), mod)
        except (AnalysisError, Budget) as e:
            rep.undecided(rule, where, str(e))
            continue
        rep.functions.add(where)
        init = {'M': M, 'S': S, 'L': L, 'A': A, 'b': b, 'bounds': bd, 'a': a}
        sus = [(p, k) for p in ps if p.out for k in p.out if k in init and p.out[k] is not init[k]]
        if not sus:
            rep.ok(rule, where, 'proved', '%d paths leave every argument at its initial value number' % len(ps))
            rep.count('paths', len(ps))
            continue
        done = 0
        for _ in range({'quick': 60, 'thorough': 300}[tier]):
            env = mk()
            p, ev = at(ps, env)
            if p is None or not p.out:
                continue
            for k in init:
                if k in p.out and k in env:
                    try:
                        v = ev(p.out[k])
                    except (Unknown, Undef):
                        continue
                    done += 1
                    if rb.norm(v) != rb.norm(env[k]):
                        rep.bad(rule, where, 'the argument %s = %s is changed into %s (written at line %s)' % (
                            k, env[k], rb.norm(v), [l for z, l in p.out['hit'] if z == k][:3]))
                        break
            else:
                continue
            break
        else:
            if done:
                rep.ok(rule, where, 'agree', '%d valuations' % done)
                rep.count('valuations', done)
            else:
                rep.undecided(rule, where, 'written to, value not evaluated')


# ----------------------------------------------------------------- exceptions

def package_modules(ctx, without=('database',)):
    out = []
    base = os.path.join(ctx.repo, 'srg')
    for root, ds, fs in os.walk(base):
        ds[:] = [d for d in ds if d != '__pycache__']
        for f in sorted(fs):
            if not f.endswith('.py') or f.startswith('problem_') or f.startswith('test'):
                continue
            rel = os.path.relpath(os.path.join(root, f), ctx.repo)
            if any(w in rel.split(os.sep) for w in without):
                continue
            out.append(rel)
    return out


def parse(ctx, rel):
    c = ctx.__dict__.setdefault('_parse', {})
    if rel not in c:
        with open(os.path.join(ctx.repo, rel)) as f:
            c[rel] = ast.parse(f.read(), rel)
    return c[rel]


BROAD = {'Exception', 'BaseException', 'AssertionError', 'RuntimeError', 'ArithmeticError', 'OverflowError', 'TypeError'}


def reraises(body):
    """every way through the handler ends in a raise, and not in the report of an infeasible branch"""
    if not body:
        return False
    s = body[-1]
    if leaves(body[:-1], False):
        return False
    if isinstance(s, ast.Raise):
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        return e is None or ast.unparse(e).split('.')[-1] != 'NoSolution'
    if isinstance(s, ast.If):
        return reraises(s.body) and reraises(s.orelse)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        n = ast.unparse(s.value.func)
        return n in ('sys.exit', 'exit', 'os._exit')
    return False


def leaves(body, loop):
    """can the statements end the handler without an exception: a return, or a break or continue of a loop
    around it"""
    for s in body:
        if isinstance(s, ast.Return) or isinstance(s, (ast.Break, ast.Continue)) and not loop:
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        inner = loop or isinstance(s, (ast.For, ast.While))
        for f in ('body', 'orelse', 'finalbody'):
            if leaves(getattr(s, f, None) or [], inner if f == 'body' else loop):
                return True
        for h in getattr(s, 'handlers', None) or []:
            if leaves(h.body, loop):
                return True
    return False


def calls_package(body, ctx, rel, tree):
    """does the guarded code call anything whose failure must not be hidden: any call into this
    package, or an assert"""
    names = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ImportFrom) and (n.level or (n.module or '').startswith('srg')):
            names.update(a.asname or a.name for a in n.names)
    own = set()
    try:
        own = {f.name for c in ast.walk(ctx.tree('srg.srg')) if isinstance(c, ast.ClassDef) for f in c.body
               if isinstance(f, ast.FunctionDef) and not f.name.startswith('__')} - {'copy', 'sort'}
    except Missing:
        pass
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in own:
                return True
            if isinstance(n, (ast.Assert, ast.Raise, ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, ast.Call):
                f = n.func
                while isinstance(f, ast.Attribute):
                    f = f.value
                if isinstance(f, ast.Name) and (f.id in names or f.id in ('func', 'next', 'self')):
                    return True
            if isinstance(n, ast.For):
                return True
    return False


def advances(body):
    """is an iterator advanced by hand, so that its end is expected here"""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'next' or
                                            isinstance(n.func, ast.Attribute) and n.func.attr in ('__next__', 'send')):
                return True
    return False


def runs_search(body, ctx, rel):
    """does the guarded code run parts of the search itself"""
    try:
        own = {n.name for n in ast.walk(ctx.tree('srg.solver')) if isinstance(n, ast.FunctionDef)}
    except Missing:
        return False
    own |= {'from_matrix', 'append_and_return_new', 'binarize'}
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                f = n.func
                if (isinstance(f, ast.Name) and f.id in own and (rel.endswith('solver.py') or 'solve' in f.id)) or \
                        isinstance(f, ast.Attribute) and f.attr in own and not (isinstance(f.value, ast.Name) and f.value.id == 'self'):
                    return True
    return False


def exc_names(ctx, t):
    if t is None:
        return ['BaseException']
    if isinstance(t, ast.Tuple):
        return [x for e in t.elts for x in exc_names(ctx, e)]
    if isinstance(t, ast.Attribute):
        return [t.attr]
    if isinstance(t, ast.Name):
        return [t.id]
    return []


def handlers(rep, ctx, tier, rule='only-infeasibility-is-swallowed'):
    n = 0
    for rel in package_modules(ctx):
        tree = parse(ctx, rel)
        fn = {}
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef):
                for x in ast.walk(f):
                    fn[x] = f.name
        for node in ast.walk(tree):
            if isinstance(node, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
                for h in node.handlers:
                    n += 1
                    bad = [x for x in exc_names(ctx, h.type) if x in BROAD]
                    if not bad and runs_search(node.body, ctx, rel):
                        ok = ('StopIteration', 'GeneratorExit') if advances(node.body) else ('GeneratorExit',)
                        bad = [x for x in exc_names(ctx, h.type) if x not in ok and x in dir(builtins)]
                    if bad and not reraises(h.body) and calls_package(node.body, ctx, rel, tree):
                        rep.bad(rule, '%s:%d %s' % (rel, h.lineno, fn.get(node, '')),
                                'the handler catches %s and goes on: a failed consistency check or programming error is '
                                'treated like a branch without solution' % ', '.join(bad))
                        return
                for s in node.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                            n += 1
                            inner = [y for y in ast.walk(s) if isinstance(y, (ast.For, ast.While, ast.FunctionDef))]
                            if isinstance(x, ast.Return) or not inner:
                                rep.bad(rule, '%s:%d %s' % (rel, x.lineno, fn.get(node, '')),
                                        'a %s in a finally block discards every exception' % type(x).__name__.lower())
                                return
            elif isinstance(node, ast.With):
                for i in node.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and ast.unparse(c.func).split('.')[-1] == 'suppress':
                        n += 1
                        bad = [x for a in c.args for x in exc_names(ctx, a) if x in BROAD or
                               x in dir(builtins) and x != 'StopIteration' and runs_search(node.body, ctx, rel)]
                        if bad and calls_package(node.body, ctx, rel, tree):
                            rep.bad(rule, '%s:%d %s' % (rel, node.lineno, fn.get(node, '')), 'suppresses %s' % ', '.join(bad))
                            return
    rep.ok(rule, 'except clauses of srg', 'proved', '%d handlers, finally blocks and suppressions' % n)
    rep.count('handlers', n)
    # the exception that marks infeasibility is not related to the ones that mark errors
    try:
        c = ctx.fn('srg.srg:NoSolution')
        names = c.mro_names() if isinstance(c, ClassV) else []
        w = [x for x in names if x in ('AssertionError', 'ArithmeticError', 'LookupError', 'ValueError', 'TypeError', 'StopIteration',
                                       'RuntimeError')]
        if 'StopIteration' in w:
            rep.bad(rule, ctx.where('srg.srg:NoSolution'), 'NoSolution is a StopIteration: a generator ends silently on it')
        else:
            rep.ok(rule + ':class', 'srg.srg NoSolution', 'proved', 'bases %s' % names)
    except Missing:
        pass


# ----------------------------------------------------------------- determinism

NONDET = {'random', 'numpy.random', 'secrets', 'uuid', 'time', 'datetime', 'os.urandom', 'os.getpid', 'os.listdir', 'os.scandir',
          'glob', 'threading', 'multiprocessing', 'concurrent', 'id', 'hash', 'default_rng', 'os.environ', 'os.getenv', 'os.environb', 'os.getcwd',
          'os.cpu_count', 'os.path.exists', 'os.path.isfile', 'os.path.getmtime', 'os.stat', 'os.getlogin', 'os.getppid', 'os.times', 'platform',
          'socket', 'getpass', 'psutil', 'resource', 'gc', 'tracemalloc', 'sys.getrefcount', 'sys.getsizeof'}


def is_nondet(name):
    parts = name.split('.')
    return any('.'.join(parts[:i]) in NONDET for i in range(1, len(parts) + 1))


def import_names(tree):
    """local name -> dotted origin, for absolute imports"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            for a in n.names:
                out[a.asname or a.name] = n.module + '.' + a.name
    return out


def dotted(e, imps):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    base = imps.get(e.id, e.id)
    return '.'.join([base] + parts[::-1])


def orderless(e, env):
    """expression is a set whose iteration order depends on hash randomisation (elements that are
    or contain strings or bytes); env: names known to hold such sets"""
    if isinstance(e, ast.Name):
        return e.id in env
    if isinstance(e, ast.Set):
        return any(stringy(x) for x in e.elts)
    if isinstance(e, ast.SetComp):
        return stringy(e.elt)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset') and e.args:
        a = e.args[0]
        if isinstance(a, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return stringy(a.elt)
        if isinstance(a, (ast.List, ast.Tuple)):
            return any(stringy(x) for x in a.elts)
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'map' and a.args:
            return stringy(ast.Call(func=a.args[0], args=[], keywords=[]))
    return False


def stringy(e):
    if isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, (str, bytes)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        return n in ('tobytes', 'tostring', 'str', 'repr', 'bytes', 'join', 'format', 'hex', 'array2string')
    if isinstance(e, ast.Tuple):
        return any(stringy(x) for x in e.elts)
    return False


def taint(fn, imps):
    """nondeterministic values reaching a return, a yield, a branch, an assignment to state or a call
    argument of the function -> (line, source)"""
    tainted = {}
    sets = set()

    bound = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.arg for n in ast.walk(fn) if isinstance(n, ast.arg)}

    def src(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                d = dotted(n.func, imps)
                if d and is_nondet(d):
                    return d
                # a source handed over as a function: sorted(x, key=id), map(id, x)
                for a in list(n.args) + [k.value for k in n.keywords]:
                    d = dotted(a, imps) if isinstance(a, (ast.Name, ast.Attribute)) else None
                    if d and d not in bound and is_nondet(d) and (d in ('id', 'hash') or d in imps.values()):
                        return d
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                d = dotted(n, imps)
                if d and d.split('.')[:2] in (['os', 'environ'], ['os', 'environb']):
                    return 'os.environ'
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in tainted:
                return tainted[n.id]
            if isinstance(n, (ast.comprehension,)) and orderless(n.iter, sets):
                return 'iteration over a set of strings'
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'enumerate', 'next', 'iter', 'zip') \
                    and n.args and orderless(n.args[0], sets):
                return 'order of a set of strings'
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'sorted') and n.args \
                    and any(k.arg == 'key' for k in n.keywords) and orderless(n.args[0], sets):
                return 'order of a set of strings where keys are equal'
            if isinstance(n, ast.Call) and n.args and (
                    isinstance(n.func, ast.Attribute) and n.func.attr in ('join', 'fromkeys', 'fromiter', 'chain', 'islice') and any(orderless(a, sets) for a in n.args)
                    or dotted(n.func, imps) in ('functools.reduce', 'reduce', 'map', 'filter', 'dict.fromkeys') and len(n.args) > 1 and orderless(n.args[1], sets)):
                return 'order of a set of strings'
            if isinstance(n, ast.Starred) and orderless(n.value, sets):
                return 'order of a set of strings'
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and orderless(n.func.value, sets):
                return 'pop from a set of strings'
        return None
    hits = []
    for _ in range(3):
        hits = []
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                s = src(n.value)
                for t in n.targets:
                    if orderless(n.value, sets) and isinstance(t, ast.Name):
                        sets.add(t.id)
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and s:
                            tainted[x.id] = s
                        elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and s:
                            hits.append((n.lineno, s, 'stored'))
            elif isinstance(n, (ast.AugAssign, ast.NamedExpr)):
                s = src(n.value)
                if s and isinstance(n.target, ast.Name):
                    tainted[n.target.id] = s
            elif isinstance(n, (ast.For,)):
                s = src(n.iter) or ('iteration over a set of strings' if orderless(n.iter, sets) else None)
                if s:
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            tainted[x.id] = s
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add' and isinstance(n.func.value, ast.Name) \
                    and n.args and stringy(n.args[0]):
                sets.add(n.func.value.id)
        for n in ast.walk(fn):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None:
                s = src(n.value)
                if s:
                    hits.append((n.lineno, s, 'returned'))
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                s = src(n.test)
                if s:
                    hits.append((n.lineno, s, 'decides a branch'))
            elif isinstance(n, ast.Call):
                d = dotted(n.func, imps)
                if d and d.split('.')[-1] == 'shuffle' and is_nondet(d):
                    hits.append((n.lineno, d, 'reorders its argument'))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'appendleft', 'setdefault') and \
                        any(src(a) for a in n.args):
                    hits.append((n.lineno, [src(a) for a in n.args if src(a)][0], 'stored'))
    return hits


def identity_sets(f, members, classes):
    """iteration over a set of objects that hash by identity: its order differs from run to run"""
    made = {t.id for n in ast.walk(f) if isinstance(n, ast.Assign) and is_set(n.value) for t in n.targets if isinstance(t, ast.Name)}

    def setlike(e):
        return is_set(e) or isinstance(e, ast.Name) and e.id in made
    for n in ast.walk(f):
        if isinstance(n, (ast.For, ast.comprehension)) and setlike(n.iter) and isinstance(n.target, ast.Name):
            for y in ast.walk(f):
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == n.target.id and y.attr in members:
                    return getattr(n, 'lineno', n.iter.lineno)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'map' and len(n.args) == 2 and setlike(n.args[1]) and \
                isinstance(n.args[0], ast.Name) and n.args[0].id in classes:
            return n.lineno
    return None


def is_set(e):
    return isinstance(e, (ast.Set, ast.SetComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset') and bool(e.args)


def identity_members(ctx):
    """what objects of the package's classes without an equality of their own offer, and the functions that take one"""
    members, owners, takes = set(), set(), set()
    for rel in package_modules(ctx):
        for c in parse(ctx, rel).body:
            if isinstance(c, ast.ClassDef) and not any(isinstance(f, ast.FunctionDef) and f.name in ('__eq__', '__hash__') for f in c.body):
                if not any('Exception' in ast.unparse(b) or 'tuple' in ast.unparse(b).lower() for b in c.bases):
                    owners.add(c.name)
                    members |= {f.name for f in c.body if isinstance(f, ast.FunctionDef)}
    for rel in package_modules(ctx):
        for f in ast.walk(parse(ctx, rel)):
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].annotation is not None and ast.unparse(f.args.args[0].annotation).split('.')[-1] in owners:
                takes.add(f.name)
    return members, takes


def determinism(rep, ctx, tier, rule='no-nondeterministic-source'):
    n = 0
    members, takes = identity_members(ctx)
    for rel in package_modules(ctx, without=()):
        tree = parse(ctx, rel)
        imps = import_names(tree)
        for f in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))]:
            n += 1
            h = taint(f, imps)
            z = identity_sets(f, members, takes)
            if z is not None:
                rep.bad(rule, '%s:%d %s' % (rel, z, getattr(f, 'name', '<lambda>')), 'the order of a set of objects that hash by identity decides')
                return
            if h:
                l, s, how = h[0]
                rep.bad(rule, '%s:%d %s' % (rel, l, getattr(f, 'name', '<lambda>')), 'a value of %s is %s' % (s, how))
                return
        top = ast.Module(body=[s for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])
        h = taint(top, imps)
        n += 1
        if h:
            rep.bad(rule, '%s:%d' % (rel, h[0][0]), 'a value of %s is %s' % (h[0][1], h[0][2]))
            return
    rep.ok(rule, 'srg', 'proved', '%d functions free of nondeterministic sources in their results' % n)
    rep.count('functions scanned', n)


# ----------------------------------------------------------------- state kept between calls

def module_state(rep, ctx, tier, rule='no-state-between-runs', only=None):
    """no function of the search keeps mutable state in module, class or default-argument objects,
    so that one call cannot influence the next; restricted to some modules, only caches that answer wrongly are looked for"""
    n = 0
    for rel in package_modules(ctx, without=()):
        if only and os.path.relpath(rel, 'srg') not in only:
            continue
        tree = parse(ctx, rel)
        mutable = {}
        classes = [c for c in tree.body if isinstance(c, ast.ClassDef)]
        for s in tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and is_mutable(s.value):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        mutable[t.id] = s.lineno
        for f in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
            n += 1
            a = f.args
            local = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    local.add(x.id)
            glob = {g for x in ast.walk(f) if isinstance(x, (ast.Global,)) for g in x.names}
            ds = dict(zip([x.arg for x in (a.posonlyargs + a.args)][-len(a.defaults):] if a.defaults else [], a.defaults))
            ds.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            shared = {k: 'default argument' for k, d in ds.items() if is_mutable(d)}
            rebound = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            shared = {k: v for k, v in shared.items() if k not in rebound}
            shared.update({k: 'module variable' for k in mutable if k not in local or k in glob})
            which = outliving(tree, f)
            for x in ast.walk(f):
                w = written(x)
                if which(w):
                    shared[w] = which(w)
                for t in x.targets if isinstance(x, ast.Assign) and not only else ():
                    if which(place(t)) and any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and y.attr == t.attr for y in ast.walk(tree)):
                        rep.bad(rule, '%s:%d %s' % (rel, x.lineno, f.name), 'the %s %s is reassigned and read later' % (which(place(t)), place(t)))
                        return
                if w in shared:
                    # a cache that only ever answers with what would be computed again is no state
                    if keyed(x):
                        why = bad_cache(f, x, w)
                        if why:
                            rep.bad(rule, '%s:%d %s' % (rel, x.lineno, f.name), 'the %s %s is kept between calls and %s' % (shared[w], w, why))
                            return
                        continue
                    if only:
                        continue
                    rep.bad(rule, '%s:%d %s' % (rel, x.lineno, f.name), 'the %s %s is modified and lives on after the call' % (shared[w], w))
                    return
            memo = [d for d in f.decorator_list if ast.unparse(d).split('(')[0].split('.')[-1] in ('lru_cache', 'cache')]
            if memo and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
                rep.bad(rule, '%s:%d %s' % (rel, f.lineno, f.name), 'a cached generator is used up after the first call')
                return
            for g in () if only else glob:
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == g for x in ast.walk(f)) and \
                        any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id == g for x in ast.walk(tree)):
                    rep.bad(rule, '%s:%d %s' % (rel, f.lineno, f.name), 'the module variable %s is reassigned and read later' % g)
                    return
    rep.ok(rule, 'srg', 'proved', '%d functions' % n)
    rep.count('functions scanned', n)


def is_mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = ast.unparse(e.func).split('.')[-1]
        return n in ('list', 'dict', 'set', 'defaultdict', 'deque', 'OrderedDict', 'Counter', 'zeros', 'ones', 'array', 'empty', 'count')
    return False


LOSSY = {'len', 'hash', 'id', 'sum', 'min', 'max', 'any', 'all', 'type', 'round', 'bool', 'set', 'frozenset', 'sorted'}
LOSSY_ATTR = {'shape', 'size', 'ndim', 'sum', 'min', 'max', 'any', 'all', 'trace', 'mean', '__class__', 'dtype', 'prod', 'argmin',
              'argmax'}


def covered(key, name, arrays):
    """does the key expression determine the value of the variable"""
    parent = {}
    for n in ast.walk(key):
        for c in ast.iter_child_nodes(n):
            parent[c] = n
    for n in ast.walk(key):
        if isinstance(n, ast.Name) and n.id == name:
            x, ok = n, True
            while x in parent:
                q = parent[x]
                if isinstance(q, ast.Call) and x in q.args and isinstance(q.func, ast.Name):
                    if q.func.id in LOSSY or q.func.id in ('str', 'repr') and name in arrays:
                        ok = False
                if isinstance(q, ast.Attribute) and q.attr in LOSSY_ATTR or isinstance(q, (ast.Subscript, ast.BinOp, ast.Compare, ast.IfExp, ast.BoolOp)):
                    ok = False
                x = q
            if ok:
                return True
    return False


def bad_cache(f, x, w):
    """why the keyed store x into w can make a later call answer differently, or None"""
    stores = []
    for n in ast.walk(f):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and place(t.value) == w:
                    stores.append((t.slice, n.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault' and \
                place(n.func.value) == w and len(n.args) == 2:
            stores.append((n.args[0], n.args[1]))
    if not stores:
        return None
    params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
    ann = {a.arg: ast.unparse(a.annotation) for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs if a.annotation is not None}
    scalar = {p for p in params if ann.get(p) in ('int', 'str', 'bool')}
    # what each local is computed from
    dep = {p: {p} for p in params}
    single = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            single.setdefault(n.targets[0].id, []).append(n.value)
    for _ in range(6):
        for n in ast.walk(f):
            tg, v = None, None
            if isinstance(n, ast.Assign):
                tg, v = n.targets, n.value
            elif isinstance(n, (ast.AugAssign, ast.NamedExpr)):
                tg, v = [n.target], n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                tg, v = [n.target], n.iter
            if tg:
                d = set()
                for y in ast.walk(v):
                    if isinstance(y, ast.Name):
                        d |= dep.get(y.id, set())
                for t in tg:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                            dep[y.id] = dep.get(y.id, set()) | d
    rets = [n.value for n in ast.walk(f) if isinstance(n, ast.Return) and n.value is not None]
    for key, val in stores:
        while isinstance(key, ast.Name) and key.id in single and len(single[key.id]) == 1:
            key = single[key.id][0]
        need = set()
        for y in ast.walk(val):
            if isinstance(y, ast.Name):
                need |= dep.get(y.id, set())
        # the branch taken also selects what is stored
        for p in sorted(need):
            if p == 'cls' or p == 'self':
                continue
            if not covered(key, p, set(params) - scalar):
                return 'its key %s does not determine %s, on which the stored value depends' % (ast.unparse(key), p)
        # what is looked up later has to be what was returned now
        if isinstance(val, (ast.List, ast.Dict, ast.Set, ast.Tuple)) and not (getattr(val, 'elts', None) or getattr(val, 'keys', None)) \
                or isinstance(val, ast.Constant):
            other = [v2 for k2, v2 in stores if v2 is not val]
            used = [y for y in ast.walk(f) if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load) and place(y.value) == w]
            why = flag_read(f, w, val, rets)
            if why:
                return why
            if not other and used and any(not (isinstance(v2, ast.Subscript) or ast.dump(v2) == ast.dump(val)) for v2 in rets) \
                    and not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Subscript)
                                and place(y.func.value.value) == w for y in ast.walk(f)):
                return 'a later call gets %s from it instead of what was computed' % ast.unparse(val)
        if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(f)):
            continue
        if isinstance(val, ast.GeneratorExp) or isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id in ('iter', 'map', 'filter', 'zip'):
            return 'it keeps an iterator, which is used up after the first call'
    return None


def mentions(e, w):
    return any(place(y) == w for y in ast.walk(e))


def flag_read(f, w, val, rets):
    """a constant is stored under the key: whether it is there later may decide only what it says itself"""
    if not isinstance(val, ast.Constant):
        return None
    tests = []
    for n in ast.walk(f):
        if isinstance(n, (ast.If, ast.IfExp)):
            for y in ast.walk(n.test):
                if isinstance(y, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in y.ops) and any(place(c) == w for c in y.comparators) or \
                        isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'get' and place(y.func.value) == w or \
                        isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load) and place(y.value) == w:
                    tests.append(n)
    if not tests:
        return None
    if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(f)):
        return 'whether a key was met before decides what a later call yields'
    plain = [r for r in rets if not mentions(r, w)]
    if all(isinstance(r, ast.Constant) for r in plain):
        return None
    for t in tests:
        if isinstance(t, ast.If):
            here = [y.value for b in t.body for y in ast.walk(b) if isinstance(y, ast.Return)]
            if here and all(y is not None and (mentions(y, w) or ast.dump(y) == ast.dump(val)) for y in here):
                continue
        elif ast.dump(t.body) == ast.dump(val):
            continue
        return 'whether a key was met before decides what a later call returns'
    return None


def place(e):
    """name of a plain or dotted place, None otherwise"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        if ast.unparse(e.value) in ('self.__class__', 'type(self)'):
            return 'cls.' + e.attr
        b = place(e.value)
        return b and b + '.' + e.attr
    return None


def keyed(x):
    return isinstance(x, ast.Subscript) or isinstance(x, ast.Call) and x.func.attr in ('setdefault',)


def written(x):
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
            'append', 'extend', 'add', 'insert', 'update', 'pop', 'popleft', 'clear', 'remove', 'discard', 'setdefault', 'appendleft',
            'sort', 'reverse', 'fill'):
        return place(x.func.value)
    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
        return place(x.value)
    if isinstance(x, ast.AugAssign):
        return place(x.target)
    return None


def outliving(tree, f):
    """dotted places that live on after a call of f: attributes of the module's functions and classes, of
    imported modules, of the class itself; objects made once in a class body and never per instance"""
    names = {x.name: 'function' for x in tree.body if isinstance(x, ast.FunctionDef)}
    names.update({x.name: 'class' for x in tree.body if isinstance(x, ast.ClassDef)})
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and n.level:
            for a in n.names:
                names[a.asname or a.name.split('.')[0]] = 'module'
    names['cls'] = 'class'
    local = {x.arg for x in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} - {'cls'}
    local |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    once = set()
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and any(x is f for x in ast.walk(c)):
            own = {place(t) for x in ast.walk(c) if isinstance(x, (ast.Assign, ast.AnnAssign)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target])}
            for s in c.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and is_mutable(s.value):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Name) and 'self.' + t.id not in own:
                            once.add('self.' + t.id)
    def which(w):
        if w is None or '.' not in w:
            return None
        if w in once:
            return 'class variable'
        root = w.split('.')[0]
        if root in names and root not in local:
            return 'attribute of a ' + names[root]
        return None
    return which


# ----------------------------------------------------------------- equality of systems

def other_syms():
    s = {x: tm.sym('o' + x, (), True) for x in ('R', 'C', 'N', 'L', 'quota')}
    s['A'] = tm.sym('oA', (s['R'], s['C']), True)
    s['b'] = tm.sym('ob', (s['R'],), True)
    s['bounds'] = tm.sym('obounds', (s['C'],), True)
    s['val'] = tm.sym('oval', (s['N'],))
    s['loc'] = tm.sym('oloc', (s['N'],), True)
    return s


def swap(r, l):
    i, j = r.sample(range(len(l)), 2)
    l[i], l[j] = l[j], l[i]
    return i, j


KINDS = ['entry of the matrix', 'right hand side', 'quota', 'bound', 'assigned value', 'length',
         'dropped equation', 'bucket position', 'dropped column', 'order of the right hand sides',
         'order of the bounds', 'order of the equations', 'order of the columns', 'order of the assigned values',
         'pair of bucket positions', 'pair of right hand sides', 'pair of bounds', 'pair of assigned values',
         'right hand side by far', 'quota by far', 'bound by far', 'length by far', 'last equation', 'last bound',
         'last bucket position']


def tweak(r, env, kind=None):
    """a well-formed system that differs from env in exactly one respect, and its name"""
    for _ in range(50):
        e = deepcopy(env)
        k = kind or r.choice(KINDS)
        far = r.choice([2, 7, 128, 256, 2 ** 16, 2 ** 32, 2 ** 64, 1000])
        if k.startswith('pair of'):
            # the sum stays as it is
            w = {'pair of bucket positions': 'loc', 'pair of right hand sides': 'b', 'pair of bounds': 'bounds'}.get(k, 'val')
            idx = [i for i, x in enumerate(e[w]) if (x >= 0 if w == 'val' else i if w == 'loc' else True)]
            if len(idx) < 2:
                continue
            i, j = r.sample(idx, 2)
            e[w][i] += 1
            e[w][j] -= 1
            if e[w][j] < 0 or w == 'loc' and any(y <= x for x, y in zip(e['loc'], e['loc'][1:] + [e['L']])):
                continue
        elif k == 'right hand side by far' and e['R']:
            e['b'][r.randrange(e['R'])] += far
        elif k == 'quota by far':
            e['quota'] += far
        elif k == 'bound by far' and e['C']:
            e['bounds'][r.randrange(e['C'])] += far
        elif k == 'length by far':
            e['L'] += far
        elif k == 'last equation' and e['R']:
            e['b'][-1] += 1
        elif k == 'last bound' and e['C']:
            e['bounds'][-1] += 1
        elif k == 'last bucket position' and e['N'] > 1 and e['loc'][-1] + 1 < e['L']:
            e['loc'][-1] += 1
        elif k.endswith('by far') or k.startswith('last'):
            continue
        elif k == 'entry of the matrix' and e['R'] and e['C']:
            i, j = r.randrange(e['R']), r.randrange(e['C'])
            e['A'][i][j] = 1 - e['A'][i][j]
        elif k == 'right hand side' and e['R']:
            e['b'][r.randrange(e['R'])] += 1
        elif k == 'quota':
            e['quota'] += 1
        elif k == 'bound' and e['C']:
            e['bounds'][r.randrange(e['C'])] += 1
        elif k == 'assigned value' and any(x >= 0 for x in e['val']):
            i = r.choice([i for i, x in enumerate(e['val']) if x >= 0])
            e['val'][i] += 1
        elif k == 'length':
            e['L'] += 1
        elif k == 'dropped equation' and e['R'] > 1:
            e['A'].pop()
            e['b'].pop()
            e['R'] -= 1
        elif k == 'bucket position' and e['N'] > 1:
            gaps = [i for i in range(1, e['N']) if e['loc'][i] - e['loc'][i - 1] > 1]
            if not gaps:
                continue
            e['loc'][r.choice(gaps)] -= 1
        elif k == 'dropped column' and e['C']:
            j = r.randrange(e['C'])
            e['A'] = [[x for c, x in enumerate(row) if c != j] for row in e['A']]
            e['bounds'].pop(j)
            i = [i for i, x in enumerate(e['val']) if x < 0][j]
            e['val'][i] = 0
            e['C'] -= 1
        elif k == 'order of the right hand sides' and e['R'] > 1:
            swap(r, e['b'])
        elif k == 'order of the bounds' and e['C'] > 1:
            swap(r, e['bounds'])
        elif k == 'order of the equations' and e['R'] > 1:
            i, j = swap(r, e['A'])
            e['b'][i], e['b'][j] = e['b'][j], e['b'][i]
        elif k == 'order of the columns' and e['C'] > 1:
            i, j = r.sample(range(e['C']), 2)
            for row in e['A']:
                row[i], row[j] = row[j], row[i]
        elif k == 'order of the assigned values':
            at_ = [i for i, x in enumerate(e['val']) if x >= 0]
            if len(at_) < 2:
                continue
            i, j = r.sample(at_, 2)
            e['val'][i], e['val'][j] = e['val'][j], e['val'][i]
        else:
            continue
        if e == env:
            continue
        return k, e
    return (None, None) if kind else ('quota', dict(env, quota=env['quota'] + 1))


def equality(rep, ctx, tier, rule='equal-iff-same-state', which=('same', 'different')):
    """two systems (two partial answers) compare equal exactly when every component is equal"""
    I = ctx.I
    dt = ctx.storage()
    a, o = syms(), other_syms()

    def ans(s):
        return ctx.call('srg.srg:Answer', [], dict(value=I.arr(s['val'], dt), location=I.arr(s['loc'], 'int64'), len=s['L']))

    def goA():
        x, y = ans(a), ans(o)
        return I.compare(ast.Eq(), x, y)

    def goQ():
        x, y = mkQ(ctx, a), mkQ(ctx, o)
        return I.compare(ast.Eq(), x, y)
    for q, go, parts in (('srg.srg:Question.__eq__', goQ, None), ('srg.srg:Answer.__eq__', goA, ('assigned value', 'length', 'bucket position', 'order of the assigned values', 'pair of bucket positions', 'pair of assigned values',
                 'length by far', 'last bucket position'))):
        if not ctx.has(q):
            rep.undecided(rule, q, 'not found')
            continue
        where = ctx.where(q)
        rep.functions.add(where)
        r = rng(rule + q)
        try:
            ps, loops = rb.summarize(ctx, (rule, q), go, lambda v: {'ret': I.t(v)}, 'srg.srg')
        except (AnalysisError, Budget, Missing) as e:
            rep.undecided(rule, where, str(e))
            continue
        n, why = 0, {}
        def empty():
            # the corners in combination: many rows or columns or none, nothing left to distribute, nothing known
            for j, (rows, cols, sparse, known, big) in enumerate(itertools.product((1, 10, 40), (0, 1, 3, 12), (0, 1, None), (0, 1, 12), (1, 4, 40))):
                if tier == 'quick' and j % 2:
                    continue
                yield (j,) + question(r, distinct=True, minr=rows, maxr=rows + 2, minc=min(cols, 3 if rows < 4 else cols), maxc=max(cols, 3), sparse=sparse, known=known or (cols == 0), maxsize=big,
                                      tight=j % 3)
        def pairs():
            base = {'quick': 300, 'thorough': 1500}[tier]
            turn = itertools.cycle(range(len(kinds)))
            for i, env, x, unk in itertools.chain(systems(ctx, r, base, lambda i: dict(distinct=True, known=None if i % 2 else 3), tier, per=2), empty()):
                if i % 3 == 0:
                    yield None, env, env
                if i % 3 or i >= base:
                    k, e2 = tweak(r, env)
                    if k in kinds:
                        yield k, env, e2
                if i >= base or i % 8 == 0:
                    # the large and the extreme ones: every respect in turn
                    for _ in range(3):
                        k, e2 = tweak(r, env, kinds[next(turn)])
                        if k:
                            yield k, env, e2
        kinds = [k for k in KINDS if not parts or k in parts]
        for k, env, e2 in pairs():
            full = dict(env)
            full.update({'o' + z: y for z, y in deepcopy(e2).items()})
            res = rb.evalat(ctx, ps, full, None, loops)
            if res[0] in ('unknown', 'undef'):
                why[str(res[1])[:60]] = why.get(str(res[1])[:60], 0) + 1
                continue
            n += 1
            if k is None and 'same' in which:
                if res[0] == 'raise' or not res[1]['ret']:
                    rep.bad(rule, where, '%s although both sides have the state %s' % (
                        'raises ' + res[1] if res[0] == 'raise' else 'gives False', env))
                    break
            elif k is not None and 'different' in which:
                if res[0] == 'raise' or res[1]['ret']:
                    rep.bad(rule, where, '%s although the two sides differ in one %s: %s and %s' % (
                        'raises ' + str(res[1]) if res[0] == 'raise' else 'gives True', k, env, e2))
                    break
        else:
            if n:
                rep.ok(rule, where, 'agree', '%d pairs of states (undecided %s)' % (n, why))
                rep.count('valuations', n)
            else:
                rep.undecided(rule, where, str(why))
