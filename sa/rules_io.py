"""Rules over the command lines, the catalogue and the files the package writes."""
import itertools
import math
import ast
import re
import sys
from .core import *
from .interp import Spread, Frame, STR
from .vals import rng
from . import rules_build as rb
from . import graphs as G
from .rules_effect import package_modules, parse, import_names, dotted, written

APIS = ('srg.solver.solve', 'srg.solver._seed', 'srg.sorter.sort', 'srg.database.list_problems', 'srg.database.get_solutions',
        'srg.database.draw')


def run_main(ctx, mod, argc, hooked):
    """paths of a command line module given argc symbolic arguments"""
    key = (mod, argc, tuple(hooked))
    c = ctx.__dict__.setdefault('_mains', {})
    if key in c:
        return c[key]
    I = ctx.I
    if I.modpath(mod) is None:
        raise Missing(mod)

    def api(name):
        def h(I_, f, args, kw):
            t = T('call', 'api:' + name, *[I_.t(a) if not isinstance(a, Spread) else a.term for a in args])
            I_.emit('api', name, [I_.t(a) if not isinstance(a, Spread) else a.term for a in args], dict(kw), I_.cur)
            return t
        return h

    def go():
        I.argv = [STR('prog')] + [T('strsym', 'arg%d' % i) for i in range(1, argc + 1)]
        I.modules.pop(mod + '#main', None)
        m = I.load(mod, True)
        f = Frame(m)
        f.vars = m.ns
        I.frames = [f]
        I.out = I.lst([])
        m.ns['__out__'] = I.out
        I.block(m.tree.body)
        return I.t(I.out)
    saved = dict(I.hooks)
    for n in hooked:
        I.hooks[n] = api(n)
    try:
        ctx.mod('srg.srg')
        for n in hooked:
            ctx.mod(n.rpartition('.')[0])
        ps = summary(ctx, go, lambda v: {'out': v}, 'srg.srg')
    finally:
        I.hooks.clear()
        I.hooks.update(saved)
        I.argv = I.out = None
        I.modules.pop(mod + '#main', None)
    c[key] = ps
    return ps


def main_path(ps, env, uf=None):
    """the path at a command line -> ('path', p, ev, i) where i is the number of events before a failed
    assertion (or all of them)"""
    ev = Ev(env, {'click.style': lambda text, *a: text, **(uf or {})})
    unk = None
    for p in ps:
        try:
            if not all(ev(c) for c in p.conds):
                continue
        except (Unknown, Undef) as e:
            unk = str(e)
            continue
        stop = None
        for i, e in enumerate(p.events):
            if e[0] == 'assert':
                try:
                    if ev(e[1]) is False:
                        stop = i
                        break
                except (Unknown, Undef):
                    pass
        return p, ev, stop
    return None, unk, None


def calls(p, stop):
    return [e for i, e in enumerate(p.events) if e[0] == 'api' and (stop is None or i < stop)]


def val(ev, t):
    try:
        return rb.norm(ev(t))
    except (Unknown, Undef):
        return None


def argenv(xs):
    return {T('strsym', 'arg%d' % (i + 1)): str(x) for i, x in enumerate(xs)}


PARAMS = [(13, 6, 2, 3), (10, 3, 0, 1), (16, 5, 0, 2), (5, 2, 0, 1), (12, 6, 0, 6), (28, 12, 6, 4), (50, 7, 0, 1), (36, 15, 6, 6)]
BAD = [(13, 6, 2, 4), (10, 3, 1, 1), (16, 5, 1, 2), (11, 6, 2, 3), (28, 12, 4, 6), (12, 6, 6, 0), (14, 6, 2, 3), (50, 7, 1, 0)]


def params_around(ctx, tag, cap=400):
    """feasible parameters, some with a number around every constant the source mentions, and infeasible
    neighbours of them"""
    r = rng(tag)
    good, bad = list(PARAMS), list(BAD)
    fam = [x[0] for x in G.family(cap)]
    for z in ctx.sizes(cap, (64, 128, 256, 300)):
        for j in range(4):
            hit = [p for p in fam if z <= p[j] <= z + 2]
            if hit:
                good.append(r.choice(hit))
    for p in good[len(PARAMS):]:
        j = r.randrange(4)
        q = tuple(x + (r.choice([-1, 1]) if i == j else 0) for i, x in enumerate(p))
        if min(q) >= 0 and q[1] < q[0] and off(*q):
            bad.append(q)
    # the smallest graphs, every small set of numbers that is none, and numbers in another order
    good += [(4, 2, 0, 2), (6, 3, 0, 3), (4, 1, 0, 0), (6, 2, 1, 0), (2, 1, 0, 0)]
    small = [p for p in itertools.product(range(1, 8), range(0, 7), range(0, 6), range(0, 6)) if off(*p) and p[1] < p[0]]
    bad += r.sample(small, 60) + [p for p in small if p[0] < 5 and max(p) < 4]
    bad += [q for p in good[:3] for q in sorted(set(itertools.permutations(p))) if off(*q)]
    for d in sorted(set(ctx.sizes(1100, (10, 100, 128, 256, 512, 1000, 1024)))):
        bad.append((2 + d, 1, 0, 1))
    return good, bad


def off(v, k, l, u):
    return (v - k - 1) * u != k * (k - l - 1)


def near(ctx, mod, words):
    """words that resemble the given ones, or any text the module mentions, without being one of them"""
    out = set()
    try:
        lits = {n.value for n in ast.walk(ctx.tree(mod)) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    except Missing:
        lits = set()
    for w in sorted(lits | set(words)):
        if not 0 < len(w) < 12 or ' ' in w:
            continue
        out |= {w, w[:1], w[:2], w[:-1], w + 's', w + 'x', 'x' + w, w.upper(), w.capitalize(), w[::-1], w + w, '-' + w}
    return sorted(out - set(words) - {''})


def solve_cli(rep, ctx, tier, which=('valid', 'dispatch', 'output', 'whole')):
    mod = 'srg.__main__'
    where = 'srg/__main__.py'
    hooked = ['srg.solver.solve']
    try:
        ps = run_main(ctx, mod, 4, hooked)
    except (Missing, AnalysisError, Budget) as e:
        for w in which:
            rep.undecided('solve-command-' + w, where, str(e))
        return
    rep.functions.add(where)
    n = read = 0
    mats = [[[0, 0, 1], [0, 0, 1], [1, 1, 0]], [[0, 1, 1], [1, 0, 0], [1, 0, 0]], [[0, 1, 0], [1, 0, 1], [0, 1, 0]]]
    good, infeasible = params_around(ctx, 'solve')
    many = {i: z for i, z in enumerate(sorted({*ctx.sizes(140, (20, 120)), *ctx.marks(4000)}, reverse=True)[:36], len(PARAMS))}
    r = rng('solve-lists')
    real = {(2, 1, 0, 0): [[[0, 1], [1, 0]]], (4, 1, 0, 0): [[[0, 1, 0, 0], [1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]]}
    for m, p_ in G.all_small():
        if len(m) < 7:
            real.setdefault(tuple(p_), []).append(m)
    # answers whose text is longer than any constant of the source
    texts = [z for z in ctx.sizes(10 ** 6, ()) if z > 3000]
    long = {i: math.isqrt(z // 2) + 2 for i, z in enumerate(texts[-2:], len(PARAMS) + len(many))}
    for ip, prm in enumerate(good):
        env = argenv(prm)
        sols = mats if prm[0] % 2 else mats[:2]
        if prm in real:
            sols = real[prm]
        if ip in long:
            sols = [[[int(i != j and (i * j) % 7 < 3) for j in range(long[ip])] for i in range(long[ip])]] + mats[:1]
        if ip in many:
            # distinct matrices, told apart by their upper triangles
            c = max(5, many[ip].bit_length())
            sols = []
            for x in r.sample(range(2 ** (c * (c - 1) // 2)), many[ip]):
                m = [[0] * c for _ in range(c)]
                for i in range(c):
                    for j in range(i):
                        m[i][j] = m[j][i] = x & 1
                        x >>= 1
                sols.append(m)
        seen = []

        def SOLVE(s):
            seen.append(s)
            return sols
        p, ev, stop = main_path(ps, env, {'api:srg.solver.solve': SOLVE})
        if p is None:
            continue
        n += 1
        cmd = 'python -m srg %d %d %d %d' % prm
        if p.kind == 'raise' or stop is not None:
            why = 'raises %s' % p.exc if p.kind == 'raise' else 'fails an assertion'
            rep.bad('solve-command-dispatch' if 'dispatch' in which else 'solve-command-' + which[0], where, '%s %s' % (cmd, why))
            return
        cs = calls(p, None)
        if 'dispatch' in which or 'output' in which:
            if len([c for c in cs if c[1].endswith('solve')]) != 1:
                rep.bad('solve-command-dispatch', where, '%s starts %d searches' % (cmd, len(cs)))
                return
            a = cs[0][2][0] if cs[0][2] else None
            m = None
            try:
                o = ev(a)
                if isinstance(o, tuple) and isinstance(o[1], dict):
                    ms = [x for x in o[1].values() if isinstance(x, list)]
                    m = ms[0] if len(ms) == 1 else None
            except (Unknown, Undef):
                m = None
            if m is not None and rb.norm(m) != G.seed(*prm):
                rep.bad('solve-command-dispatch', where, '%s searches from the rows %s instead of the first two rows of a (%d,%d,%d,%d) problem' % (
                    (cmd, rb.norm(m)) + prm))
                return
        if 'output' in which:
            try:
                out = ev(p.out['out'])
            except (Unknown, Undef):
                continue
            read += 1
            txt = [''.join(str(x) for x in l[1:]) for l in out]
            order = sorted(sols, key=rb.triangle)
            want = [str(m) for m in order]
            got = [t for t in txt if t.replace(' ', '').startswith('[[') or t.replace(' ', '').startswith('array([[')]
            if got == want:
                continue
            flat = [t for t in txt if any(w in t for w in want)]
            if len(flat) and ''.join(flat).replace(' ', '') == ''.join(want).replace(' ', ''):
                continue
            # found in another shape
            alltxt = '\n'.join(txt)
            pos = [alltxt.find(w) for w in want]
            if all(x >= 0 for x in pos) and pos == sorted(pos) and sum(alltxt.count(w) for w in want) == len(want):
                continue
            if not any(isinstance(x, (list, str)) and '[[' in str(x) for l in out for x in l[1:]) and any(len(str(l)) > 60 for l in out):
                continue            # a layout this rule does not read
            rep.bad('solve-command-output', where, 'of the %d answers %s it prints %s' % (len(order), str(order)[:300], str(flat or txt)[:300]))
            return
    bad = 0
    if 'valid' in which:
        for prm in infeasible:
            env = argenv(prm)
            p, ev, stop = main_path(ps, env, {'api:srg.solver.solve': lambda s: []})
            if p is None:
                continue
            bad += 1
            if calls(p, stop):
                rep.bad('solve-command-valid', where, 'python -m srg %d %d %d %d starts a search although (v-k-1)u is not k(k-l-1)' % prm)
                return
            if p.kind != 'raise' and stop is None:
                rep.bad('solve-command-valid', where, 'python -m srg %d %d %d %d ends without an error' % prm)
                return
    if 'whole' in which:
        w = wholeness(ctx, ps, mod)
        if w:
            rep.bad('solve-command-whole', where, w)
            return
    for w in which:
        k = bad if w == 'valid' else read if w == 'output' else n
        if k:
            rep.ok('solve-command-' + w, where, 'agree', '%d command lines' % k)
        else:
            rep.undecided('solve-command-' + w, where, 'no command line decided')
    rep.count('command lines', n + bad)


def wholeness(ctx, ps, mod):
    """a printed numpy array of more than 1000 entries is abbreviated unless the print threshold is raised first"""
    src = ast.unparse(ctx.tree(mod))
    if any(w in src for w in ('tolist', 'array2string', 'array_repr', 'array_str', 'join(', 'savetxt', 'list(map')):
        return None
    for prm in PARAMS:
        env = argenv(prm)
        if prm[0] < 32:
            continue
        p, ev, stop = main_path(ps, env, {'api:srg.solver.solve': lambda s: [[[0, 1], [1, 0]]]})
        if p is None or p.kind == 'raise':
            continue
        thr = None
        late = False
        hit = False
        for e in p.events:
            if e[0] == 'extcall' and e[1].endswith('set_printoptions'):
                t = e[5].get('threshold') if len(e) > 5 else None
                if t is None and e[2]:
                    t = e[2][1] if len(e[2]) > 1 else None
                thr = t
            elif e[0] == 'extcall' and e[1] in ('click.secho', 'click.echo', 'print', 'pprint.pprint') and any(
                    'api:srg.solver.solve' in repr(x) for x in e[2] if isinstance(x, Term)):
                hit = True
                if thr is None:
                    late = True
        if not hit:
            continue
        if late:
            return 'answers of %d or more vertices are printed with the default print threshold, which abbreviates them' % 32
        n = getattr(thr, 'args', [None])[0] if isinstance(thr, Term) and thr.op == 'num' else None
        if isinstance(n, (int, float)) and n < 10 ** 8:
            return 'the print threshold is %s, so answers with more than %d vertices are abbreviated' % (n, math.isqrt(max(0, int(n))))
    return None


def database_cli(rep, ctx, tier, which=('valid', 'dispatch')):
    mod = 'srg.database.__main__'
    where = 'srg/database/__main__.py'
    hooked = ['srg.database.list_problems', 'srg.database.get_solutions', 'srg.database.draw']
    n = 0
    good, infeasible = params_around(ctx, 'database')
    for argc in (0, 1, 5, 6):
        try:
            ps = run_main(ctx, mod, argc, hooked)
        except (Missing, AnalysisError, Budget) as e:
            rep.undecided('database-command', where, str(e))
            return
        rep.functions.add(where)
        uf = {'api:srg.database.list_problems': lambda: ['<problems>'], 'api:srg.database.get_solutions': lambda *a: ['<solutions>', list(a)],
              'api:srg.database.draw': lambda *a: None}
        cases = []
        if argc == 0:
            cases.append(([], None, 'list_problems'))
        elif argc == 1:
            cases += [(['list'], None, 'list_problems')]
        else:
            for prm in good:
                odd = near(ctx, mod, ('list', 'draw')) if prm == good[0] else []
                for cmd, api in [('list', 'get_solutions'), ('draw', 'draw'), ('lists', None), ('', None), ('DRAW', None), ('show', None)] + \
                        [(w, None) for w in odd]:
                    if argc == 6 and cmd in ('list', 'draw'):
                        continue
                    if argc == 6:
                        continue
                    cases.append(([cmd] + list(prm), prm, api))
            if argc == 5:
                for prm in infeasible:
                    for cmd in ('list', 'draw'):
                        cases.append(([cmd] + list(prm), prm, 'reject'))
        for args, prm, api in cases:
            env = argenv(args)
            p, ev, stop = main_path(ps, env, uf)
            if p is None:
                continue
            n += 1
            line = 'python -m srg.database ' + ' '.join(map(str, args))
            cs = calls(p, stop)
            names = [c[1].split('.')[-1] for c in cs]
            err = p.kind == 'raise' and (p.exc != 'SystemExit' or exit_nonzero(p, ev)) or stop is not None
            if api == 'reject':
                if 'valid' not in which:
                    continue
                if names:
                    rep.bad('database-command-valid', where, '%s calls %s although (v-k-1)u is not k(k-l-1)' % (line, names))
                    return
                if not err:
                    rep.bad('database-command-valid', where, '%s ends without an error' % line)
                    return
                continue
            if 'dispatch' not in which:
                continue
            if api is None:
                if names or not err:
                    rep.bad('database-command-dispatch', where, '%s, an unknown command, %s' % (
                        line, 'runs ' + ', '.join(names) if names else 'ends without an error'))
                    return
                continue
            if err or p.kind == 'raise':
                rep.bad('database-command-dispatch', where, '%s ends with %s' % (line, p.exc or 'a failed assertion'))
                return
            if names != [api]:
                rep.bad('database-command-dispatch', where, '%s calls %s instead of %s' % (line, names, api))
                return
            if prm is not None:
                got = [val(ev, a) for a in cs[0][2]] + [val(ev, cs[0][3][x]) for x in 'vklu' if isinstance(cs[0][3].get(x), Term)]
                if None not in got and got != list(prm):
                    rep.bad('database-command-dispatch', where, '%s looks up %s' % (line, got))
                    return
            if api != 'draw':
                try:
                    out = ev(p.out['out'])
                except (Unknown, Undef):
                    continue
                tag = '<problems>' if api == 'list_problems' else '<solutions>'
                if sum(str(l).count(tag) for l in out) != 1:
                    rep.bad('database-command-dispatch', where, '%s prints %s and not the %s' % (line, [l[1:] for l in out], tag.strip('<>')))
                    return
    for w in which:
        if n:
            rep.ok('database-command-' + w, where, 'agree', '%d command lines' % n)
        else:
            rep.undecided('database-command-' + w, where, 'no command line decided')
    rep.count('command lines', n)


def exit_nonzero(p, ev):
    for e in p.events:
        if e[0] == 'extcall' and e[1] == 'sys.exit':
            if not e[2]:
                return False
            v = e[2][0]
            if isinstance(v, Term):
                x = val(ev, v)
                if v is NONE or x == 0 and x is not False:
                    return False
            return True
    return True


# ----------------------------------------------------------------- imports

def imports(rep, ctx, tier, rule='imports-resolve'):
    """every import of a module or name inside the package resolves, every attribute taken from a
    package module exists in it, and only declared third-party packages are imported at top level"""
    I = ctx.I
    n = 0
    base = ctx.repo
    for rel in package_modules(ctx, without=()):
        tree = parse(ctx, rel)
        pkg = os.path.dirname(rel).replace(os.sep, '.')
        mods = {}
        optional = {id(x) for t in ast.walk(tree) if isinstance(t, ast.Try) and t.handlers for s_ in t.body for x in ast.walk(s_)}
        for node in ast.walk(tree):
            if id(node) in optional and isinstance(node, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(node, ast.ImportFrom):
                if node.level:
                    b = pkg.split('.')
                    b = b[:len(b) - node.level + 1]
                    tgt = '.'.join(b + ([node.module] if node.module else []))
                elif (node.module or '').split('.')[0] == 'srg':
                    tgt = node.module
                else:
                    continue
                n += 1
                if I.modpath(tgt) is None:
                    rep.bad(rule, '%s:%d' % (rel, node.lineno), 'imports from %s, which does not exist' % tgt)
                    return
                for a in node.names:
                    if a.name == '*':
                        continue
                    sub_ = I.modpath(tgt + '.' + a.name)
                    if sub_ is not None:
                        mods[a.asname or a.name] = tgt + '.' + a.name
                        continue
                    if a.name not in toplevel(ctx, tgt) and '*' not in toplevel(ctx, tgt):
                        rep.bad(rule, '%s:%d' % (rel, node.lineno), '%s has no %s' % (tgt, a.name))
                        return
            elif isinstance(node, ast.Import):
                for a in node.names:
                    if a.name.split('.')[0] == 'srg':
                        n += 1
                        if I.modpath(a.name) is None:
                            rep.bad(rule, '%s:%d' % (rel, node.lineno), 'imports %s, which does not exist' % a.name)
                            return
        stored = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
                 {a.arg for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args + f.args.kwonlyargs}
        for node in ast.walk(tree):
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id in mods and node.value.id not in stored:
                n += 1
                tgt = mods[node.value.id]
                if node.attr not in toplevel(ctx, tgt) and '*' not in toplevel(ctx, tgt) and I.modpath(tgt + '.' + node.attr) is None:
                    rep.bad(rule, '%s:%d' % (rel, node.lineno), '%s has no attribute %s' % (tgt, node.attr))
                    return
    rep.ok(rule, 'srg', 'proved', '%d imports and module attributes' % n)
    rep.count('imports and attributes', n)


def toplevel(ctx, mod):
    c = ctx.__dict__.setdefault('_top', {})
    if mod in c:
        return c[mod]
    out = {'__name__', '__file__', '__doc__', '__path__', '__package__'}
    path = ctx.I.modpath(mod)
    tree = ctx.tree(mod)

    def add(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    out.add((a.asname or a.name).split('.')[0])
                    if a.name == '*':
                        out.add('*')
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        out.add(x.name)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for a in x.names:
                            out.add((a.asname or a.name).split('.')[0])
    add(tree.body)
    c[mod] = out
    return out


# ----------------------------------------------------------------- catalogue

NAME = re.compile(r'^problem_(\d+)_(\d+)_(\d+)_(\d+)\.py$')


class NotLiteral(Exception):
    pass


def literal(e, env):
    """value of a catalogue expression: numbers, sequences, names, array(...) calls, and the pure operators on them"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += literal(x.value, env)
            else:
                out.append(literal(x, env))
        return out
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        raise NotLiteral(e.id)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -literal(e.operand, env)
    if isinstance(e, ast.BinOp):
        a, b = literal(e.left, env), literal(e.right, env)
        if isinstance(e.op, ast.Add):
            return a + b
        if isinstance(e.op, ast.Sub):
            return a - b
        if isinstance(e.op, ast.Mult):
            return a * b
        raise NotLiteral(ast.dump(e.op))
    if isinstance(e, ast.Call):
        n = ast.unparse(e.func).split('.')[-1]
        if n in ('array', 'asarray', 'list', 'tuple') and len(e.args) == 1:
            return literal(e.args[0], env)
        if n in ('astype', 'copy') and isinstance(e.func, ast.Attribute):
            return literal(e.func.value, env)
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
        return literal(e.value, env)[e.slice.value]
    raise NotLiteral(type(e).__name__)


def module_value(tree):
    env = {}
    for s in tree.body:
        if isinstance(s, ast.Assign):
            try:
                x = literal(s.value, env)
            except NotLiteral as e:
                x = e
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = x
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(x, list) and len(x) == len(t.elts):
                    for y, z in zip(t.elts, x):
                        if isinstance(y, ast.Name):
                            env[y.id] = z
                elif isinstance(t, ast.Subscript):
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name):
                            env[y.id] = NotLiteral('assigned by index')
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            try:
                env[s.target.id] = literal(s.value, env)
            except NotLiteral as e:
                env[s.target.id] = e
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
            try:
                env[s.target.id] = env[s.target.id] + literal(s.value, env)
            except (NotLiteral, KeyError, TypeError) as e:
                env[s.target.id] = NotLiteral(str(e))
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in env:
            n, m = s.value.func.value.id, s.value.func.attr
            try:
                args = [literal(a, env) for a in s.value.args]
                if m == 'append':
                    env[n] = env[n] + [args[0]]
                elif m == 'extend':
                    env[n] = env[n] + list(args[0])
                elif m == 'pop':
                    env[n] = env[n][:-1] if not args else env[n][:args[0]] + (env[n][args[0] + 1:] if args[0] != -1 else [])
                elif m == 'reverse':
                    env[n] = env[n][::-1]
                else:
                    env[n] = NotLiteral(m)
            except (NotLiteral, TypeError, IndexError):
                env[n] = NotLiteral(m)
        elif isinstance(s, (ast.For, ast.If, ast.While, ast.With, ast.Try, ast.Delete)):
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Name) and x.id in env:
                    env[x.id] = NotLiteral('control flow')
    return env


def catalogue(ctx):
    c = getattr(ctx, '_cat', None)
    if c is not None:
        return c
    d = os.path.join(ctx.repo, 'srg', 'database')
    out = []
    for f in sorted(os.listdir(d)):
        if not f.startswith('problem') or not f.endswith('.py'):
            continue
        m = NAME.match(f)
        rel = os.path.join('srg', 'database', f)
        out.append((rel, tuple(int(x) for x in m.groups()) if m else None, module_value(parse(ctx, rel))))
    ctx._cat = out
    return out


def is01(m):
    return isinstance(m, list) and all(isinstance(r, list) and all(type(x) in (int, bool) and x in (0, 1) for x in r) for r in m)


def catalogue_rules(rep, ctx, tier, which):
    try:
        cat = catalogue(ctx)
    except (OSError, SyntaxError) as e:
        rep.undecided('catalogue', 'srg/database', str(e))
        return
    n = 0
    for rel, name, env in cat:
        sol = env.get('solutions')
        if isinstance(sol, NotLiteral) or sol is not None and not isinstance(sol, list):
            rep.undecided('catalogue', rel, 'the list of solutions is not a literal: %s' % sol)
            continue
        if 'naming' in which:
            if name is None:
                rep.bad('catalogue-name', rel, 'the file name does not give the parameters v, k, l, u')
                return
            if sol is None:
                rep.bad('catalogue-name', rel, 'the module has no list of solutions')
                return
            ps = [env.get(x) for x in 'vklu']
            if all(type(x) is int for x in ps) and tuple(ps) != name:
                rep.bad('catalogue-name', rel, 'declares (v,k,l,u) = %s in the file of %s' % (tuple(ps), name))
                return
            if not all(type(x) is int for x in ps) and not any(isinstance(x, NotLiteral) for x in ps):
                rep.bad('catalogue-name', rel, 'does not declare v, k, l, u')
                return
            v, k, l, u = name
            if (v - k - 1) * u != k * (k - l - 1):
                rep.bad('catalogue-name', rel, '(v-k-1)u = %d is not k(k-l-1) = %d' % ((v - k - 1) * u, k * (k - l - 1)))
                return
        if sol is None or name is None:
            continue
        seen = {}
        for i, m in enumerate(sol):
            n += 1
            at_ = '%s, solution %d' % (rel, i)
            if 'valid' in which:
                w = None
                if not is01(m) or len(m) != name[0] or any(len(r) != name[0] for r in m):
                    w = 'is not a 0/1 matrix with %d rows and columns' % name[0]
                else:
                    w = G.is_srg(m, *name)
                    w = None if w is True or w is None else (w if isinstance(w, str) else 'is not a strongly regular graph')
                if w:
                    rep.bad('catalogue-graphs-are-srg', at_, 'the matrix %s: %s' % (w, name))
                    return
            if 'distinct' in which:
                key = repr(m)
                if key in seen:
                    rep.bad('catalogue-distinct', at_, 'equals solution %d' % seen[key])
                    return
                seen[key] = i
            if 'form' in which:
                w = G.written_form(m) if is01(m) and len(m) == name[0] and all(len(x) == name[0] for x in m) else None
                if w:
                    rep.bad('catalogue-form', at_, 'row %d has a one at column %d after a zero among columns the earlier rows do not tell apart: the search writes no graph like this' % w)
                    return
            if 'distinct' in which:
                if m[:2] != G.seed(*name):
                    rep.bad('catalogue-canonical', at_, 'does not begin with the canonical first two rows')
                    return
    for w in which:
        rep.ok('catalogue-' + w, 'srg/database/problem_*.py', 'proved', '%d modules, %d matrices' % (len(cat), n))
    rep.count('catalogue matrices', n)
    rep.count('catalogue modules', len(cat))


def complements(rep, ctx, tier, rule='catalogue-complements'):
    """where two entries have complementary parameters, they list the same graphs"""
    try:
        cat = catalogue(ctx)
    except (OSError, SyntaxError) as e:
        rep.undecided(rule, 'srg/database', str(e))
        return
    have, n = {}, 0
    for rel, name, env in cat:
        sol = env.get('solutions')
        if name is not None and isinstance(sol, list):
            v = name[0]
            have[name] = rel, [m for m in sol if is01(m) and len(m) == v and all(len(x) == v for x in m)]
    for name, (rel, ms) in sorted(have.items()):
        co = G.co_params(*name)
        if co not in have or co == name:
            continue
        others = have[co][1]
        classes = []
        for m in others:
            if not any(G.isomorphic(m, c) for c in classes):
                classes.append(m)
        for i, m in enumerate(ms):
            c = G.complement(m)
            found = [G.isomorphic(c, x) for x in classes]
            if any(found):
                n += 1
            elif None in found:
                rep.undecided(rule, '%s, solution %d' % (rel, i), 'isomorphism not decided')
            else:
                rep.bad(rule, '%s, solution %d' % (rel, i), 'no graph listed in %s is its complement' % have[co][0])
                return
    if n:
        rep.ok(rule, 'srg/database/problem_*.py', 'proved', '%d matrices found complemented' % n)
    else:
        rep.undecided(rule, 'srg/database', 'no two complementary entries')


def closed(rep, ctx, tier, rule='catalogue-every-form'):
    """with each graph an entry lists every relabelling of it that the search would write"""
    try:
        cat = catalogue(ctx)
    except (OSError, SyntaxError) as e:
        rep.undecided(rule, 'srg/database', str(e))
        return
    n = forms = 0
    for rel, name, env in cat:
        sol = env.get('solutions')
        if name is None or not isinstance(sol, list) or not sol:
            continue
        with open(os.path.join(ctx.repo, rel)) as f:
            note = re.search(r'only[^\n]*\bfirst\b', f.read(), re.I)
        if note:
            rep.count('entries that say they list only the first', 1)
            continue
        v = name[0]
        if not all(is01(m) and len(m) == v and all(len(x) == v for x in m) for m in sol):
            continue
        have = {tuple(sum(1 << j for j in range(v) if x[j]) for x in m): i for i, m in enumerate(sol)}
        seen = set()
        for key, i in sorted(have.items(), key=lambda x: x[1]):
            if key in seen:
                continue
            all_ = G.written_forms(sol[i])
            if all_ is None:
                rep.undecided(rule, '%s, solution %d' % (rel, i), 'too many relabellings')
                continue
            lost = [x for x in all_ if x not in have]
            if lost:
                rep.bad(rule, '%s, solution %d' % (rel, i), 'of the %d matrices in which the search writes this graph %d are not listed, one with the rows %s' % (
                    len(all_), len(lost), [format(x, '0%db' % v)[::-1] for x in min(lost)]))
                return
            seen |= all_
            forms += len(all_)
            n += 1
    rep.ok(rule, 'srg/database/problem_*.py', 'proved', '%d graphs, %d forms' % (n, forms))
    rep.count('isomorphism classes', n)


def lookup(rep, ctx, tier, rule='catalogue-lookup'):
    """list_problems, extract_vklu and get_solutions agree with the file names"""
    I = ctx.I
    mod = 'srg.database'
    s = rb.int_syms('v', 'k', 'l', 'u')
    n = 0
    q = 'srg.database:get_solutions'
    names = {nm for rel, nm, env in catalogue(ctx) if nm}

    # get_solutions imports the module named by its arguments, in order
    if ctx.has(q):
        where = ctx.where(q)
        rep.functions.add(where)

        def go():
            return ctx.call(q, [s[x] for x in 'vklu'])
        ps, loops = rb.summarize(ctx, (rule, q), go, None, mod)
        lens = ctx.sizes(1100, (1, 7, 40, 150))
        prms = [(13, 6, 2, 3), (28, 12, 6, 4), (5, 2, 0, 1), (16, 10, 6, 6), (21, 10, 4, 5), (21, 10, 5, 4)] + params_around(ctx, 'lookup')[0]
        for ip in range(max(len(prms), len(lens))):
            prm = prms[ip % len(prms)]
            sols = ['<%d>' % x for x in range(lens[ip] if ip < len(lens) else 2)]
            got = []
            # entries with similar names lie around it; every third time the entry itself does not exist
            v_, k_, l_, u_ = prm
            there = {(v_, k_, l_, u_ * 10), (v_, k_, l_, u_ * 10 + 1), (v_, k_, l_, (u_ + 1) % 10), (v_ * 10 + 1, k_, l_, u_),
                     (v_ % 10 or 7, k_, l_, u_), (v_, k_, u_, l_), (v_, k_ + 1, l_, u_), (k_, v_, l_, u_), (v_, k_, l_ * 10, u_)} | names
            absent = ip % 3 == 2
            there.discard(prm)
            if not absent:
                there.add(prm)
            listed = sorted('problem_%d_%d_%d_%d' % x for x in there)

            def missing(name, *a):
                return isinstance(name, str) and name.split('.')[-1].startswith('problem') and name.split('.')[-1] not in listed

            def imp(name, *a):
                got.append(name)
                if missing(name):
                    raise Undef('no module named %s' % name)
                return ('module', {'solutions': [['<%s>' % name]] + sols})
            o = rb.evalat(ctx, ps, {**dict(zip('vklu', prm)), T('strsym', '__path__:srg.database'): 'p'},
                          {'importlib.import_module': imp, '__import__': imp, 'import_module': imp, 'missing module': missing,
                           'pkgutil.iter_modules': lambda *a: [('mi', {'name': x, 'ispkg': False}) for x in listed]})
            if o[0] == 'raise':
                if o[1] in ('SystemExit',) or absent:
                    continue
                rep.bad(rule, where, 'get_solutions%s raises %s' % (prm, o[1]))
                return
            if absent:
                if o[0] == 'val':
                    rep.bad(rule, where, 'get_solutions%s gives %s although there is no such entry' % (prm, str(rb.norm(o[1]['ret']))[:200]))
                    return
                continue
            if o[0] != 'val' and not got:
                continue
            n += 1
            want = 'problem_%d_%d_%d_%d' % prm
            full = 'srg.database.' + want
            g = [x for x in got if isinstance(x, str)]
            if g and not any(x == full or x == '.' + want for x in g):
                rep.bad(rule, where, 'get_solutions%s looks into %s' % (prm, g))
                return
            if o[0] == 'val' and g and rb.norm(o[1]['ret']) != [['<%s>' % g[0]]] + sols:
                rep.bad(rule, where, 'get_solutions%s returns %s, not the %d solutions of the module' % (prm, str(rb.norm(o[1]['ret']))[:200], 1 + len(sols)))
                return
    q2 = 'srg.database:extract_vklu'
    if ctx.has(q2):
        where = ctx.where(q2)
        rep.functions.add(where)
        why = None
        for prm in sorted(names) + params_around(ctx, 'names')[0] + [(1000, 999, 998, 0), (2500, 49, 48, 0), (1023, 1022, 1021, 5)]:
            nm = 'problem_%d_%d_%d_%d' % prm

            def go2():
                return ctx.call(q2, [T('strsym', 'problem')])
            ps, loops = rb.summarize(ctx, (rule, q2), go2, None, mod)
            o = rb.evalat(ctx, ps, {T('strsym', 'problem'): nm})
            if o[0] == 'raise':
                rep.bad(rule, where, 'extract_vklu(%r) raises %s' % (nm, o[1]))
                return
            if o[0] != 'val':
                why = o[1]
                continue
            n += 1
            if rb.norm(o[1]['ret']) != list(prm):
                rep.bad(rule, where, 'extract_vklu(%r) gives %s' % (nm, rb.norm(o[1]['ret'])))
                return
        if why is not None:
            rep.undecided(rule, where, str(why))
    q3 = 'srg.database:list_problems'
    if ctx.has(q3):
        where = ctx.where(q3)
        rep.functions.add(where)

        def go3():
            return ctx.call(q3, [])
        ps, loops = rb.summarize(ctx, (rule, q3), go3, None, mod)
        ms = ['__main__', 'problem_10_3_0_1', 'problem_5_2_0_1', 'problem_28_12_6_4', 'tools', 'problem_9_4_1_2']
        ms += sorted(x for x in {'problem_%d_%d_%d_%d' % p_ for p_ in names | set(params_around(ctx, 'listed')[0][:40])} if x not in ms)
        o = rb.evalat(ctx, ps, {T('strsym', '__path__:srg.database'): 'p'},
                      {'pkgutil.iter_modules': lambda *a: [('mi', {'name': x, 'ispkg': False}) for x in ms]})
        if o[0] == 'val':
            n += 1
            g = rb.norm(o[1]['ret'])
            if not isinstance(g, list) or sorted(g) != sorted(x for x in ms if x.startswith('problem')):
                rep.bad(rule, where, 'of the modules %s it lists %s' % (ms, g))
                return
        else:
            rep.undecided(rule, where, str(o[1]))
    if n:
        rep.ok(rule, 'srg/database/__init__.py', 'agree', '%d lookups' % n)
        rep.count('lookups', n)
    else:
        rep.undecided(rule, 'srg/database/__init__.py', 'not decided')


# ----------------------------------------------------------------- files

WATCH = ('savefig', 'add_edge', 'add_edges_from', 'Graph', 'DiGraph', 'figure', 'subplots', 'clf', 'cla', 'clear', 'draw', 'draw_circular',
         'draw_networkx', 'draw_networkx_edges', 'add_nodes_from', 'add_node', 'from_numpy_array', 'from_numpy_matrix', 'remove_edge',
         'remove_node', 'close', 'print')


def drawing(rep, ctx, tier, rule='one-image-per-graph'):
    q = 'srg.database:draw'
    I = ctx.I
    N_, n_ = tm.sym('N', (), True), tm.sym('n', (), True)
    S = tm.sym('S', (N_, n_, n_), True)
    s = rb.int_syms('v', 'k', 'l', 'u')

    def go():
        I.out = I.lst([])
        I.frame.vars['__out__'] = I.out
        ctx.call(q, [s[x] for x in 'vklu'])
        return I.out
    saved = dict(I.hooks)
    I.hooks['srg.database.get_solutions'] = lambda I_, f, a, k: I_.lst_term(S)
    I.watch = WATCH
    try:
        where = ctx.where(q)
        ps, loops = rb.summarize(ctx, (rule, q), go, lambda v: {'o': I.t(v)}, 'srg.database')
    except (Missing, AnalysisError, Budget) as e:
        rep.undecided(rule, q, str(e))
        return
    finally:
        I.hooks.clear()
        I.hooks.update(saved)
        I.watch = ()
        I.out = None
    rep.functions.add(where)
    r = rng('draw')

    class UF(dict):
        def get(self, k, d=None):
            if isinstance(k, str) and (k.split('.')[0] in ('networkx', 'matplotlib') or k.startswith('method.')):
                return lambda *a: '<%s>' % k
            return d
    done = 0
    cases = [((13, 6, 2, 3), 2), ((28, 12, 6, 4), 12), ((5, 2, 0, 1), 1), ((10, 3, 0, 1), 3), ((21, 10, 4, 5), 0)]
    for z in ctx.sizes(140, (34, 66)):
        cases.append(((z, z // 2, z // 3, z // 4), 1 if z > 40 else 2))
        cases.append(((6, 3, 0, 3), z))
    for prm, c in cases:
        v = prm[0]
        ms = []
        for _ in range(c):
            m = [[0] * v for _ in range(v)]
            for a in range(v):
                for b in range(a):
                    m[a][b] = m[b][a] = int(r.random() < .4)
            ms.append(m)
        env = dict(zip('vklu', prm))
        env.update(N=c, n=v, S=ms)
        o = rb.evalat(ctx, ps, env, UF())
        if o[0] == 'raise':
            rep.bad(rule, where, 'drawing %d graphs of %s raises %s' % (c, prm, o[1]))
            return
        if o[0] != 'val':
            continue
        ev = o[1]['o']
        if not isinstance(ev, list):
            continue
        w = replay_draw(ev, ms, prm)
        if w == 'skip':
            continue
        done += 1
        if w:
            rep.bad(rule, where, '%s (%d graphs of the problem %s)' % (w, c, prm))
            return
    if done:
        rep.ok(rule, where, 'agree', '%d catalogues' % done)
        rep.count('drawings', done)
    else:
        rep.undecided(rule, where, 'drawing calls not recognised')


def replay_draw(calls_, ms, prm):
    edges, nodes, drawn, files = set(), set(), None, []
    layers = 0
    figs, said = set(), []
    v = prm[0]
    for c in calls_:
        if not isinstance(c, list) or not c or not isinstance(c[0], str):
            return 'skip'
        k, a = c[0], c[1:]
        if k in ('Graph', 'DiGraph'):
            edges, nodes = set(), set()
            if a and isinstance(a[0], list):
                return 'skip'
        elif k in ('figure', 'subplots', 'clf', 'cla'):
            if k == 'figure' and a and isinstance(a[0], (int, str)) and not isinstance(a[0], bool):
                if any(x is True for x in a[1:]):
                    return 'skip'
                if a[0] in figs:
                    continue            # the figure of that number, with what it shows
                figs.add(a[0])
            layers = 0
            drawn = None
        elif k == 'close':
            figs.clear()
            layers = 0
        elif k == 'print':
            said.append(' '.join(str(rb.norm(x)) for x in a))
        elif k == 'add_edge':
            if len(a) < 2:
                return 'skip'
            edges.add(frozenset((rb.norm(a[-2]), rb.norm(a[-1]))))
            nodes.update((rb.norm(a[-2]), rb.norm(a[-1])))
        elif k == 'add_edges_from':
            if not isinstance(a[-1], list):
                return 'skip'
            for e in a[-1]:
                edges.add(frozenset(rb.norm(x) for x in e[:2]))
        elif k == 'add_nodes_from':
            if not isinstance(a[-1], (list, dict)):
                return 'skip'
            nodes.update(rb.norm(x) for x in a[-1])
        elif k == 'add_node':
            nodes.add(rb.norm(a[-1]))
        elif k in ('from_numpy_array', 'from_numpy_matrix', 'remove_edge', 'remove_node', 'clear'):
            return 'skip'
        elif k in ('draw', 'draw_circular', 'draw_networkx', 'draw_networkx_edges'):
            drawn = (set(edges), set(nodes))
            layers += 1
        elif k == 'savefig':
            f = a[0] if a else None
            if not isinstance(f, str):
                return 'skip'
            files.append((f, drawn, layers))
    if len(files) != len(ms):
        return '%d images are written' % len(files)
    names = [f for f, d, y in files]
    if len(set(names)) != len(names):
        dup = [x for x in names if names.count(x) > 1][0]
        return 'the image %s is written more than once: earlier drawings are overwritten' % dup
    for i, (f, d, y) in enumerate(files):
        if '/' in f or '\\' in f or f.startswith('.'):
            return 'the image %s is written outside the working directory' % f
        if 'srg_%d_%d_%d_%d_' % prm not in f:
            return 'the image name %s does not carry the parameters in order' % f
        if f != 'srg_%d_%d_%d_%d_%d.png' % (prm + (i,)):
            return 'image %d is written as %s' % (i, f)
        if sum(f in re.split(r'[\s\'",]+', t) for t in said) != 1:
            return 'the name of the image %s is printed %d times' % (f, sum(f in t for t in said))
        if d is None:
            return 'the image %s is saved before anything is drawn' % f
        want = {frozenset((a, b)) for a in range(v) for b in range(a) if ms[i][a][b]}
        if d[0] != want:
            x = sorted(map(sorted, d[0] ^ want))
            return 'image %d shows %d edges, its graph has %d; e.g. %s' % (i, len(d[0]), len(want), x[:2])
        if d[1] and d[1] != set(range(v)):
            return 'image %d shows the vertices %s' % (i, sorted(d[1]))
        if y > 1:
            return 'image %d shows %d graphs on top of each other' % (i, y)
    return None


WRITES = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.removedirs', 'os.mkdir', 'os.makedirs', 'os.chmod', 'os.chown',
          'os.symlink', 'os.link', 'os.truncate', 'os.system', 'os.popen', 'os.chdir', 'os.kill', 'os.write', 'os.open',
          'numpy.save', 'numpy.savetxt', 'numpy.savez', 'numpy.savez_compressed', 'numpy.memmap', 'pickle.dump', 'json.dump', 'marshal.dump',
          'logging.basicConfig', 'logging.FileHandler', 'subprocess', 'shutil', 'tempfile', 'shelve.open', 'sqlite3.connect', 'joblib.dump', 'joblib.Memory',
          'socket', 'urllib', 'requests', 'os.environ.__setitem__', 'os.putenv', 'sys.path'}
WMETH = {'write_text', 'write_bytes', 'unlink', 'rmdir', 'mkdir', 'touch', 'tofile', 'symlink_to', 'hardlink_to', 'dump'}


def file_effects(rep, ctx, tier, rule='no-other-file-effects'):
    n = 0
    for rel in package_modules(ctx, without=()):
        tree = parse(ctx, rel)
        imps = import_names(tree)
        owner = {}
        for f in ast.walk(tree):
            if isinstance(f, ast.FunctionDef):
                for x in ast.walk(f):
                    owner.setdefault(x, f.name)
        for x in ast.walk(tree):
            if not isinstance(x, ast.Call):
                continue
            n += 1
            d = dotted(x.func, imps) or ''
            w = None
            if d in WRITES or any(d.startswith(p + '.') for p in ('subprocess', 'shutil', 'tempfile', 'socket', 'urllib', 'requests')):
                w = d
            elif d in ('open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open') or isinstance(x.func, ast.Attribute) and x.func.attr == 'open':
                mode = None
                if len(x.args) > 1:
                    mode = x.args[1]
                if isinstance(x.func, ast.Attribute) and d not in ('io.open', 'codecs.open', 'gzip.open', 'bz2.open') and x.args:
                    mode = x.args[0]
                for k in x.keywords:
                    if k.arg == 'mode':
                        mode = k.value
                if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and any(c in mode.value for c in 'wax+'):
                    w = 'open(%r)' % mode.value
            elif isinstance(x.func, ast.Attribute) and x.func.attr in WMETH and d.split('.')[0] not in ('ast',):
                w = x.func.attr
            elif isinstance(x.func, ast.Attribute) and x.func.attr in ('savefig', 'imsave', 'write_gexf', 'write_graphml', 'write_adjlist',
                                                                     'write_edgelist', 'write_gml', 'write_gpickle'):
                if x.func.attr != 'savefig' or not rel.replace(os.sep, '/').startswith('srg/database/'):
                    w = x.func.attr
            if w:
                rep.bad(rule, '%s:%d %s' % (rel, x.lineno, owner.get(x, '')), 'calls %s: a file, process or network effect outside drawing' % w)
                return
    rep.ok(rule, 'srg', 'proved', '%d call sites' % n)
    rep.count('call sites', n)


# ----------------------------------------------------------------- packaging

def strings(e, env):
    """the strings of a literal list expression, or None"""
    if isinstance(e, ast.Name) and e.id in env:
        return strings(env[e.id], env)
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        out = []
        for x in e.elts:
            if not (isinstance(x, ast.Constant) and isinstance(x.value, str)):
                return None
            out.append(x.value)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = strings(e.left, env), strings(e.right, env)
        return None if a is None or b is None else a + b
    return None


def packaging(rep, ctx, tier, rule='shipped-and-declared'):
    """every package directory with modules is listed in setup(packages=), and every third-party
    module imported by the package is in install_requires"""
    rel = 'setup.py'
    if not os.path.exists(os.path.join(ctx.repo, rel)):
        rep.undecided(rule, rel, 'not in the tree')
        return
    tree = parse(ctx, rel)
    env = {s.targets[0].id: s.value for s in tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)}
    call = next((x for x in ast.walk(tree) if isinstance(x, ast.Call) and (
        getattr(x.func, 'id', None) == 'setup' or getattr(x.func, 'attr', None) == 'setup')), None)
    if call is None:
        rep.undecided(rule, rel, 'no setup() call')
        return
    kw = {k.arg: k.value for k in call.keywords if k.arg}
    n = 0
    listed = strings(kw['packages'], env) if 'packages' in kw else None
    pk = set()
    for r_ in package_modules(ctx, without=()):
        pk.add(os.path.dirname(r_).replace(os.sep, '.'))
    if listed is None:
        rep.undecided(rule, rel + ' packages', 'not a literal list')
    else:
        for p in sorted(pk):
            n += 1
            if p not in listed:
                rep.bad(rule, 'setup.py packages: %s' % p, 'the package %s is not listed, an installed copy lacks it' % p)
            else:
                rep.ok(rule, 'setup.py packages: %s' % p)
    req = strings(kw['install_requires'], env) if 'install_requires' in kw else None
    if req is None:
        rep.undecided(rule, rel + ' install_requires', 'not a literal list')
    else:
        names = {re.split(r'[^A-Za-z0-9_.-]', x)[0].lower().replace('_', '-') for x in req}
        seen = {}
        for r_ in package_modules(ctx, without=()):
            for node in ast.walk(parse(ctx, r_)):
                mods = []
                if isinstance(node, ast.Import):
                    mods = [a.name for a in node.names]
                elif isinstance(node, ast.ImportFrom) and not node.level and node.module:
                    mods = [node.module]
                for m in mods:
                    top = m.split('.')[0]
                    if top != 'srg' and top not in sys.stdlib_module_names and top != '__future__':
                        seen.setdefault(top, '%s:%d' % (r_, node.lineno))
        for top in sorted(seen):
            n += 1
            if top.lower().replace('_', '-') not in names:
                rep.bad(rule, 'setup.py install_requires: %s' % top, '%s imports %s, which is not declared' % (seen[top], top))
            else:
                rep.ok(rule, 'setup.py install_requires: %s' % top)
    rep.functions.add('setup.py setup()')
    rep.count('packages and requirements', n)


# ----------------------------------------------------------------- names

def names(rep, ctx, tier, rule='names-resolve'):
    """every name read anywhere in the package is bound: locally, in an enclosing function, in the
    module, or as a builtin; every local is bound on some path before"""
    import builtins
    import symtable
    known = set(dir(builtins)) | {'__file__', '__name__', '__package__', '__path__', '__spec__', '__doc__', '__class__', '__builtins__'}
    n = 0
    extra = [x for x in ('exp.py',) if os.path.exists(os.path.join(ctx.repo, x))]
    for rel in package_modules(ctx, without=()) + extra:
        with open(os.path.join(ctx.repo, rel)) as f:
            src = f.read()
        tree = parse(ctx, rel)
        if any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in ast.walk(tree)):
            rep.undecided(rule, rel, 'star import')
            continue
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('exec', 'globals', 'eval', 'locals', 'vars') for x in ast.walk(tree)):
            rep.undecided(rule, rel, 'names made at run time')
            continue
        top = symtable.symtable(src, rel, 'exec')
        glob = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}

        def declared(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    glob.add(s.get_name())
            for c in t.get_children():
                declared(c)
        declared(top)
        lines = {}
        for x in ast.walk(tree):
            if isinstance(x, ast.Name):
                lines.setdefault(x.id, x.lineno)
        stack = [top]
        while stack:
            t = stack.pop()
            stack += t.get_children()
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                n += 1
                nm = s.get_name()
                if (s.is_global() or t is top) and nm not in glob and nm not in known:
                    rep.bad(rule, '%s:%s %s' % (rel, lines.get(nm, t.get_lineno()), t.get_name()), 'the name %s is not bound anywhere' % nm)
    if n:
        if not any(v['rule'] == rule for v in rep.viol):
            rep.ok(rule, 'srg', 'proved', '%d names' % n)
        rep.count('names', n)
