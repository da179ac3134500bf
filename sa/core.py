"""Common machinery of the checks: loading the analysed tree, path summaries of
functions, evaluation of their terms at valuations, and the verdict record."""
import ast
import json
import os
import random
import sys
import time
from . import terms as tm
from .terms import *
from . import npmodel
from . import pylib
from .interp import (Interp, Chooser, Frame, AbsRaise, AnalysisError, Budget, Func, ClassV, GenV, Obj, Arr,
                     View, Dct, Lst, PyTuple, Builtin, PartialV, Ext, Bound)
import math
from . import teval
from .teval import Ev, Undef, Unknown, Endless, same, copy

sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Missing(Exception):
    """an anchor of the analysis is not in the tree"""


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []            # (rule, construct, verdict, detail)
        self.viol = []
        self.functions = set()
        self.counts = {}
        self.samples = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, rule, construct, how='proved', detail=''):
        self.obl.append((rule, construct, how, detail))

    def undecided(self, rule, construct, why):
        self.obl.append((rule, construct, 'undecided', why))

    def bad(self, rule, construct, detail):
        for v in self.viol:
            if v['rule'] == rule and v['construct'] == construct:
                return
        self.obl.append((rule, construct, 'violated', detail))
        self.viol.append(dict(rule=rule, construct=construct, detail=detail))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def constants(tree, acc):
    def val(e):
        if isinstance(e, ast.Constant) and type(e.value) in (int, float):
            return e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = val(e.operand)
            return None if v is None else -v
        if isinstance(e, ast.BinOp):
            a, b = val(e.left), val(e.right)
            if a is None or b is None:
                return None
            try:
                if isinstance(e.op, ast.Add):
                    return a + b
                if isinstance(e.op, ast.Sub):
                    return a - b
                if isinstance(e.op, ast.Mult):
                    return a * b
                if isinstance(e.op, ast.Pow) and abs(b) < 64:
                    return a ** b
                if isinstance(e.op, ast.LShift) and b < 64:
                    return a << b
                if isinstance(e.op, ast.FloorDiv):
                    return a // b
            except (ArithmeticError, TypeError, ValueError):
                return None
        return None

    def walk(n):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__' \
                and any(isinstance(x, ast.FunctionDef) for x in tree.body):
            for c in n.orelse:
                walk(c)
            return
        if isinstance(n, ast.expr):
            v = val(n)
            if v is not None:
                if abs(v) < 1 << 80:
                    acc.add(abs(int(v)))
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)


class Ctx:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.I = Interp(self.repo)
        self.trees = {}
        self.keysums = {}
        Ev.resolver = self.resolve

    def resolve(self, fnterm, vals):
        """value of an analysed function (a sort key or comparison) at values, from its summary"""
        f = self.I.fn_of_term.get(fnterm)
        if f is None:
            raise Unknown('function %s' % (fnterm.args[0],))
        ranks = []
        for v in vals:
            r = 0
            while isinstance(v, list):
                r += 1
                if not v:
                    break
                v = v[0]
            ranks.append(r)
        key = (fnterm, tuple(ranks))
        if key not in self.keysums:
            syms = []
            for i, r in enumerate(ranks):
                dims = tuple(tm.sym('key%d.%d' % (i, j), (), True) for j in range(r))
                syms.append(tm.sym('key%d' % i, dims))
            m = f.module.name if isinstance(f, Func) else 'srg.sorter'

            def go():
                return self.I.call(f, [self.I.arr(s, 'int64') if ranks[i] else s for i, s in enumerate(syms)], {})
            st = (self.I.frames, self.I.facts, self.I.asm)
            try:
                self.keysums[key] = summary(self, go, lambda v: {'ret': self.I.t(v)}, m)
            finally:
                self.I.frames, self.I.facts, self.I.asm = st
        env = {}
        for i, v in enumerate(vals):
            env['key%d' % i] = v
            for j in range(ranks[i]):
                env['key%d.%d' % (i, j)] = len(v)
                v = v[0] if v else []
        p, ev = at(self.keysums[key], env)
        if p is None:
            raise Unknown(ev)
        if p.kind == 'raise':
            raise Undef(p.exc)
        return ev(p.out['ret'])

    def mod(self, name):
        I = self.I
        if name not in I.modules:
            if I.modpath(name) is None:
                raise Missing('module ' + name)
            I.load(name)
        return I.modules[name]

    def has(self, q):
        try:
            self.fn(q)
            return True
        except Missing:
            return False

    def fn(self, q):
        """'srg.solver:reduce_col' or 'srg.srg:Question.from_matrix'"""
        m, _, n = q.partition(':')
        M = self.mod(m)
        parts = n.split('.')
        if parts[0] not in M.ns:
            raise Missing(q)
        v = M.ns[parts[0]]
        for x in parts[1:]:
            try:
                v = self.I.getattr(v, x)
            except AbsRaise:
                raise Missing(q)
        return v

    def where(self, q):
        m, _, n = q.partition(':')
        path = self.I.modpath(m)
        if path is None:
            return q
        tree = self.tree(m)
        body = tree.body
        node = None
        for part in n.split('.'):
            node = next((x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part), None)
            if node is None:
                return q
            body = node.body
        return '%s:%s %s' % (os.path.relpath(path, self.repo), node.lineno, n)

    def tree(self, m):
        path = self.I.modpath(m)
        if path is None:
            raise Missing('module ' + m)
        t = self.trees.get(m)
        if t is None:
            with open(path) as f:
                t = self.trees[m] = ast.parse(f.read(), path)
        return t

    def is_nosol(self, name):
        """is the exception class of that name NoSolution or derived from it"""
        if name == 'NoSolution':
            return True
        for m in self.I.modules.values():
            c = m.ns.get(name) if hasattr(m, 'ns') else None
            if isinstance(c, ClassV) and 'NoSolution' in c.mro_names():
                return True
        return False

    def sizes(self, cap, extra=()):
        """sizes at which to compare: around every integer constant the package's code mentions, so that
        both sides of any threshold in it are met"""
        if not hasattr(self, '_lits'):
            acc = set()
            base = os.path.join(self.repo, 'srg')
            for root, ds, fs in os.walk(base):
                for f in fs:
                    if f.endswith('.py') and not f.startswith('problem_'):
                        try:
                            with open(os.path.join(root, f)) as fh:
                                constants(ast.parse(fh.read()), acc)
                        except (OSError, SyntaxError, ValueError):
                            pass
            self._lits = acc
            for c in acc:
                if 1 < c < 2 ** 66 and c == int(c):
                    teval.HASHMUL = math.lcm(teval.HASHMUL, int(c))
        out = set(extra)
        for c in self._lits:
            if 2 < c <= cap:
                out |= {c, c + 1, c + 2}
        return sorted(x for x in out if x <= cap + 2)

    def marks(self, cap, least=5):
        """the sizes around those constants of the source that are no small numbers"""
        self.sizes(0)
        out = set()
        for c in self._lits:
            if least <= c <= cap and c == int(c):
                out |= {int(c), int(c) + 1, int(c) + 2}
        return sorted(out)

    ORDER = ('bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64')

    def narrower(self, *ds):
        """the narrowest of the element types that are known"""
        ds = [d for d in ds if d in self.ORDER]
        return min(ds, key=self.ORDER.index) if ds else None

    def types_of(self, go, parts):
        """element types, over all ordinary ends of go, of the arrays parts(result) names: name -> dtype"""
        I = self.I
        st = (I.frames, I.facts, I.asm, I.events, I.heap)
        out = {}
        try:
            for p in self.explore(go):
                if p.kind in ('next', 'return'):
                    h, I.heap = I.heap, p.heap
                    try:
                        for k, x in parts(p.val).items():
                            d = I.dtype(x) if isinstance(x, (Arr, View)) else None
                            out[k] = self.narrower(out.get(k), d)
                    finally:
                        I.heap = h
        except (Missing, AnalysisError, Budget, AbsRaise):
            pass
        finally:
            I.frames, I.facts, I.asm, I.events, I.heap = st
        return out

    def storage(self):
        """element type of the partial matrices: the narrower of what the seed and an appended row make it"""
        if not hasattr(self, '_storage'):
            I = self.I
            s = [tm.sym(x, (), True) for x in 'vklu']
            sd = self.types_of(lambda: self.call('srg.solver:_seed', s), lambda v: {'m': v}).get('m')
            R, C, n = (tm.sym(x, (), True) for x in ('R', 'C', 'n'))

            def app():
                g = self.call('srg.srg:SRG', [I.arr(tm.sym('M', (R, C), True), sd)])
                r = I.call(I.getattr(g, 'append_and_return_new'), [I.arr(tm.sym('a', (n,), True), sd)], {})
                return I.getattr(r, 'current_matrix')
            self._storage = self.narrower(sd, self.types_of(app, lambda v: {'m': v}).get('m'))
        return self._storage

    def dtypes(self):
        """element types of the components of a system, as building one from a partial matrix gives them"""
        if not hasattr(self, '_dtypes'):
            from .steps import fields
            I = self.I
            dt = self.storage()
            self._dtypes = {}
            try:
                m = fields(self)
            except (Missing, AnalysisError, Budget):
                return self._dtypes
            R, C = tm.sym('R', (), True), tm.sym('C', (), True)

            def parts(Q):
                d = I.heap[Q.loc].data
                o = {k: d.get(m[k]) for k in ('A', 'b', 'bounds')}
                a = d.get(m['ans'])
                if isinstance(a, Obj):
                    e = I.heap[a.loc].data
                    o.update({k: e.get(m[k]) for k in ('v', 'loc')})
                return o
            self._dtypes = self.types_of(lambda: self.call('srg.srg:Question.from_matrix', [I.arr(tm.sym('M', (R, C), True), dt)]), parts)
        return self._dtypes

    def frame(self, mod='srg.solver'):
        self.mod(mod)
        self.I.frames = [Frame(self.I.modules[mod])]

    def explore(self, fn, mod='srg.solver', limit=600):
        self.frame(mod)
        self.I.facts = []
        self.I.asm = set()
        return self.I.explore(fn, limit=limit)

    def call(self, f, args, kw=None, force=True):
        if isinstance(f, str):
            f = self.fn(f)
        r = self.I.call(f, list(args), dict(kw or {}))
        if force and isinstance(r, GenV):
            r = self.I.force(r)
        return r


class Path:
    """one path of a summary: its conditions, how it ends, and named output terms"""

    def __init__(self, p, out):
        self.kind = p.kind
        self.exc = None
        self.line = None
        if p.kind == 'raise':
            self.exc = getattr(p.exc.cls, 'name', None) or str(p.exc.cls)
            self.line = getattr(p.exc.node, 'lineno', None)
            self.efn = p.exc.fn
        self.conds = [c for i, c in enumerate(p.conds) if i not in p.asm]
        self.asm = [c for i, c in enumerate(p.conds) if i in p.asm]
        self.out = out
        self.events = p.events

    def holds(self, ev):
        """True / False / None (a condition the analysis cannot evaluate)"""
        unk = False
        for c in self.conds:
            try:
                v = ev(c)
            except Endless as e:
                ev.endless = str(e)
                unk = True
                continue
            except Unknown:
                unk = True
                continue
            except Undef:
                unk = True
                continue
            if isinstance(v, list):
                unk = True
                continue
            if not v:
                return False
        return None if unk else True


class Sealed(Chooser):
    """the path has ended: nothing may be decided any more"""

    def next(self):
        raise AnalysisError('a decision after the end of the path')


def forced(I, v):
    """generators in a result run to their end on the path that made them"""
    if isinstance(v, GenV):
        return I.force(v)
    if isinstance(v, tuple):
        return tuple(forced(I, x) for x in v)
    return v


def summary(ctx, go, outs, mod='srg.solver', limit=600):
    """explore go(); outs(value) -> dict of terms, computed on the path's own heap"""
    res = []
    saved = ctx.I.heap
    for p in ctx.explore(lambda: forced(ctx.I, go()), mod, limit):
        ctx.I.heap = p.heap
        ch = ctx.I.ch
        ctx.I.ch = Sealed([])
        try:
            o = outs(p.val) if p.kind in ('next', 'return') else None
        finally:
            ctx.I.heap = saved
            ctx.I.ch = ch
        res.append(Path(p, o))
    return res


def at(paths, env, uf=None):
    """the path taken at a valuation -> (path, evaluator) or (None, why)"""
    ev = Ev(env, uf)
    cand = []
    for p in paths:
        h = p.holds(ev)
        if h:
            return p, ev
        if h is None:
            cand.append(p)
    return None, (getattr(ev, 'endless', None) or 'undecided path condition' if cand else 'no path')


def unknown_parts(t, acc=None):
    acc = set() if acc is None else acc
    for a in atoms(t):
        if a.op in ('opq', 'call', 'carry', 'havoc'):
            acc.add(a)
    return acc
