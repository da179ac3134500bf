"""Abstract interpreter: source (AST) -> terms.

Straight-line code is evaluated over the term domain of terms.py, branches split
the abstract state (the facts known on a branch simplify later tests), calls of
project functions are inlined whatever module or helper they live in, and loops
are summarised by one abstract iteration with every modified location replaced
by a carried unknown, whose recurrence is then solved (append, sum, scatter,
meet, group-by, Horner, flag).  What is not recognised becomes an opaque term.
Nothing of the analysed program is executed.
"""
import ast
import os
from .terms import *
from . import terms as tm


def pyl():
    from . import pylib
    return pylib


class AnalysisError(Exception):
    pass


class Budget(Exception):
    pass


class AbsRaise(Exception):
    def __init__(self, cls, node=None, fn=None):
        self.cls = cls
        self.node = node
        self.fn = fn


class NeedSplit(Exception):
    """an operand evaluated ahead of time takes a decision or has an effect"""


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values
class Arr:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class View:
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path):
        self.loc = loc
        self.path = path     # list of ('fix', t) / ('rng', lo, n)


class Lst:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Dct:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class Obj:
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class PyTuple:
    __slots__ = ('items', 'home')

    def __init__(self, items):
        self.items = list(items)


class Func:
    def __init__(self, node, env, module, name, cls=None):
        self.node, self.env, self.module, self.name, self.cls = node, env, module, name, cls
        self.defaults = []
        self.kwdefaults = {}
        self.is_gen = _is_gen(node)

    def __repr__(self):
        return '<func %s.%s>' % (self.module.name, self.name)


class Bound:
    def __init__(self, f, self_):
        self.f, self.self = f, self_


def same_field(x, sym, k):
    """is x the unchanged field k of the symbolic object sym"""
    if x.op == 'attr':
        return x.args[0] is sym and x.args[1] == k
    return x.op == 'obj' and bool(x.args[1]) and all(same_field(y, T('attr', sym, k), k2) for k2, y in x.args[1])


class ClassV:
    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node

    def lookup(self, attr):
        if attr in self.ns:
            return self.ns[attr]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(attr)
                if r is not None:
                    return r
        return None

    def mro_names(self):
        out = [self.name]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += b.mro_names()
            elif isinstance(b, Builtin):
                out.append(b.name)
                out += ['Exception', 'BaseException']
        return out


class PropertyV:
    def __init__(self, get=None, set=None):
        self.get, self.set = get, set


class ClassMethod:
    def __init__(self, f):
        self.f = f


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ModuleV:
    def __init__(self, name, path=None):
        self.name, self.path, self.ns = name, path, {}
        self.loaded = False


class Ext:
    """external module"""
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, self_=None):
        self.name, self.self = name, self_

    def __repr__(self):
        return '<builtin %s>' % self.name


class PartialV:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class GenV:
    """lazy generator: an un-run call of a generator function / genexp"""
    def __init__(self, run, desc=''):
        self.run = run
        self.desc = desc
        self.cache = None


class IterV:
    """an iterator value with a sequence term (zip, map, reversed ...)"""
    def __init__(self, term, values=None, kind=None):
        self.term, self.values, self.kind = term, values, kind


BUSY = IterV(None, None)
SET_OPS = {m: 'set' for m in ('add', 'discard', 'intersection_update', 'difference_update', 'symmetric_difference_update')}
SET_OPS.update({m: 'list' for m in ('append', 'extend', 'insert', 'sort', 'reverse', 'popleft', 'appendleft')})
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'add', 'update', 'fill', 'discard', 'popleft',
            'appendleft', 'setdefault'}
KEEPS = {'next', 'iter', 'isinstance', 'type', 'id', 'callable', 'hasattr', 'copy.copy', 'copy.deepcopy', 'itertools.islice'}


class SliceV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Unbound:
    pass


UNBOUND = Unbound()


class Cell:
    __slots__ = ('kind', 'data', 'meta')

    def __init__(self, kind, data, meta=None):
        self.kind, self.data, self.meta = kind, data, meta or {}

    def clone(self):
        d = self.data
        if isinstance(d, dict):
            d = dict(d)
        elif isinstance(d, list):
            d = list(d)
        return Cell(self.kind, d, dict(self.meta))


# fixed-width element types and the largest integer they hold exactly
WIDE = {'int8': 2**7 - 1, 'int16': 2**15 - 1, 'int32': 2**31 - 1, 'int64': 2**63 - 1, 'uint8': 2**8 - 1, 'uint16': 2**16 - 1,
        'uint32': 2**32 - 1, 'uint64': 2**64 - 1, 'float': 2**53, 'float64': 2**53, 'float32': 2**24, 'intp': 2**63 - 1}


class Frame:
    def __init__(self, module, parent=None, fn=None):
        self.vars = {}
        self.module = module
        self.parent = parent
        self.fn = fn
        self.measure = None
        self.yields = None
        self.nonlocals = set()
        self.globals = set()


class LoopRecord:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class _Leave(ast.NodeTransformer):
    """return without a value inside the loop a function ends with: leaves the loop"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None:
            return ast.copy_location(ast.Break(), n)
        return n

    def skip(self, n):
        return n
    visit_For = visit_While = visit_AsyncFor = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = skip


def _tail(body):
    while len(body) > 1 and (isinstance(body[-1], ast.Return) and body[-1].value is None or isinstance(body[-1], ast.Pass)):
        body = body[:-1]
    if not body:
        return
    n = body[-1]
    if isinstance(n, (ast.While, ast.For)) and not n.orelse:
        n.body = [_Leave().visit(x) for x in n.body]
    elif isinstance(n, ast.If):
        _tail(n.body)
        _tail(n.orelse)
    elif isinstance(n, ast.With):
        _tail(n.body)


def early_exits(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            _tail(n.body)
    return tree


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in _walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_own(node):
    """walk a function body without nested functions"""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


STR = lambda s: T('str', s)


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []

    def next(self):
        i = len(self.trace)
        b = self.prefix[i] if i < len(self.prefix) else True
        self.trace.append(b)
        return b


class PathResult:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Interp:
    def __init__(self, repo, pkg='srg', budget=2000000):
        self.repo = repo
        self.pkg = pkg
        self.modules = {}
        self.heap = {}
        self.nloc = 0
        self.frames = []
        self.facts = []
        self.asm = set()
        self.spec = None
        self.ch = Chooser([])
        self.events = []
        self.loops = []
        self.depth = 0
        self.steps = 0
        self.budget = budget
        self.hooks = {}          # qualified function name -> handler(interp, func, args, kw)
        self.call_hook = None    # generic hook(interp, func, args, kw) -> value or NotImplemented
        self.init_locs = set()
        self.frozen = {}         # obj term -> (class, {field: loc})
        self.kept = {}           # cells of objects seen inside a loop, for their structure
        self.protos = {}         # root term -> class of elements
        self.materialized = {}
        self.drain = {}
        self.analysed = set()
        self.fn_of_term = {}
        self.argv = None            # values of sys.argv while a command line module is analysed
        self.text = set()           # terms known to be strings
        self.watch = ()             # external calls recorded in out
        self.out = None             # list collecting what such a module prints
        self.loopdepth = 0
        self.loc_depth = {}
        self.cur = None
        self.exts = {}
        self.unknown = set()
        self.ranges = {}

    # -------------------------------------------------------------- modules
    def modpath(self, name):
        rel = name.replace('.', '/')
        for p in (rel + '/__init__.py', rel + '.py'):
            f = os.path.join(self.repo, p)
            if os.path.exists(f):
                return f
        return None

    def load(self, name, as_main=False):
        key = name + ('#main' if as_main else '')
        m = self.modules.get(key)
        if m is not None:
            return m
        path = self.modpath(name)
        if path is None:
            return None
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        m = ModuleV(name, path)
        m.is_pkg = path.endswith('__init__.py')
        self.modules[key] = m
        src = open(path, encoding='utf-8').read()
        m.tree = early_exits(ast.parse(src, path))
        m.ns['__name__'] = STR('__main__' if as_main else name)
        m.ns['__package__'] = STR(name if m.is_pkg else name.rpartition('.')[0])
        m.ns['__path__'] = T('strsym', '__path__:' + name)
        m.ns['__file__'] = STR(path)
        if not as_main:
            saved = self.frames, self.facts
            self.facts = []
            f = Frame(m)
            f.vars = m.ns
            self.frames = [f]
            try:
                self.block(m.tree.body)
            finally:
                self.frames, self.facts = saved
        m.loaded = True
        return m

    def resolve_import(self, frame, node):
        mod = frame.module
        if isinstance(node, ast.Import):
            for a in node.names:
                top = a.name.split('.')[0]
                if top == self.pkg:
                    self.load(a.name)
                    v = self.load(a.name) if a.asname else self.load(top)
                    if v is None:
                        raise AnalysisError('cannot import %s' % a.name)
                    self.bind(a.asname or top, v)
                else:
                    self.bind(a.asname or top, Ext(a.name if a.asname else top))
            return
        base = node.module or ''
        if node.level:
            parts = mod.name.split('.')
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            base = '.'.join(parts + ([node.module] if node.module else []))
        if base.split('.')[0] == self.pkg:
            m = self.load(base)
            if m is None:
                raise AnalysisError('%s: no module %s' % (mod.name, base))
            for a in node.names:
                if a.name == '*':
                    for k, v in m.ns.items():
                        if not k.startswith('_'):
                            self.bind(k, v)
                    continue
                v = m.ns.get(a.name)
                if v is None:
                    v = self.load(base + '.' + a.name)
                if v is None:
                    raise AbsRaise('ImportError', node)
                self.bind(a.asname or a.name, v)
        else:
            for a in node.names:
                if base == '__future__':
                    continue
                self.bind(a.asname or a.name, self.ext_attr(base, a.name))

    def ext_attr(self, mod, name):
        if mod in ('numpy', 'np') and name == 'newaxis':
            return NONE
        if mod in ('numpy', 'np') and name in ('random', 'linalg', 'add', 'minimum', 'maximum', 'bitwise_or', 'logical_or'):
            return Builtin('numpy.' + name)
        if mod == 'matplotlib' and name == 'pyplot':
            return Ext('matplotlib.pyplot')
        if mod == 'sys' and name == 'argv' and self.argv is not None:
            return self.lst(list(self.argv))
        return Builtin(mod + '.' + name)

    # -------------------------------------------------------------- heap
    def alloc(self, kind, data, **meta):
        self.nloc += 1
        self.heap[self.nloc] = Cell(kind, data, meta)
        self.loc_depth[self.nloc] = self.loopdepth
        return self.nloc

    def arr(self, term, dtype=None):
        if dtype in WIDE:
            self.emit('width', dtype, term, self.cur, self.fname())
        return Arr(self.alloc('arr', term, dtype=dtype))

    def lst(self, items):
        return Lst(self.alloc('list', list(items)))

    def lst_term(self, term):
        return Lst(self.alloc('list', term))

    def emit(self, *ev):
        if self.spec is not None and ev[0] == 'write' and isinstance(ev[1], int) and ev[1] <= self.spec:
            raise NeedSplit()
        if ev[0] == 'width' and len(ev) == 5:
            ev += (tuple(self.facts),)
        self.events.append(ev)

    def tentative(self, f):
        """the value of f() when finding it takes no decision, changes nothing and raises nothing; else None"""
        old, n, depth, ne = self.spec, len(self.facts), len(self.frames), len(self.events)
        self.spec = self.nloc
        try:
            r = f()
            if len(self.facts) == n:
                return r
        except (NeedSplit, AbsRaise):
            pass
        finally:
            self.spec = old
        del self.frames[depth:]
        del self.facts[n:]
        del self.events[ne:]
        self.asm = {i for i in self.asm if i < n}
        return None

    # -------------------------------------------------------------- terms of values
    def t(self, v):
        """term describing the present contents of value v"""
        if isinstance(v, Term):
            return v
        if isinstance(v, Arr):
            c = self.heap[v.loc]
            return self.cell_arr(c)
        if isinstance(v, View):
            return self.view_term(v)
        if isinstance(v, Lst):
            c = self.heap[v.loc]
            if isinstance(c.data, list):
                return tup(*[self.t(x) for x in c.data])
            return c.data
        if isinstance(v, Dct):
            c = self.heap[v.loc]
            return self.dict_term(c)
        if isinstance(v, PyTuple):
            return tup(*[self.t(x) for x in v.items])
        if isinstance(v, Obj):
            return self.freeze(v)
        if isinstance(v, GenV):
            return self.t(self.force(v))
        if isinstance(v, IterV):
            if v.values is not None:
                return tup(*[self.t(x) for x in v.values])
            return v.term
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return STR(v)
        if v is None:
            return NONE
        if isinstance(v, Builtin) and v.self is not None and v.name.startswith('method.'):
            return T('attr', self.t(v.self), v.name[7:])
        if isinstance(v, (Func, Bound, Builtin, ClassV, PartialV, ModuleV, Ext, SliceV, PropertyV)):
            return self.fn_term(v)
        if v is UNBOUND:
            return T('unbound')
        if hasattr(v, 'read'):
            return v.read(self)
        return opaque(type(v).__name__)

    def fn_term(self, v):
        n = getattr(v, 'name', None) or (v.f.name if isinstance(v, Bound) and hasattr(v.f, 'name') else type(v).__name__)
        if isinstance(v, Func):
            n = self.qual(v)
            if isinstance(v.node, ast.Lambda):
                n += '@%s.%s' % (v.node.lineno, v.node.col_offset)
        t = T('fn', n)
        self.fn_of_term[t] = v
        return t

    def cell_arr(self, c):
        if c.meta.get('overlay'):
            x = c.data
            ws = []
            for k, rt in c.meta['overlay']:
                ws.append(tup(k, rt))
            return T('scatrow', x, tup(*ws))
        return c.data

    def dict_term(self, c):
        if isinstance(c.data, dict):
            return T('dictlit', tuple((k, self.t(v)) for k, v in c.data.items()))
        return c.data

    def freeze(self, o):
        c = self.heap[o.loc]
        if c.kind == 'symobj':
            return c.data
        cls = c.meta['cls']
        fields = tuple(sorted((k, self.t(v)) for k, v in c.data.items()
                              if not isinstance(v, (Func,))))
        sym = c.meta.get('symterm')
        if sym is not None and sym.op != 'attr' and all(same_field(x, sym, k) for k, x in fields):
            return sym
        term = T('obj', cls.name, fields)
        self.frozen[term] = (cls, {k: v for k, v in c.data.items()}, o.loc)
        return term

    def view_term(self, v):
        c = self.heap[v.loc]
        x = c.data
        ov = c.meta.get('overlay')
        path = list(v.path)
        if ov and path and path[0][0] == 'fix':
            for k, rt in reversed(ov):
                e = self.decide(eq(path[0][1], k))
                if e is True:
                    return self.apply_path(rt, path[1:])
                if e is None:
                    return self.apply_path(idx(self.cell_arr(c), path[0][1]), path[1:])
            return self.apply_path(x, path)
        return self.apply_path(self.cell_arr(c), path)

    def apply_path(self, x, path):
        if not path:
            return x
        p = path[0]
        if p[0] == 'fix':
            return self.apply_path(idx(x, p[1]), path[1:])
        if p[0] == 'lens':
            return self.apply_path(p[1](x), path[1:])
        lo, n = p[1], p[2]
        return self.apply_path(slice_(x, lo, add(lo, n)), path[1:])

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        for f in self.facts:
            if f is c:
                return True
            if f is nott(c):
                return False
            if f.op == 'ge0' and c.op == 'ge0':
                d = sub(c.args[0], f.args[0])
                if d.op == 'num' and d.args[0] >= 0:
                    return True
                d = add(c.args[0], f.args[0])
                if d.op == 'num' and d.args[0] <= -1:
                    return False
            if f.op == 'and':
                if c in f.args:
                    return True
                if nott(c) in f.args:
                    return False
            if f.op == 'eq0' and c.op == 'ge0':
                # p == 0 decides p+k >= 0 and -p+k >= 0
                for s in (1, -1):
                    d = sub(c.args[0], mul(num(s), f.args[0]))
                    if d.op == 'num':
                        return d.args[0] >= 0
            if f.op == 'eq0' and c.op == 'eq0':
                for s in (1, -1):
                    d = sub(c.args[0], mul(num(s), f.args[0]))
                    if d.op == 'num':
                        return d.args[0] == 0
        if c.op == 'and':
            ds = [self.decide(a) for a in c.args]
            if all(d is True for d in ds):
                return True
            if any(d is False for d in ds):
                return False
        if c.op == 'or':
            ds = [self.decide(a) for a in c.args]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
        return None

    def choose(self, c):
        d = self.decide(c)
        if d is not None:
            return d
        if self.spec is not None:
            raise NeedSplit()
        b = self.ch.next()
        self.facts.append(c if b else nott(c))
        return b

    def known(self, c):
        return self.decide(c) is True

    # -------------------------------------------------------------- exploration
    def snapshot(self):
        return ({k: c.clone() for k, c in self.heap.items()},
                [(f, dict(f.vars)) for f in self.frames],
                list(self.facts), dict(self.materialized), dict(self.drain), set(self.asm))

    def restore(self, s):
        self.heap = {k: c.clone() for k, c in s[0].items()}
        self.frames = [f for f, _ in s[1]]
        for f, v in s[1]:
            if f.vars is f.module.ns:
                f.vars.clear()
                f.vars.update(v)
            else:
                f.vars = dict(v)
        self.facts = list(s[2])
        self.materialized = dict(s[3])
        self.drain = dict(s[4])
        self.asm = set(s[5])

    def explore(self, fn, limit=600):
        """run fn on every branch; returns PathResults; state is restored afterwards"""
        snap = self.snapshot()
        outer = self.ch
        spec, self.spec = self.spec, None
        nfacts = len(self.facts)
        ev0 = len(self.events)
        allev = []
        stack = [[]]
        res = []
        try:
            while stack:
                prefix = stack.pop()
                self.restore(snap)
                del self.events[ev0:]
                self.ch = Chooser(prefix)
                kind, val, exc = 'next', None, None
                try:
                    val = fn()
                except AbsRaise as e:
                    kind, exc = 'raise', e
                except _Return as e:
                    kind, val = 'return', e.v
                except _Break:
                    kind = 'break'
                except _Continue:
                    kind = 'continue'
                conds = self.facts[nfacts:]
                res.append(PathResult(kind=kind, val=val, exc=exc, conds=conds, asm={i - nfacts for i in self.asm}, heap=self.heap,
                                      frames=[(f, dict(f.vars)) for f in self.frames],
                                      events=self.events[ev0:], facts=list(self.facts),
                                      materialized=self.materialized, frozen=self.frozen))
                allev += self.events[ev0:]
                tr = self.ch.trace
                for i in range(len(prefix), len(tr)):
                    stack.append(tr[:i] + [not tr[i]])
                if len(res) > limit:
                    raise Budget('too many paths')
        finally:
            self.ch = outer
            self.spec = spec
            self.restore(snap)
            del self.events[ev0:]
            self.events += allev
        return res

    # -------------------------------------------------------------- names
    @property
    def frame(self):
        return self.frames[-1]

    def bind(self, name, v):
        f = self.frame
        if name in f.globals:
            f.module.ns[name] = v
            return
        if name in f.nonlocals:
            p = f.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        f.vars[name] = v

    def lookup(self, name):
        f = self.frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is UNBOUND:
                    return opaque('unbound:' + name)
                return v
            f = f.parent
        m = self.frame.module
        if name in m.ns:
            return m.ns[name]
        if name in _BUILTINS:
            return Builtin(name)
        if name == '__debug__':
            return TRUE
        raise AbsRaise('NameError', None)

    # -------------------------------------------------------------- statements
    def tick(self, node):
        self.steps += 1
        self.cur = node
        if self.steps > self.budget:
            raise Budget('step budget')

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.tick(s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s' % type(s).__name__)
        return m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Import(self, s):
        self.resolve_import(self.frame, s)

    def s_ImportFrom(self, s):
        self.resolve_import(self.frame, s)

    def s_Global(self, s):
        self.frame.globals.update(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals.update(s.names)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                self.emit('write', self.root_loc(base), 'del', self.cur, self.fname())
                from . import npmodel
                npmodel.delitem(self, base, self.keys(t.slice))

    def s_FunctionDef(self, s):
        f = self.mkfunc(s)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.decorator(d, v)
            v = dv
        self.bind(s.name, v)

    def mkfunc(self, s, name=None):
        f = Func(s, self.frame if self.frame.vars is not self.frame.module.ns else None, self.frame.module,
                 name or getattr(s, 'name', '<lambda>'))
        a = s.args
        f.defaults = [self.ev(d) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return f

    def decorator(self, d, v):
        dv = self.ev(d) if not (isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter')) else None
        if dv is None:
            p = self.lookup(d.value.id)
            if d.attr == 'setter':
                return PropertyV(p.get, v)
            return PropertyV(v, p.set)
        if isinstance(dv, Builtin):
            if dv.name == 'property':
                return PropertyV(v)
            if dv.name == 'classmethod':
                return ClassMethod(v)
            if dv.name == 'staticmethod':
                return StaticMethod(v)
            if dv.name in ('functools.lru_cache', 'functools.cache'):
                self.emit('memo', v, d)
                return v
        return self.call(dv, [v], {})

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        f = Frame(self.frame.module, self.frame if self.frame.vars is not self.frame.module.ns else None)
        self.frames.append(f)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        c = ClassV(s.name, bases, f.vars, self.frame.module, s)
        if any(isinstance(b, Builtin) and b.name == 'typing.NamedTuple' for b in bases) or any(
                isinstance(d, ast.Name) and d.id == 'dataclass' or isinstance(d, ast.Call) and isinstance(d.func, ast.Name)
                and d.func.id == 'dataclass' for d in s.decorator_list):
            c.fields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        for k, v in list(f.vars.items()):
            g = v
            while isinstance(g, (ClassMethod, StaticMethod)):
                g = g.f
            if isinstance(g, PropertyV):
                for h in (g.get, g.set):
                    if isinstance(h, Func):
                        h.cls = c
                        h.env = None if f.parent is None else f.parent
                continue
            if isinstance(g, Func):
                g.cls = c
                g.env = f.parent
        self.bind(s.name, c)

    def s_Return(self, s):
        raise _Return(self.ev(s.value) if s.value else NONE)

    def s_Break(self, s):
        raise _Break()

    def s_Continue(self, s):
        raise _Continue()

    def s_Raise(self, s):
        cls = 'Exception'
        if s.exc is not None:
            e = s.exc
            v = self.ev(e.func) if isinstance(e, ast.Call) else self.ev(e)
            if isinstance(e, ast.Call):
                for a in e.args:
                    if not isinstance(a, ast.JoinedStr):
                        try:
                            self.ev(a)
                        except AnalysisError:
                            pass
            cls = v
            if isinstance(v, Obj):
                cls = self.heap[v.loc].meta.get('cls')
            if isinstance(v, PathResult):
                cls = v
            if isinstance(v, Term) and v.op == 'excval':
                cls = self.excvals[v]
        else:
            cls = self.cur_exc.cls if getattr(self, 'cur_exc', None) else 'Exception'
        raise AbsRaise(cls, s, self.fname())

    def fname(self):
        for f in reversed(self.frames):
            if f.fn is not None:
                return f.fn.module.name + '.' + ((f.fn.cls.name + '.') if f.fn.cls else '') + f.fn.name
        return self.frame.module.name

    def s_Assert(self, s):
        c = self.cond(s.test)
        d = self.decide(c)
        caught = self.catching & {'AssertionError', 'Exception', 'BaseException'}
        if not caught:
            self.emit('assert', c, s, self.fname(), tuple(self.facts))
        if d is False:
            raise AbsRaise('AssertionError', s, self.fname())
        if d is None and (caught or self.loopdepth and (self.loop_asserts or self.frame is self.loopframe)):
            # a handler or a loop around makes the failure an ordinary way on
            if not self.choose(c):
                raise AbsRaise('AssertionError', s, self.fname())
        elif d is None:
            self.asm.add(len(self.facts))
            self.facts.append(c)

    def s_If(self, s):
        c = self.cond(s.test)
        if self.choose(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if isinstance(v, Term) else opaque('with'))
        self.block(s.body)

    catching = frozenset()
    loop_asserts = False        # failing assertions of functions called in loops are looked at, too
    loopframe = None

    def s_Try(self, s):
        try:
            try:
                was, self.catching = self.catching, self.catching | {
                    n.id for h in s.handlers if h.type is not None for n in ast.walk(h.type) if isinstance(n, ast.Name)} | {
                    'BaseException' for h in s.handlers if h.type is None}
                try:
                    self.block(s.body)
                finally:
                    self.catching = was
            except AbsRaise as e:
                h = self.match_handler(s, e)
                if h is None:
                    raise
                prev = getattr(self, 'cur_exc', None)
                self.cur_exc = e
                self.emit('caught', e, h, self.fname())
                if h.name:
                    v = T('excval', str(id(h)))
                    self.excvals = getattr(self, 'excvals', {})
                    self.excvals[v] = e.cls
                    self.bind(h.name, v)
                try:
                    self.block(h.body)
                finally:
                    self.cur_exc = prev
            else:
                self.block(s.orelse)
        finally:
            # abstract finally: only executed for its effects on normal analysis
            if s.finalbody:
                self.block(s.finalbody)

    def match_handler(self, s, e):
        names = self.exc_names(e.cls)
        for h in s.handlers:
            if h.type is None:
                return h
            tv = self.ev(h.type)
            ts = tv.items if isinstance(tv, PyTuple) else [tv]
            for t in ts:
                n = t.name if isinstance(t, (ClassV, Builtin)) else None
                if n in names:
                    return h
        return None

    def exc_names(self, cls):
        if isinstance(cls, ClassV):
            return cls.mro_names()
        n = cls if isinstance(cls, str) else getattr(cls, 'name', 'Exception')
        out = [n]
        import builtins
        c = getattr(builtins, n, None)
        if isinstance(c, type):
            out = [x.__name__ for x in c.__mro__]
        return out + ['Exception', 'BaseException']

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base, commit = self.place(t.value)
            if isinstance(base, PyTuple) or isinstance(base, Term) and base in self.homes and not isinstance(v, Obj):
                base, commit = self.homed(base)
            self.setitem(base, t.slice, v)
            if commit is not None:
                commit()
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError('assign target')

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.as_values(v)
        if vals is not None:
            if not star:
                if len(vals) != len(elts):
                    raise AbsRaise('ValueError', self.cur, self.fname())
                for e, x in zip(elts, vals):
                    self.assign(e, x)
                return
            k = star[0]
            tail = len(elts) - k - 1
            if len(vals) < len(elts) - 1:
                raise AbsRaise('ValueError', self.cur, self.fname())
            for e, x in zip(elts[:k], vals[:k]):
                self.assign(e, x)
            self.assign(elts[k].value, self.lst(vals[k:len(vals) - tail]))
            for e, x in zip(elts[k + 1:], vals[len(vals) - tail:]):
                self.assign(e, x)
            return
        term = self.t(v)
        if not star:
            self.emit('unpack', term, len(elts), self.cur, self.fname())
            if self.unpack_may_fail(term):
                if not self.choose(eq(length(term), num(len(elts)))):
                    raise AbsRaise('ValueError', self.cur, self.fname())
            for i, e in enumerate(elts):
                self.assign(e, self.elem(v, term, num(i)))
            return
        k = star[0]
        tail = len(elts) - k - 1
        n = length(term)
        for i, e in enumerate(elts[:k]):
            self.assign(e, self.elem(v, term, num(i)))
        rest = slice_(term, num(k), sub(n, num(tail)))
        self.assign(elts[k].value, self.lst_term(rest))
        for i, e in enumerate(elts[k + 1:]):
            self.assign(e, self.elem(v, term, sub(n, num(tail - i))))

    def unpack_may_fail(self, term):
        return term.op in ('seq', 'slice') and any(a.op in ('strsym',) for a in atoms(term))

    def as_values(self, v):
        """python list of values when the length is concretely known"""
        if isinstance(v, PyTuple):
            return v.items
        if isinstance(v, Lst):
            d = self.heap[v.loc].data
            if isinstance(d, list):
                return list(d)
            if d.op == 'tuple':
                return list(d.args)
            return None
        if v is BUSY:
            raise AnalysisError('an iterator read inside the loop over it')
        if isinstance(v, IterV):
            if v.values is not None:
                return v.values
            if v.term.op == 'tuple':
                return list(v.term.args)
            return None
        if isinstance(v, GenV):
            return self.as_values(self.force(v))
        if isinstance(v, Term):
            if v.op == 'tuple':
                return list(v.args)
            return None
        if isinstance(v, (Arr, View)):
            t = self.t(v)
            n = length(t) if dims(t) else None
            if n is not None and n.op == 'num' and (t.op == 'tuple' or isinstance(n.args[0], int) and n.args[0] <= 40 and (ndim(t) or 0) > 1):
                if (ndim(t) or 0) > 1:
                    path = list(v.path) if isinstance(v, View) else []
                    return [View(v.loc, path + [('fix', num(i))]) for i in range(n.args[0])]
                return [self.wrap_elem(a) for a in t.args]
            return None
        if isinstance(v, Obj) and 'ntfields' in self.heap[v.loc].meta:
            c = self.heap[v.loc]
            return [c.data[k] for k in c.meta['ntfields']]
        return None

    def wrap_elem(self, t):
        return t

    def elem(self, v, term, i):
        if isinstance(v, (Arr, View)) and (ndim(term) or 0) > 1:
            return View(v.loc, (list(v.path) if isinstance(v, View) else []) + [('fix', i)])
        return idx(term, i)

    def s_AugAssign(self, s):
        # read-modify-write; arrays are modified in place
        tgt = s.target
        rhs = None
        if isinstance(tgt, ast.Name):
            cur = self.lookup(tgt.id)
            rhs = self.ev(s.value)
            self.assign(tgt, self.aug(cur, s.op, rhs))
        elif isinstance(tgt, ast.Attribute):
            base = self.ev(tgt.value)
            cur = self.getattr(base, tgt.attr)
            rhs = self.ev(s.value)
            self.setattr(base, tgt.attr, self.aug(cur, s.op, rhs))
        elif isinstance(tgt, ast.Subscript):
            from . import npmodel
            base, commit = self.place(tgt.value)
            cur = self.getitem(base, tgt.slice)
            rhs = self.ev(s.value)
            new = self.aug(cur, s.op, rhs)
            if not isinstance(new, npmodel.DDRef):
                self.setitem(base, tgt.slice, new)
            if commit is not None:
                commit()

    def aug(self, cur, op, rhs):
        if isinstance(cur, (Arr, View)):
            new = self.binop(op, cur, rhs)
            self.write_whole(cur, self.t(new), 'aug')
            return cur
        if isinstance(cur, Lst) and isinstance(op, ast.Add):
            self.list_extend(cur, rhs)
            return cur
        if isinstance(cur, Dct) and isinstance(op, ast.BitOr):
            self.emit('write', cur.loc, 'update', self.cur, self.fname())
            c = self.heap[cur.loc]
            c.data = T('lib', 'set.m.update' if c.kind == 'set' else 'dupdate', None, self.t(cur), self.t(rhs))
            return cur
        if isinstance(cur, Dct) and self.heap[cur.loc].kind == 'set' and isinstance(op, (ast.Sub, ast.BitAnd)):
            self.emit('write', cur.loc, 'update', self.cur, self.fname())
            self.heap[cur.loc].data = T('lib', 'set.m.difference_update' if isinstance(op, ast.Sub) else 'set.m.intersection_update', None,
                                        self.t(cur), self.t(rhs))
            return cur
        from . import npmodel
        if isinstance(cur, npmodel.DDRef):
            if isinstance(op, ast.Add) and cur.kind == 'list':
                npmodel.call(self, Builtin('dd.extend', cur), [rhs], {})
                return cur
            tmp, commit = cur.open(self)
            self.aug(tmp, op, rhs)
            commit()
            return cur
        return self.binop(op, cur, rhs)

    def write_whole(self, a, term, how):
        self.emit('write', a.loc, how, self.cur, self.fname())
        c = self.heap[a.loc]
        if c.meta.get('dtype') in WIDE:
            self.emit('width', c.meta['dtype'], term, self.cur, self.fname())
        po = c.meta.get('viewof')
        if po is not None and po in self.heap:
            self.emit('write', po, how + ':view', self.cur, self.fname())
            self.heap[po].data = opaque('aliaswrite')
            self.heap[po].meta.pop('overlay', None)
        if isinstance(a, Arr):
            c.data = term
            c.meta.pop('overlay', None)
            return
        if a.path and a.path[0][0] == 'fix' and len(a.path) == 1:
            ov = [(k, r) for k, r in c.meta.get('overlay', ()) if k is not a.path[0][1]]
            ov.append((a.path[0][1], term))
            c.meta['overlay'] = tuple(ov)
            return
        if a.path and a.path[0][0] == 'rng' and len(a.path) == 1:
            lo, n = a.path[0][1], a.path[0][2]
            v = fresh('r')
            tm.RANGE[v] = (ZERO, sub(n, ONE))
            c.data = scat(self.cell_arr(c), seq(n, v, TRUE, tup(add(lo, v), idx(term, v) if ndim(term) else term)))
            c.meta.pop('overlay', None)
            return
        c.data = self.write_path(self.cell_arr(c), a.path, term)
        c.meta.pop('overlay', None)

    def write_path(self, x, path, term):
        """x with the part selected by path replaced"""
        if not path:
            return term
        p, rest = path[0], path[1:]
        if p[0] == 'lens':
            return p[2](x, self.write_path(p[1](x), rest, term))
        if p[0] == 'fix':
            new = self.write_path(idx(x, p[1]), rest, term)
            return scat(x, tup(tup(p[1], new))) if not ndim(new) else T('scatrow', x, tup(tup(p[1], new)))
        lo, n = p[1], p[2]
        rows = self.write_path(slice_(x, lo, add(lo, n)), rest, term)
        if ndim(x) == 1:
            v = fresh('r')
            tm.RANGE[v] = (ZERO, sub(n, ONE))
            return scat(x, seq(n, v, TRUE, tup(add(lo, v), idx(rows, v) if ndim(rows) else rows)))
        return T('lib', 'setitem:slice', ndim(x), x, rows, T('lib', 'slice', None, lo, add(lo, n), NONE))

    # -------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        vals = self.as_values(it)
        if isinstance(it, (IterV, GenV)):
            if vals is None:
                it = IterV(self.t(it)) if not self.advance(it, BUSY) else self.reading(it, s)
            else:
                own = IterV(None, [])
                self.advance(it, BUSY)
                self.for_vals(s, vals)
                self.advance(BUSY, own if not any(isinstance(n, ast.Break) for n in ast.walk(s)) else BUSY)
                return
        if isinstance(it, Dct) and isinstance(self.heap[it.loc].data, dict):
            vals = list(self.heap[it.loc].data.keys())
        if vals is not None and len(vals) <= 40:
            return self.for_vals(s, vals)
        n, var, guard, brk, elem = self.iterate(it)

        term = self.t(it) if isinstance(it, Lst) and guard is TRUE and brk is FALSE else None

        def body():
            e = elem
            if term is not None and self.t(it) is not term:
                e = self.at_home(self.from_term(idx(self.t(it), var)), it, var)
            self.assign(s.target, e)
            self.block(s.body)
        self.loop(s, n, var, guard, brk, body, s.orelse)

    def reading(self, it, s):
        t = self.t(it)
        if not any(isinstance(n, ast.Break) for n in ast.walk(s)) and not any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' for n in ast.walk(s)):
            self.advance(BUSY, IterV(None, []))
        return IterV(t)

    def for_vals(self, s, vals):
        for x in vals:
            self.assign(s.target, x)
            try:
                self.block(s.body)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.block(s.orelse)

    def iterate(self, it):
        """-> (n, var, guard, brk, element value)"""
        base = None
        if isinstance(it, (Arr, View)):
            term = self.t(it)
            base = it
        else:
            term = self.t(it)
            if isinstance(it, Dct) and self.heap[it.loc].kind == 'dict' or isinstance(it, Term) and tm.kind_of(term) == 'dict':
                term = T('keys', term)
        r = self.iterate_term(term, base)
        if isinstance(it, Lst):
            self.at_home(r[4], it, r[1])
        return r

    def at_home(self, v, box, k):
        """v was read from box[k]"""
        if isinstance(v, Term):
            if v.op in ('idx', 'dget', 'ite', 'cat', 'seq', 'slice', 'scat'):
                self.homes[v] = (box.loc, k)
        elif isinstance(v, PyTuple):
            if getattr(v, 'home', None) is None:
                v.home = (box.loc, k)
        return v

    def homed(self, v):
        """a list standing for v, an element of some container, and how its change gets back there"""
        from . import npmodel
        h = self.homes.get(v) if isinstance(v, Term) else getattr(v, 'home', None)
        if h is None or h[0] not in self.heap:
            raise AnalysisError('change of an element without a place')
        box = (Dct if self.heap[h[0]].kind == 'dict' else Lst)(h[0])
        if self.t(npmodel.getitem(self, box, [h[1]], False)) is not self.t(v):
            raise AnalysisError('change of an element that was replaced')
        tmp = self.lst_term(self.t(v))

        def commit():
            npmodel.setitem(self, box, [h[1]], self.t(tmp), False)
            new = self.at_home(npmodel.getitem(self, box, [h[1]], False), box, h[1])
            for n, x in list(self.frame.vars.items()):
                if x is v:
                    self.frame.vars[n] = new
        return tmp, commit

    def iterate_term(self, term, base=None):
        if term.op == 'seq':
            n, v, g, k, b = open_seq(term)
            if base is not None and ndim(b) and g is TRUE and k is FALSE:
                return n, v, g, k, View(base.loc, (base.path if isinstance(base, View) else []) + [('fix', v)])
            return n, v, g, k, self.from_term(b)
        if term.op in ('set', 'sorted') and False:
            pass
        if term.op in ('set',):
            # a set visits the elements of its source in some order
            inner = term.args[0]
            if inner.op in ('seq', 'tuple', 'cat'):
                pass
        if term.op in ('fstr', 'tostr') or term.op == 'lib' and ndim(term) in (0, None) and term.args[0].split(':')[0] in pyl().TEXT:
            term = T('lib', 'chars', 1, term)
        n = length(term)
        v = fresh('e')
        tm.RANGE[v] = (ZERO, sub(n, ONE))
        if base is not None and isinstance(base, Arr) and (ndim(term) or 0) > 1:
            return n, v, TRUE, FALSE, View(base.loc, [('fix', v)])
        if base is not None and isinstance(base, View) and (ndim(term) or 0) > 1:
            return n, v, TRUE, FALSE, View(base.loc, base.path + [('fix', v)])
        e = idx(term, v)
        return n, v, TRUE, FALSE, self.from_term(e)

    def from_term(self, e):
        if e.op == 'tuple':
            return PyTuple([self.from_term(a) for a in e.args])
        if e.op == 'idx' and e.args[0].op == 'items':
            d = e.args[0].args[0]
            return PyTuple([self.from_term(idx(T('keys', d), e.args[1])), self.from_term(idx(T('vals', d), e.args[1]))])
        return e

    def loop(self, node, n, var, guard, brk, body, orelse=(), carry_pre=None):
        """summarise a loop over var in [0,n) with guard"""
        snap = self.snapshot()
        pre_heap = self.heap
        self.loopdepth += 1
        outer, self.loopframe = self.loopframe, self.frame

        def once():
            if guard is not TRUE:
                self.facts.append(guard)
            body()
        try:
            paths = self.explore(once)
            M = self.modified(snap, paths)
            for _ in range(4):
                self.restore(snap)
                self.learn(M, paths)
                carry = self.install_carry(M, snap)
                cs = self._carry_snap
                paths = self.explore(once)
                M2 = self.modified(cs, paths)
                if {k for k in M2 if k[0] == 'var' or k[1] in snap[0]} <= M:
                    break
                M = M | M2
        finally:
            self.loopdepth -= 1
            self.loopframe = outer
            self.restore(snap)
        rec = LoopRecord(node=node, fn=self.fname(), n=n, var=var, guard=guard, carry=carry, paths=paths, kind='for')
        self.loops.append(rec)
        self.finish_loop(node, n, var, guard, brk, carry, paths, orelse, snap)

    # --- modified locations
    def modified(self, snap, paths):
        heap0, frames0 = snap[0], snap[1]
        M = set()
        for p in paths:
            for (f, v0), (f1, v1) in zip(frames0, p.frames):
                for k in set(v0) | set(v1):
                    a, b = v0.get(k), v1.get(k)
                    if a is not b and not self.same_value(a, b):
                        M.add(('var', f, k))
            for loc, c0 in heap0.items():
                c1 = p.heap.get(loc)
                if c1 is None:
                    continue
                if c0.kind == 'inst':
                    for k in set(c0.data) | set(c1.data):
                        if not self.same_value(c0.data.get(k), c1.data.get(k)):
                            M.add(('field', loc, k))
                else:
                    if not self.same_data(c0, c1):
                        ov0, ov1 = dict(c0.meta.get('overlay', ())), dict(c1.meta.get('overlay', ()))
                        if c0.kind == 'arr' and c0.data is c1.data and ov0 != ov1:
                            ks = [k for k in set(ov0) | set(ov1) if ov0.get(k) is not ov1.get(k)]
                            if all(not k.fv for k in ks):
                                for k in ks:
                                    M.add(('row', loc, k))
                            else:
                                M.add(('cell', loc))
                        else:
                            M.add(('cell', loc))
        return M

    def same_value(self, a, b):
        if a is b:
            return True
        if type(a) is type(b):
            if isinstance(a, (Arr, Lst, Dct, Obj)):
                return a.loc == b.loc
            if isinstance(a, View):
                return a.loc == b.loc and a.path == b.path
            if isinstance(a, PyTuple):
                return len(a.items) == len(b.items) and all(self.same_value(x, y) for x, y in zip(a.items, b.items))
            if isinstance(a, Bound):
                return a.f is b.f
        return False

    def same_data(self, c0, c1):
        if c0.meta.get('overlay') != c1.meta.get('overlay'):
            return False
        a, b = c0.data, c1.data
        if a is b:
            return True
        if type(a) is type(b) is list:
            return len(a) == len(b) and all(self.same_value(x, y) for x, y in zip(a, b))
        if type(a) is type(b) is dict:
            return a.keys() == b.keys() and all(self.same_value(a[k], b[k]) for k in a)
        return False

    hints = {}

    def learn(self, M, paths):
        """what becomes of the variables that hold None at first"""
        new = False
        for key in M:
            if key[0] != 'var' or key in self.hints or key[1].vars.get(key[2]) is not NONE:
                continue
            for p in paths:
                x, t = self.value_after(key, p)
                if isinstance(x, Obj) and x.loc in p.heap:
                    self.hints = {**self.hints, key: ('obj', x.loc)}
                    self.kept.update(p.heap)
                    new = True
                    break
                if isinstance(x, (Arr, View, Lst)) or isinstance(x, Term) and ndim(x):
                    d = dims(t)
                    if isinstance(x, Lst) or d is None or any(y is None or y.fv for y in d):
                        t = T('carry', 'any')
                    self.hints = {**self.hints, key: ('arr', t)}
                    new = True
                    break
        return new

    def install_carry(self, M, snap):
        """replace modified locations by carried unknowns; returns {key: (carry term, initial term)}"""
        carry = {}
        init = {}
        for key in M:
            v0 = None
            if key[0] == 'var':
                v0 = key[1].vars.get(key[2], UNBOUND)
            elif key[0] == 'field' and key[1] in self.heap:
                v0 = self.heap[key[1]].data.get(key[2], UNBOUND)
            if v0 is not None and v0 is not UNBOUND:
                init[key] = self.t(v0)
        for key in sorted(M, key=lambda k: (k[0], str(k[1:]))):
            if key[0] != 'var' and key[1] not in self.heap:
                continue        # a carried value written in place: its value after the round shows it
            if key[0] == 'var':
                _, f, k = key
                v0 = f.vars.get(k, UNBOUND)
                if v0 is UNBOUND:
                    carry[key] = (None, None, None)
                    f.vars.pop(k, None)
                    continue
                if isinstance(v0, (Arr, View)):
                    t0 = init[key]
                    ct = self.carry_array(k, t0)
                    f.vars[k] = self.arr(ct, self.dtype(v0))
                    carry[key] = (ct, t0, 'arr')
                elif isinstance(v0, Lst):
                    t0 = init[key]
                    ct = self.carry_list(k, t0, v0)
                    f.vars[k] = self.lst_term(ct)
                    carry[key] = (ct, t0, 'list')
                elif isinstance(v0, IterV):
                    if v0 is BUSY:
                        raise AnalysisError('an iterator read inside the loop over it')
                    t0 = init[key]
                    ct = self.carry_list(k, t0, v0)
                    f.vars[k] = IterV(ct)
                    carry[key] = (ct, t0, 'iter')
                elif isinstance(v0, Term):
                    h = self.hints.get(key) if v0 is NONE else None
                    if ndim(v0):
                        ct = self.carry_array(k, v0)
                    elif h is not None and h[0] == 'obj':
                        tm._counter[0] += 1
                        ct = T('carryobj', 'c_%s_%d' % (k, tm._counter[0]))
                        self.protos[ct] = h[1]
                    elif h is not None:
                        ct = self.carry_array('c_' + k, h[1])
                    else:
                        ct = fresh('c_' + k + '_')
                        if v0 is NONE:
                            tm.NONEABLE.add(ct)
                    f.vars[k] = ct
                    carry[key] = (ct, init[key], 'term')
                elif isinstance(v0, Obj):
                    t0 = init[key]
                    ct = T('carryobj', 'c_%s_%d' % (k, tm._counter[0]))
                    tm._counter[0] += 1
                    self.protos[ct] = v0.loc
                    f.vars[k] = self.materialize(ct, v0)
                    carry[key] = (ct, t0, 'obj')
                elif isinstance(v0, PyTuple):
                    t0 = init[key]
                    ct = T('carry', 'c_%s_%d' % (k, tm._counter[0]))
                    tm._counter[0] += 1
                    f.vars[k] = PyTuple([idx(ct, num(i)) for i in range(len(v0.items))])
                    carry[key] = (ct, t0, 'term')
                else:
                    t0 = init[key]
                    ct = opaque('carry_' + k)
                    f.vars[k] = ct
                    carry[key] = (ct, t0, 'other')
            elif key[0] == 'cell':
                c = self.heap[key[1]]
                nm = 'c_loc%d' % key[1]
                if c.kind == 'arr':
                    t0 = self.cell_arr(c)
                    ct = self.carry_array(nm, t0)
                    c.data = ct
                    c.meta.pop('overlay', None)
                    carry[key] = (ct, t0, 'arr')
                elif c.kind == 'list':
                    t0 = c.data if isinstance(c.data, Term) else tup(*[self.t(x) for x in c.data])
                    ct = self.carry_list(nm, t0, Lst(key[1]))
                    c.data = ct
                    carry[key] = (ct, t0, 'list')
                elif c.kind in ('dict', 'set'):
                    t0 = self.dict_term(c)
                    tm._counter[0] += 1
                    ct = T('carry', '%s_%d' % (nm, tm._counter[0]))
                    c.data = ct
                    carry[key] = (ct, t0, c.kind)
            elif key[0] == 'row':
                c = self.heap[key[1]]
                ov = dict(c.meta.get('overlay', ()))
                r0 = ov.get(key[2]) or idx(c.data, key[2])
                ct = self.carry_array('c_row', r0)
                ov[key[2]] = ct
                c.meta['overlay'] = tuple(ov.items())
                carry[key] = (ct, r0, 'arr')
            elif key[0] == 'field':
                c = self.heap[key[1]]
                v0 = c.data.get(key[2], UNBOUND)
                if v0 is UNBOUND:
                    carry[key] = (None, None, None)
                    continue
                t0 = init[key]
                if isinstance(v0, (Arr, View)):
                    ct = self.carry_array(key[2], t0)
                    c.data[key[2]] = self.arr(ct, self.dtype(v0))
                    carry[key] = (ct, t0, 'arr')
                elif isinstance(v0, Obj):
                    tm._counter[0] += 1
                    ct = T('carryobj', 'c_%s_%d' % (key[2], tm._counter[0]))
                    c.data[key[2]] = self.materialize(ct, v0)
                    carry[key] = (ct, t0, 'obj')
                elif isinstance(v0, Lst):
                    ct = self.carry_list(key[2], t0, v0)
                    c.data[key[2]] = self.lst_term(ct)
                    carry[key] = (ct, t0, 'list')
                else:
                    if ndim(t0):
                        ct = self.carry_array(key[2], t0)
                    else:
                        ct = fresh('c_' + key[2] + '_')
                        if nonneg(t0) and False:
                            pass
                    c.data[key[2]] = ct
                    carry[key] = (ct, t0, 'term')
        for ct, t0, kind in carry.values():
            if isinstance(t0, Term) and self.is_text(t0):
                self.text.add(ct)
        self._carry_snap = ({k: c.clone() for k, c in self.heap.items()}, [(f, dict(f.vars)) for f in self.frames])
        return carry

    def is_text(self, t):
        return t.op in ('str', 'fstr', 'strsym', 'tostr', 'arrstr') or t in self.text or \
            t.op == 'call' and t.args[0] == 'strmul' or t.op == 'lib' and t.args[0].split(':')[0] in pyl().TEXT and ndim(t) in (0, None)

    def carry_array(self, name, t0):
        tm._counter[0] += 1
        d = dims(t0)
        if d is None or any(x is None for x in d):
            return T('carry', '%s_%d' % (name, tm._counter[0]))
        return T('arr', '%s_%d' % (name, tm._counter[0]), d)

    def carry_list(self, name, t0, v):
        tm._counter[0] += 1
        ct = T('carry', '%s_%d' % (name, tm._counter[0]))
        p = self.elem_proto(v)
        if p is not None:
            self.protos[ct] = p
        return ct

    def elem_proto(self, v):
        d = self.heap[v.loc].data
        if isinstance(d, list):
            for x in d:
                if isinstance(x, Obj):
                    return x.loc
            return None
        return self.term_proto(d)

    def term_proto(self, d):
        p = self.part_proto(d)
        if p is not None:
            return p
        every = set(atoms(d))
        todo = [a for a in every if a.op == 'mu']
        seen = set()
        while todo:
            c = tm.MU.get(todo.pop().args[0])
            if c is None or id(c) in seen:
                continue
            seen.add(id(c))
            for x in [s0[1] for s0 in c['states']] + [v for q in c['paths'] for v in q['vals']]:
                if isinstance(x, Term):
                    new = atoms(x) - every
                    every |= new
                    todo += [a for a in new if a.op == 'mu']
        every = sorted(every, key=lambda x: (len(x.key), x.key))
        for a in every:
            if a in self.protos:
                return self.protos[a]
            if a.op == 'obj' and a in self.frozen:
                return self.frozen[a][2]
        for a in every:
            if a.op == 'obj':
                o = self.obj_of_term(a)
                if isinstance(o, Obj):
                    return o.loc
        return None

    def part_proto(self, d):
        """the object found by going through the structure of d, never into the fields of one"""
        if not isinstance(d, Term):
            return None
        if d in self.protos:
            return self.protos[d]
        if d.op == 'obj':
            if d in self.frozen:
                return self.frozen[d][2]
            o = self.obj_of_term(d)
            return o.loc if isinstance(o, Obj) else None
        if d.op == 'seq':
            return self.part_proto(open_seq(d)[4])
        if d.op in ('tuple', 'cat', 'ite'):
            for x in d.args[1:] if d.op == 'ite' else d.args:
                p = self.part_proto(x)
                if p is not None:
                    return p
        if d.op in ('flat', 'idx', 'first', 'last', 'popel', 'reversed', 'sorted', 'slice', 'drop', 'take', 'filter') and d.args:
            return self.part_proto(d.args[0])
        return None

    def materialize(self, term, proto):
        """a symbolic instance with the structure of proto whose fields are attr(term, field)"""
        ploc = proto.loc if isinstance(proto, Obj) else proto
        if ploc not in self.heap and ploc in self.kept:
            for l, c in self.kept.items():
                self.heap.setdefault(l, c)
        pc = self.heap.get(ploc)
        if pc is None:
            return None
        fields = {}
        for k, v in pc.data.items():
            at = T('attr', term, k)
            if isinstance(v, (Arr, View)) or (isinstance(v, Term) and ndim(v)):
                nd = ndim(self.t(v)) or 1
                at = T('attr', term, k, nd)
                fields[k] = self.arr(at, self.dtype(v))
            elif isinstance(v, Obj):
                fields[k] = self.materialize(at, v)
            elif isinstance(v, (Lst, Dct)):
                fields[k] = self.lst_term(at)
            elif isinstance(v, Term):
                fields[k] = T('attr', term, k, 0) if ndim(v) == 0 else at
            else:
                fields[k] = v
        loc = self.alloc('inst', fields, cls=pc.meta['cls'], symterm=term)
        return Obj(loc)

    # --- solving the recurrences
    def finish_loop(self, node, n, var, guard, brk, carry, paths, orelse, snap):
        carries = {c[0] for c in carry.values() if c[0] is not None}
        normal, raises, returns, breaks = [], [], [], []
        for p in paths:
            p.g = andt(*[c for c in p.conds if c is not guard]) if p.conds else TRUE
            if guard is not TRUE:
                # conds may repeat the guard
                pass
            if p.kind in ('next', 'continue'):
                normal.append(p)
            elif p.kind == 'raise':
                raises.append(p)
            elif p.kind == 'return':
                returns.append(p)
            else:
                breaks.append(p)
        for p in paths:
            p.drop = set(p.asm)
        if raises and normal:
            # an iteration that goes on has passed the checks whose failure only raises,
            # so those conditions do not select between its outcomes
            def tree(ps, i):
                if not any(p.kind != 'raise' for p in ps):
                    return
                here = [p for p in ps if len(p.conds) > i]
                if len(here) < len(ps):
                    return
                groups = {}
                for p in here:
                    groups.setdefault(p.conds[i], []).append(p)
                live = [c for c, q in groups.items() if any(p.kind != 'raise' for p in q)]
                for c, q in groups.items():
                    if len(groups) > 1 and live == [c]:
                        for p in q:
                            if p.kind != 'raise':
                                p.drop.add(i)
                    tree(q, i + 1)
            tree(paths, 0)
        for p in paths:
            if p.drop:
                p.g = andt(*[c for i, c in enumerate(p.conds) if c is not guard and i not in p.drop])
        # solve simple scalar recurrences first so they can be substituted
        at_iter = {}     # carry term -> value at the start of iteration var
        final = {}
        todo = dict(carry)
        progress = True
        while progress:
            progress = False
            for key, (ct, t0, kind) in list(todo.items()):
                r = self.solve(key, ct, t0, kind, n, var, guard, brk, normal, at_iter, carries, breaks)
                if r is None:
                    continue
                fin, pre = r
                final[key] = fin
                if ct is not None and pre is not None:
                    at_iter[ct] = pre
                del todo[key]
                progress = True
        exits = {id(p): k for k, p in enumerate(raises + returns)}
        munode = None
        left = carries - set(at_iter)
        if todo or any(atoms(p.g) & left for p in raises + returns + breaks):
            munode = self.recurrence(n, var, guard, brk, carry, normal, breaks, raises, returns, exits)
        for i, (key, (ct, t0, kind)) in enumerate(carry.items()):
            if key in todo:
                final[key] = self.eta(munode, i, ct, t0, kind, [self.value_after(key, p)[1] for p in normal + breaks])

        def res(t):
            return subst(t, at_iter) if at_iter else t
        rec = self.loops[-1]
        rec.final = final
        rec.at_iter = at_iter
        # exits
        # 'raise' and 'return' happen at the first iteration that satisfies their condition
        def before(p):
            # leaving in an earlier round otherwise
            o = breaks + [q for q in (returns if p.kind == 'raise' else []) + raises
                          if q.kind != 'raise' or p.kind == 'raise' and q is not p and q.exc.cls is not p.exc.cls]
            gs = [res(q.g) for q in o]
            return ort(brk, *[andt(guard, g) for g in gs]), any(atoms(g) & left for g in gs)
        def leave(p):
            # what the rounds before the exit, and the last one up to it, have changed
            nonlocal munode
            moved = []
            for i, (key, ct) in enumerate(carry.items()):
                if ct[0] is None or key[0] == 'var' and key[1] is not self.frame:
                    continue
                if all(self.value_after(key, q)[1] is ct[0] for q in normal + [p]):
                    continue
                moved.append((i, key))
            if not moved:
                return
            if munode is None:
                munode = self.recurrence(n, var, guard, brk, carry, normal, breaks, raises, returns, exits)
            vals = [(key, self.eta(munode, i, *carry[key], [self.value_after(key, q)[1] for q in normal + [p]])) for i, key in moved]
            for key, v in vals:
                self.store_final(key, v, carry[key], paths)
        for p in raises:
            g = res(p.g)
            stop, und = before(p)
            if g.op != 'true' and (atoms(g) & left) or und:
                c = T('bool', 'muexit', munode, num(exits[id(p)]))
            else:
                c = anyt(seq(n, var, andt(guard, g), TRUE, stop))
            self.note_raise(p, c)
            if self.choose(c):
                leave(p)
                raise p.exc
        for p in returns:
            g = res(p.g)
            stop, und = before(p)
            mux = bool(atoms(g) & left or und)
            if mux:
                c = T('bool', 'muexit', munode, num(exits[id(p)]))
            else:
                c = anyt(seq(n, var, andt(guard, g), TRUE, stop))
            if self.choose(c):
                leave(p)
                v = p.val
                if mux and not isinstance(v, Term):
                    raise _Return(T('muret', munode, num(exits[id(p)])))
                if isinstance(v, Term) and not v.fv & {var} and not (atoms(v) & left):
                    raise _Return(v)
                saved = self.heap
                self.heap = dict(p.heap)
                try:
                    vt = res(self.t(v))
                finally:
                    self.heap = saved
                if mux or atoms(vt) & left:
                    raise _Return(T('muret', munode, num(exits[id(p)])) if munode is not None else opaque('ret'))
                raise _Return(T('first', seq(n, var, andt(guard, g), vt, stop)))
        # install final values
        for key, fin in final.items():
            self.store_final(key, fin, carry[key], paths)
        if breaks and orelse:
            B = ort(*[res(p.g) for p in breaks])
            if self.choose(T('bool', 'mubreak', munode) if munode is not None and atoms(B) & left else anyt(seq(n, var, andt(guard, B), TRUE))):
                return
        if orelse:
            self.block(orelse)

    def note_raise(self, p, c):
        pass

    def recurrence(self, n, var, guard, brk, carry, normal, breaks, raises, returns, exits, ends=()):
        states = [(ct, t0) for ct, t0, kind in carry.values()]
        paths = []
        for p in list(raises) + list(returns) + list(ends) + list(breaks) + list(normal):
            e = dict(kind='end' if p in ends else 'next' if p in normal else p.kind, k=exits.get(id(p)), vals=[], ret=None, keep=None,
                     conds=[c for i, c in enumerate(p.conds) if c is not guard and i not in p.asm])
            if p.kind == 'return':
                saved = self.heap
                self.heap = dict(p.heap)
                try:
                    e['ret'] = p.val if isinstance(p.val, Term) else self.t(p.val)
                finally:
                    self.heap = saved
            e['keep'] = [True] * len(states)
            for key in carry:
                x, t = self.value_after(key, p)
                e['vals'].append(t if t is not None else T('unbound'))
            paths.append(e)
        return tm.mu(dict(n=n, var=var, guard=guard, brk=brk, states=states, paths=paths))

    def eta(self, munode, i, ct, t0, kind, after):
        d = None
        if kind == 'term' and ct.op == 'var':
            d = ()
        elif kind in ('arr', 'term'):
            d0 = dims(ct)
            ds = [dims(t) if t is not None else None for t in after]
            if d0 is not None and all(x == d0 for x in ds):
                d = dims(t0)
                if d is None or any(x is None for x in d):
                    d = len(d0)
            elif d0 is not None:
                d = len(d0)
        elif kind is None:
            ds = [dims(t) if t is not None else None for t in after]
            if ds and all(x is not None and len(x) == len(ds[0]) for x in ds):
                d = len(ds[0]) if ds[0] else ()
        elif kind == 'list':
            rs = {tm.rank(t, (ct,)) if t is not None else None for t in list(after) + ([t0] if t0 is not None and t0 is not tup() else [])} - {-1}
            if len(rs) == 1:
                d = rs.pop() or None
        r = T('eta', munode, num(i), d)
        if ct in self.text:
            self.text.add(r)
        if kind in ('obj', 'list') and ct in self.protos:
            self.protos[r] = self.protos[ct]
        return r

    def store_final(self, key, fin, cinfo, paths):
        ct, t0, kind = cinfo
        if key[0] == 'var':
            _, f, k = key
            # value class
            v0 = f.vars.get(k, UNBOUND)
            if fin is UNBOUND:
                f.vars.pop(k, None)
                return
            if kind == 'arr':
                f.vars[k] = self.arr(fin, self.dtype(v0) if v0 is not UNBOUND else None)
            elif kind == 'list':
                f.vars[k] = self.lst_term(fin)
            elif kind == 'iter':
                f.vars[k] = IterV(fin)
            else:
                f.vars[k] = fin
        elif key[0] == 'cell':
            c = self.heap[key[1]]
            c.data = fin
            if c.meta.get('dtype') in WIDE:
                self.emit('width', c.meta['dtype'], fin, self.cur, self.fname())
            c.meta.pop('overlay', None)
        elif key[0] == 'row':
            c = self.heap[key[1]]
            ov = dict(c.meta.get('overlay', ()))
            ov[key[2]] = fin
            c.meta['overlay'] = tuple(ov.items())
        elif key[0] == 'field':
            c = self.heap[key[1]]
            if kind == 'arr':
                c.data[key[2]] = self.arr(fin)
            elif kind == 'list':
                c.data[key[2]] = self.lst_term(fin)
            elif fin is UNBOUND:
                c.data.pop(key[2], None)
            else:
                c.data[key[2]] = fin

    def value_after(self, key, p):
        saved = self.heap
        self.heap = p.heap
        try:
            if key[0] == 'var':
                for f, v in p.frames:
                    if f is key[1]:
                        x = v.get(key[2], UNBOUND)
                        return x, (self.t(x) if x is not UNBOUND else None)
                return UNBOUND, None
            if key[0] == 'cell':
                c = p.heap[key[1]]
                if c.kind == 'arr':
                    return None, self.cell_arr(c)
                if c.kind == 'list':
                    return None, (c.data if isinstance(c.data, Term) else tup(*[self.t(x) for x in c.data]))
                return None, self.dict_term(c)
            if key[0] == 'row':
                c = p.heap[key[1]]
                ov = dict(c.meta.get('overlay', ()))
                return None, (ov.get(key[2]) if key[2] in ov else idx(c.data, key[2]))
            if key[0] == 'field':
                x = p.heap[key[1]].data.get(key[2], UNBOUND)
                return x, (self.t(x) if x is not UNBOUND else None)
        finally:
            self.heap = saved

    def solve(self, key, ct, t0, kind, n, var, guard, brk, normal, at_iter, carries, breaks):
        """-> (final term, term at start of iteration var) or None if not (yet) solvable"""
        vals = []
        for p in normal:
            x, t = self.value_after(key, p)
            if t is None:
                t = T('unbound')
            g = p.g
            if at_iter:
                t = subst(t, at_iter)
                g = subst(g, at_iter)
            vals.append((g, t, x))
        bvals = []
        for p in breaks:
            x, t = self.value_after(key, p)
            g = subst(p.g, at_iter) if at_iter else p.g
            t = subst(t, at_iter) if (at_iter and t is not None) else t
            bvals.append((g, t))
        B = ort(*[g for g, t in bvals]) if bvals else FALSE
        others = carries - set(at_iter) - ({ct} if ct is not None else set())
        if ct is None:
            # temporary: not defined before the loop
            if any(atoms(g) & (carries - set(at_iter)) or atoms(t) & (carries - set(at_iter)) for g, t, x in vals):
                return None
            if not vals:
                return (UNBOUND, None)
            if all(x is not UNBOUND and isinstance(x, (Func, Builtin, ClassV, ModuleV)) for g, t, x in vals):
                return (UNBOUND, None)
            try:
                body = vals[-1][1]
                for g, t, x in reversed(vals[:-1]):
                    body = ite(g, t, body)
                return (T('last', seq(n, var, guard, body, B)), None)
            except Exception:
                return None
        for g, t, x in vals:
            if (atoms(g) & others) or (atoms(t) & others):
                return None
        for g, t in bvals:
            if (atoms(g) & others) or (t is not None and atoms(t) & others):
                return None
        if any(ct in atoms(g) for g, t, x in vals):
            r = self.solve_guarded(ct, t0, n, var, guard, vals, bvals)
            return r
        brkg = ort(brk, B) if B is not FALSE else brk
        bmod = [(g, t) for g, t in bvals if t is not ct]

        def S(g, body):
            return seq(n, var, andt(guard, g), body, brkg)
        fin = pre = None
        if all(t is ct for g, t, x in vals):
            fin, pre = t0, t0
        else:
            # ---- list append
            ems = []
            ok = True
            for g, t, x in vals:
                if t is ct:
                    continue
                if t.op == 'cat' and t.args[0] is ct and all(ct not in atoms(a) for a in t.args[1:]):
                    ems.append((g, cat(*t.args[1:])))
                else:
                    ok = False
            if ok and ems:
                if all(e.op == 'tuple' and len(e.args) == 1 for g, e in ems):
                    G = ort(*[g for g, e in ems])
                    body = ems[-1][1].args[0]
                    for g, e in reversed(ems[:-1]):
                        body = ite(g, e.args[0], body)
                    add_ = S(G, body)
                else:
                    parts = None
                    body = ems[-1][1]
                    G = ort(*[g for g, e in ems])
                    for g, e in reversed(ems[:-1]):
                        body = ite(g, e, body)
                    add_ = flat(S(G, body))
                fin = cat(t0, add_)
                pre = None
                v2 = fresh('p')
                tm.RANGE[v2] = (ZERO, sub(var, ONE))
                m = {var: v2}
                if add_.op == 'seq' and not bmod:
                    prefix = cat(t0, seq(var, v2, subst(andt(guard, G), m), subst(body, m)))
                    pre = prefix
            if fin is None:
                r = self.solve_sum(ct, t0, n, var, guard, brkg, vals, S)
                if r:
                    fin, pre = r
            if fin is None:
                r = self.solve_array(ct, t0, n, var, guard, brkg, vals, S)
                if r:
                    fin, pre = r
            if fin is None:
                r = self.solve_dict(ct, t0, n, var, guard, vals, S)
                if r:
                    fin, pre = r
            if fin is None:
                r = self.solve_minmax(ct, t0, n, var, guard, vals, S)
                if r:
                    fin, pre = r
            if fin is None:
                # flags / constants / overwritten
                if all(t is ct or (ct not in atoms(t)) for g, t, x in vals):
                    sets = [(g, t) for g, t, x in vals if t is not ct]
                    G = ort(*[g for g, t in sets])
                    if all(t is sets[0][1] for g, t in sets) and var not in sets[0][1].fv:
                        fin = ite(anyt(S(G, TRUE)), sets[0][1], t0)
                    else:
                        body = sets[-1][1]
                        for g, t in reversed(sets[:-1]):
                            body = ite(g, t, body)
                        fin = ite(anyt(S(G, TRUE)), T('last', S(G, body)), t0)
                    pre = None
        if fin is None:
            return None
        if bmod:
            # value set on the breaking iteration
            if len(bmod) == 1 and ct not in atoms(bmod[0][1]):
                g, t = bmod[0]
                c = anyt(seq(n, var, andt(guard, g), TRUE))
                bt = t if var not in t.fv else T('first', seq(n, var, andt(guard, g), t))
                fin = ite(c, bt, fin)
            elif all(t.op == 'cat' and t.args[0] is ct for g, t in bmod) and len(bmod) == 1:
                g, t = bmod[0]
                fin = cat(fin, T('onbreak', seq(n, var, andt(guard, g), cat(*t.args[1:]))))
            else:
                return None
        return fin, pre

    def solve_guarded(self, ct, t0, n, var, guard, vals, bvals):
        # running minimum / maximum / flag updates written with an if on the carried value
        if len(vals) == 2:
            (g1, t1, _), (g2, t2, _) = vals
            for ga, ta, gb, tb in ((g1, t1, g2, t2), (g2, t2, g1, t1)):
                if tb is ct and ct not in atoms(ta):
                    c = ite(ga, ta, ct)
                    if c.op in ('min', 'max') and ct in c.args:
                        rest = [a for a in c.args if a is not ct]
                        s = seq(n, var, guard, rest[0] if len(rest) == 1 else (mn if c.op == 'min' else mx)(*rest))
                        return (T(c.op + 'with', t0, s), None)
        return None

    def solve_sum(self, ct, t0, n, var, guard, brk, vals, S):
        if ndim(ct) not in (0, None):
            return None
        deltas = []
        for g, t, x in vals:
            p = to_poly(t) if t.op in ('poly', 'num', 'var') or t is ct else None
            if p is None:
                return None
            k = p.get(((ct, 1),))
            rest = {m: c for m, c in p.items() if m != ((ct, 1),)}
            r = from_poly(rest)
            if ct in atoms(r):
                # a*carry with symbolic a?
                return None
            if k is None:
                return None
            deltas.append((g, k, r))
        if all(k == 1 for g, k, r in deltas):
            tot = t0
            v2 = fresh('p')
            tm.RANGE[v2] = (ZERO, sub(var, ONE))
            pre = t0
            for g, k, r in deltas:
                if r is ZERO:
                    continue
                tot = add(tot, sum_over(n, var, andt(guard, g), r, brk))
                m = {var: v2}
                pre = add(pre, sum_over(var, v2, subst(andt(guard, g), m), subst(r, m)))
            return tot, pre
        if len(deltas) == 1 and deltas[0][1] == 2 and guard is TRUE and deltas[0][0] is TRUE:
            r = deltas[0][2]
            w = pow2(sub(sub(n, ONE), var))
            return add(mul(t0, pow2(n)), sum_over(n, var, TRUE, mul(r, w))), None
        return None

    def solve_array(self, ct, t0, n, var, guard, brk, vals, S):
        if brk is not FALSE:
            return None
        writes = []
        kinds = set()
        for g, t, x in vals:
            if t is ct:
                continue
            if t.op == 'scat' and t.args[0] is ct:
                w = t.args[1]
                k, w2 = self.classify_writes(w, ct)
                if k is None:
                    return None
                kinds.add(k)
                writes.append((g, w2))
            elif t.op == 'scatrow' and t.args[0] is ct and len(normal_rows(t)) == 1 and normal_rows(t)[0][0] is var \
                    and len(vals) == 1 and g is TRUE and guard is TRUE and n is length(t0):
                row = normal_rows(t)[0][1]
                row = subst(row, {idx(ct, var): idx(t0, var)})
                if ct in atoms(row):
                    return None
                return seq(n, var, TRUE, row), None
            elif t.op in ('meet', 'scatadd') and t.args[0] is ct and ct not in atoms(t.args[1]):
                kinds.add('min' if t.op == 'meet' else 'add')
                writes.append((g, t.args[1]))
            else:
                # elementwise accumulation  seq(c, carry[c] + f)
                r = self.solve_elementwise(ct, t0, n, var, guard, vals)
                return r
        if len(kinds) != 1:
            return None
        k = kinds.pop()
        if all(w.op == 'tuple' and len(w.args) == 1 for g, w in writes):
            G = ort(*[g for g, w in writes])
            body = writes[-1][1].args[0]
            for g, w in reversed(writes[:-1]):
                body = ite(g, w.args[0], body)
            ws = S(G, body)
        else:
            G = ort(*[g for g, w in writes])
            body = writes[-1][1]
            for g, w in reversed(writes[:-1]):
                body = ite(g, w, body)
            ws = flat(S(G, body))
        if k == 'set':
            return scat(t0, ws), None
        if k == 'add':
            return T('scatadd', t0, ws), None
        return T('meet', t0, ws), None

    def classify_writes(self, w, ct):
        """'set' | 'add' | 'min' and the writes with the carried read removed"""
        def one(pair):
            ix, val = pair.args
            if ct not in atoms(val) and ct not in atoms(ix):
                return 'set', pair
            if ct in atoms(ix):
                return None, None
            cur = idx(ct, ix) if ix.op != 'tuple' else self.idx_multi(ct, ix)
            d = sub(val, cur)
            if ct not in atoms(d):
                return 'add', tup(ix, d)
            if val.op == 'min' and cur in val.args:
                rest = [a for a in val.args if a is not cur]
                if not any(ct in atoms(a) for a in rest):
                    return 'min', tup(ix, mn(*rest))
            return None, None
        if w.op == 'tuple':
            ks, out = set(), []
            for pr in w.args:
                k, p2 = one(pr)
                ks.add(k)
                out.append(p2)
            if len(ks) != 1 or None in ks:
                return None, None
            return ks.pop(), tup(*out)
        if w.op == 'seq':
            n, v, g, k, b = open_seq(w)
            if b.op != 'tuple' or ct in atoms(g):
                return None, None
            kk, b2 = one(b)
            if kk is None:
                return None, None
            return kk, seq(n, v, g, b2, k)
        if w.op == 'cat':
            ks, out = set(), []
            for pr in w.args:
                k, p2 = self.classify_writes(pr, ct)
                ks.add(k)
                out.append(p2)
            if len(ks) != 1 or None in ks:
                return None, None
            return ks.pop(), cat(*out)
        if ct not in atoms(w):
            return 'set', w
        return None, None

    def idx_multi(self, x, ix):
        for a in ix.args:
            x = idx(x, a)
        return x

    def solve_elementwise(self, ct, t0, n, var, guard, vals):
        rows = []
        for g, t, x in vals:
            if t is ct:
                rows.append((g, None))
                continue
            d = dims(ct)
            if not d or len(d) != 1:
                return None
            rows.append((g, t))
        v = fresh('w')
        m = dims(ct)[0]
        tm.RANGE[v] = (ZERO, sub(m, ONE))
        body = idx(t0, v)
        for g, t in rows:
            if t is None:
                continue
            e = idx(t, v)
            delta = sub(e, idx(ct, v))
            if ct in atoms(delta):
                # Horner on arrays
                if len(rows) == 1 and g is TRUE and guard is TRUE:
                    p = to_poly(e)
                    cc = idx(ct, v)
                    if p.get(((cc, 1),)) == 2:
                        r = from_poly({mm: c for mm, c in p.items() if mm != ((cc, 1),)})
                        if ct not in atoms(r):
                            w = pow2(sub(sub(n, ONE), var))
                            return seq(m, v, TRUE, add(mul(idx(t0, v), pow2(n)), sum_over(n, var, TRUE, mul(r, w)))), None
                return None
            body = add(body, sum_over(n, var, andt(guard, g), delta))
        return seq(m, v, TRUE, body), None

    def solve_dict(self, ct, t0, n, var, guard, vals, S):
        ops = []
        for g, t, x in vals:
            if t is ct:
                continue
            if t.op in ('gappend', 'dset', 'sadd') and t.args[0] is ct and all(ct not in atoms(a) for a in t.args[1:]):
                ops.append((g, t))
            else:
                return None
        if not ops or len({t.op for g, t in ops}) != 1:
            return None
        G = ort(*[g for g, t in ops])
        op = ops[0][1].op

        def pay(t):
            return t.args[1] if op == 'sadd' else tup(*t.args[1:])
        body = pay(ops[-1][1])
        for g, t in reversed(ops[:-1]):
            body = ite(g, pay(t), body)
        s = S(G, body)
        empty = t0.op == 'dictlit' and not t0.args[0]
        if op == 'gappend':
            return (T('groupby', s), None) if empty else None
        if op == 'dset':
            return (T('dict', s), None) if empty else None
        e2 = t0.op == 'set' and t0.args[0].op == 'tuple' and not t0.args[0].args
        return (T('set', s), None) if (e2 or empty) else (T('set', cat(t0.args[0], s)), None) if t0.op == 'set' else None

    def solve_minmax(self, ct, t0, n, var, guard, vals, S):
        for op, f in (('min', mn), ('max', mx)):
            terms = []
            ok = True
            for g, t, x in vals:
                if t is ct:
                    continue
                if t.op == op and ct in t.args:
                    rest = [a for a in t.args if a is not ct]
                    if any(ct in atoms(a) for a in rest):
                        ok = False
                    terms.append((g, f(*rest)))
                else:
                    ok = False
            if ok and len(terms) == 1:
                return T(op + 'with', t0, S(terms[0][0], terms[0][1])), None
        return None

    # -------------------------------------------------------------- while
    def s_While(self, s):
        # concrete unrolling is never attempted: the loop is summarised
        snap = self.snapshot()
        self.loopdepth += 1

        # draining loop: while L: x = L.pop() ...
        try:
            self._while(s, snap)
        finally:
            self.loopdepth -= 1

    def _while(self, s, snap):
        forever = isinstance(s.test, ast.Constant) and bool(s.test.value)

        def once():
            c = self.cond(s.test)
            d = self.decide(c)
            if d is False:
                raise _Exit()
            if d is None:
                if not self.choose(c):
                    raise _Exit()
            self.wcond = c
            self.block(s.body)

        def run():
            try:
                once()
                return ('next', None)
            except _Exit:
                return ('exit', None)
        if not forever:
            try:
                c0 = self.cond(s.test)
                if self.decide(c0) is False:
                    self.restore(snap)
                    if s.orelse:
                        self.block(s.orelse)
                    return
            finally:
                pass
            self.restore(snap)
        paths = self.explore(run)
        if paths and all(p.kind in ('break', 'return', 'raise') for p in paths):
            # no path reaches a second round: the body is executed once
            self.restore(snap)
            try:
                once()
            except (_Exit, _Break):
                return
            return
        M = self.modified(snap, [p for p in paths if not (p.kind == 'next' and p.val and p.val[0] == 'exit')])
        carry = None
        for _ in range(5):
            self.restore(snap)
            self.learn(M, paths)
            carry = self.install_carry(M, snap)
            cs = self._carry_snap
            paths = self.explore(run)
            M2 = self.modified(cs, paths)
            if {k for k in M2 if k[0] == 'var' or k[1] in snap[0]} <= M:
                break
            M = M | M2
        self.restore(snap)
        live = [p for p in paths if not (p.kind == 'next' and p.val and p.val[0] == 'exit')]
        # ---- pattern: counter loop -> for
        if not forever:
            if self.while_counter(s, snap, carry, live):
                return
            if self.while_drain(s, snap, carry, live):
                return
            if self.while_bits(s, snap, carry, live):
                return
        rec = LoopRecord(node=s, fn=self.fname(), carry=carry, paths=paths, kind='while', forever=forever, snap=snap,
                         facts=list(self.facts), init={k: v[1] for k, v in carry.items()})
        self.loops.append(rec)
        # general: havoc, keep the exit condition
        self.restore(snap)
        for p in paths:
            p.g = TRUE
        of = {k: [p for p in live if p.kind in k.split()] for k in ('raise', 'return', 'break', 'next continue')}
        exits = {id(p): k for k, p in enumerate(of['raise'] + of['return'])}
        munode = self.recurrence(None, None, TRUE, FALSE, carry, of['next continue'], of['break'], of['raise'], of['return'], exits,
                                 [p for p in paths if p not in live])
        if any(isinstance(a, Term) and a.op == 'var' and not a.args[0].startswith('c_') for a in munode.args[1:]):
            # for every element of a sequence: the values are functions of it
            rec.kind, rec.post = 'inner', {}
            for i, (k, (ct, t0, kind)) in enumerate(carry.items()):
                self.store_final(k, self.eta(munode, i, ct, t0, kind, [self.value_after(k, p)[1] for p in of['next continue'] + of['break']]),
                                 carry[k], paths)
        else:
            post = self.install_carry(M, snap)
            rec.post = {k: v[0] for k, v in post.items()}
        for i, k in enumerate(carry):
            h = rec.post.get(k)
            if isinstance(h, Term) and h.op in ('var', 'arr', 'carry', 'carryobj'):
                tm.HV[h] = (munode, i)
        seen = []
        for p in live:
            if p.kind == 'raise':
                self.note_raise_general(p)
                if p.exc.cls in seen:
                    continue
                seen.append(p.exc.cls)
                alike = [exits[id(q)] for q in of['raise'] if q.exc.cls is p.exc.cls]
                x = T('bool', 'loopraise', STR(self.fname()), T('line', str(getattr(p.exc.node, 'lineno', 0))), munode, num(alike[0]))
                tm.LX[x] = (munode, [('raise', k) for k in alike])
                if self.choose(x):
                    raise p.exc
            if p.kind == 'return':
                x = T('bool', 'loopreturn', STR(self.fname()), T('line', str(s.lineno)), munode, num(exits[id(p)]))
                tm.LX[x] = (munode, [('return', exits[id(p)])])
                if self.choose(x):
                    self.heap.update({k: c for k, c in p.heap.items() if k not in self.heap})
                    v = p.val
                    if isinstance(v, Term) and not (atoms(v) & {c[0] for c in carry.values()}):
                        raise _Return(v)
                    raise _Return(T('muret', munode, num(exits[id(p)])))
        if not forever:
            c = self.cond(s.test)
            d = self.decide(c)
            if d is None and not of['break']:
                self.facts.append(nott(c))
        else:
            bps = [p for p in live if p.kind == 'break']
            if not bps:
                raise _Return(opaque('noexit'))
        if s.orelse and not forever:
            if not of['break'] or self.choose(T('bool', 'muend', munode)):
                self.block(s.orelse)

    def note_raise_general(self, p):
        return None

    def while_counter(self, s, snap, carry, live):
        """while i < n: ... i += 1"""
        cands = [(k, c) for k, c in carry.items() if k[0] == 'var' and c[2] == 'term' and c[0] is not None and c[0].op == 'var']
        for key, (ct, t0, kind) in cands:
            ok = bool(live)
            step = None
            for p in live:
                if p.kind not in ('next', 'continue', 'break', 'raise', 'return'):
                    ok = False
                if p.kind in ('break', 'raise', 'return'):
                    continue
                x, t = self.value_after(key, p)
                d = sub(t, ct) if t is not None else None
                if d is None or d.op != 'num' or d.args[0] not in (1, -1):
                    ok = False
                    break
                if step not in (None, d.args[0]):
                    ok = False
                    break
                step = d.args[0]
            if not ok or step is None:
                continue
            # the loop condition with the carried counter
            self.restore(snap)
            key[1].vars[key[2]] = ct
            try:
                c = self.cond(s.test)
            finally:
                self.restore(snap)
            if c.op != 'ge0' and not (c.op == 'not' and c.args[0].op == 'eq0') and not (c.op == 'eq0'):
                continue
            p0 = c.args[0] if c.op == 'ge0' else (c.args[0].args[0] if c.op == 'not' else None)
            if p0 is None:
                continue
            others = [cc[0] for kk, cc in carry.items() if kk != key and cc[0] is not None]
            if any(o in atoms(p0) for o in others):
                continue
            co = to_poly(p0).get(((ct, 1),))
            if c.op == 'ge0':
                if co != -step:
                    continue
                # p0 = bound - step*i >= 0   iterations: p0(t0)+1
                n = add(subst(p0, {ct: t0}), ONE)
            else:
                if co not in (1, -1):
                    continue
                # i != e : iterations |e - t0|
                e = tm._solve(p0, ct)
                n = mul(num(step), sub(e, t0))
            v = fresh('k')
            tm.RANGE[v] = (ZERO, sub(n, ONE))

            def body():
                key[1].vars[key[2]] = add(t0, mul(num(step), v))
                self.block(s.body)
                if key[2] in key[1].vars:
                    pass
            broken = any(p.kind == 'break' for p in live)
            if broken and (tm.mx(n, ZERO) is not n or s.orelse):
                return False
            self.loop_counter(s, n, v, body, key)
            if not broken:
                self.frame.vars[key[2]] = add(t0, mul(num(step), n))
            return True
        return False

    def loop_counter(self, s, n, v, body, key):
        self.loop(s, n, v, TRUE, FALSE, body, s.orelse)

    def while_drain(self, s, snap, carry, live):
        """while L: x = L.pop(); ...   with L not otherwise modified"""
        for key, (ct, t0, kind) in carry.items():
            if kind != 'list':
                continue
            how = None
            ok = bool(live)
            for p in live:
                x, t = self.value_after(key, p)
                if t is None or t.op != 'poprest' or t.args[0] is not ct:
                    ok = False
                    break
                if how not in (None, t.args[1]):
                    ok = False
                    break
                how = t.args[1]
            if not ok:
                continue
            # condition must be emptiness of L
            self.restore(snap)
            if key[0] == 'cell':
                self.heap[key[1]].data = ct
            elif not self.rebind_list(key, ct):
                continue
            c = self.cond(s.test)
            self.restore(snap)
            if c is not nott(eq0(length(ct))):
                continue
            if key[0] == 'cell':
                loc = key[1]
            else:
                loc = key[1].vars[key[2]].loc
            n = length(t0)
            base = t0
            if how == 'heap':
                base = T('sorted', t0) if t0.op != 'sorted' else t0
            v = fresh('q')
            tm.RANGE[v] = (ZERO, sub(n, ONE))
            if how == 'last':
                el = idx(base, sub(sub(n, ONE), v))
            else:
                el = idx(base, v)
            if how == 'heap' or (t0.op in ('seq',) and (t0.args[2] is not TRUE)):
                el = T('idx', base, v)
            self.drain[loc] = (el, how)

            def body():
                self.drain[loc] = (el, how)
                self.block(s.body)
            self.loop(s, n, v, TRUE, FALSE, body, s.orelse)
            self.drain.pop(loc, None)
            self.heap[loc].data = []
            return True
        return False

    def while_bits(self, s, snap, carry, live):
        """while a: r = a % 2; a >>= 1; out.append(r)"""
        if len(live) != 1 or live[0].kind != 'next':
            return False
        p = live[0]
        num_key = None
        for key, (ct, t0, kind) in carry.items():
            x, t = self.value_after(key, p)
            if t is not None and ct is not None and t is T('floordiv', ct, num(2)):
                num_key = (key, ct, t0)
        if not num_key:
            return False
        key, ct, a0 = num_key
        self.restore(snap)
        if key[0] != 'var':
            return False
        key[1].vars[key[2]] = ct
        c = self.cond(s.test)
        self.restore(snap)
        if c not in (nott(eq0(ct)), ge0(sub(ct, ONE))):
            return False
        for k2, (c2, t2, kind) in carry.items():
            x, t = self.value_after(k2, p)
            if k2 != key and c2 is not None and not (kind == 'list' and t in (cat(c2, tup(T('mod', ct, num(2)))), cat(tup(T('mod', ct, num(2))), c2))):
                return False
        for k2, (c2, t2, kind) in carry.items():
            if k2 == key:
                continue
            x, t = self.value_after(k2, p)
            fin = None
            if c2 is None:
                fin = opaque('tmp')
            elif kind == 'list' and t is cat(c2, tup(T('mod', ct, num(2)))):
                fin = cat(t2, T('bits', a0))
            elif kind == 'list' and t is cat(tup(T('mod', ct, num(2))), c2):
                fin = cat(T('reversed', T('bits', a0)), t2)
            else:
                fin = opaque('bits')
            self.store_final(k2, fin, carry[k2], live)
        self.store_final(key, ZERO, carry[key], live)
        return True

    # -------------------------------------------------------------- expressions
    def cond(self, e):
        """boolean term of expression e (no path split)"""
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            out = self.cond(e.values[0])
            for x in e.values[1:]:
                if out is (FALSE if conj else TRUE):
                    return out
                v = self.tentative(lambda: self.cond(x))
                if v is None:
                    if self.choose(out) is not conj:
                        return FALSE if conj else TRUE
                    out = self.cond(x)
                    continue
                out = andt(out, v) if conj else ort(out, v)
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return nott(self.cond(e.operand))
        return self.truth(self.ev(e))

    def cond_lazy(self, e):
        return self.cond(e)

    def truth(self, v):
        if isinstance(v, Term):
            return truth(v)
        if isinstance(v, (Lst,)):
            t = self.t(v)
            return nott(eq0(length(t)))
        if isinstance(v, Dct):
            t = self.t(v)
            if t.op == 'dictlit':
                return boolt(len(t.args[0]) > 0)
            if t.op == 'set':
                return nott(eq0(length(t.args[0])))
            return nott(eq0(T('count', t)))
        if isinstance(v, PyTuple):
            return boolt(len(v.items) > 0)
        if isinstance(v, (Obj, Func, Bound, ClassV, ModuleV, Builtin, GenV, IterV)):
            return TRUE
        if isinstance(v, (Arr, View)):
            t = self.t(v)
            d = dims(t)
            if d == ():
                return truth(t)
            return T('bool', 'arrtruth', t)
        return T('bool', 'truth', self.t(v))

    def ev(self, e):
        self.tick(e)
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            from fractions import Fraction
            return num(Fraction(v)) if v == v and abs(v) != float('inf') else T('float', repr(v))
        if isinstance(v, str):
            return STR(v)
        return T('const', repr(v))

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        xs = self.ev_items(e.elts)
        return self.lst_term(xs.term) if isinstance(xs, SpreadList) else PyTuple(xs)

    def e_List(self, e):
        xs = self.ev_items(e.elts)
        return self.lst_term(xs.term) if isinstance(xs, SpreadList) else self.lst(xs)

    def e_Set(self, e):
        xs = self.ev_items(e.elts)
        return Dct(self.alloc('set', T('set', xs.term if isinstance(xs, SpreadList) else tup(*[self.t(x) for x in xs]))))

    def ev_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                vals = self.as_values(v)
                if vals is None:
                    from . import npmodel
                    out.append(Spread(npmodel.elems(self, v)[1]))
                else:
                    out += vals
            else:
                out.append(self.ev(x))
        if any(isinstance(x, Spread) for x in out):
            parts = [x.term if isinstance(x, Spread) else tup(self.t(x)) for x in out]
            return SpreadList(cat(*parts))
        return out

    def e_Dict(self, e):
        if any(k is None for k in e.keys):
            return Dct(self.alloc('dict', opaque('dict**')))
        d = {}
        for k, v in zip(e.keys, e.values):
            d[self.hashkey(self.ev(k))] = self.ev(v)
        return Dct(self.alloc('dict', d))

    def hashkey(self, v):
        return self.t(v)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(STR(v.value))
            else:
                x = self.ev(v.value)
                t = self.t(x) if isinstance(x, (Term, PyTuple, Arr, View, Lst)) else STR('?')
                if isinstance(x, Obj) and v.format_spec is None:
                    from .npmodel import REG
                    r = REG['repr' if v.conversion == 114 else 'str'](self, [x], {})
                    if isinstance(r, Term) and self.is_text(r):
                        parts.append(r)
                        continue
                if v.format_spec is not None:
                    parts.append(T('lib', 'format', 0, t, self.t(self.ev(v.format_spec))))
                else:
                    parts.append(T('arrstr', t) if self.is_array(x) else self.to_str(t))
        return mkstr(parts)

    def to_str(self, t):
        if t.op == 'str':
            return t
        if t.op == 'num':
            return STR(str(t.args[0]))
        return T('tostr', t)

    def e_FormattedValue(self, e):
        return self.to_str(self.t(self.ev(e.value)))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_IfExp(self, e):
        c = self.cond(e.test)
        d = self.decide(c)
        if d is True:
            return self.ev(e.body)
        if d is False:
            return self.ev(e.orelse)
        # pure scalar alternatives merge, others split
        if self.pure(e.body) and self.pure(e.orelse):
            self.facts.append(c)
            a = self.ev(e.body)
            self.facts.pop()
            self.facts.append(nott(c))
            b = self.ev(e.orelse)
            self.facts.pop()
            if isinstance(a, Term) and isinstance(b, Term):
                return ite(c, a, b)
            if isinstance(a, (Arr, View)) and isinstance(b, (Arr, View)) and False:
                pass
        if self.choose(c):
            return self.ev(e.body)
        return self.ev(e.orelse)

    def pure(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'int', 'min', 'max', 'abs', 'bool', 'float'):
                    continue
                return False
        return True

    def e_BoolOp(self, e):
        # value semantics
        vals = e.values
        if all(self.boolish(v) for v in vals):
            return self.cond(e)
        cur = self.ev(vals[0])
        for nx in vals[1:]:
            c = self.truth(cur)
            if isinstance(e.op, ast.And):
                if self.decide(c) is False:
                    return cur
                if isinstance(cur, Term) and isbool(cur):
                    r = self.tentative(lambda: self.ev(nx))
                    if isinstance(r, Term) and isbool(r):
                        cur = andt(cur, r)
                        continue
                    if self.choose(c):
                        cur = self.ev(nx)
                        continue
                    return FALSE
                if self.choose(c):
                    cur = self.ev(nx)
                else:
                    return cur
            else:
                if isinstance(cur, Term) and isbool(cur):
                    r = self.tentative(lambda: self.ev(nx))
                    if isinstance(r, Term) and isbool(r):
                        cur = ort(cur, r)
                        continue
                    if self.choose(c):
                        return TRUE
                    cur = self.ev(nx)
                    continue
                if self.choose(c):
                    return cur
                cur = self.ev(nx)
        return cur

    def boolish(self, e):
        return isinstance(e, ast.Compare) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)) or \
            (isinstance(e, ast.BoolOp) and all(self.boolish(v) for v in e.values)) or \
            (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('any', 'all', 'isinstance', 'bool')) or \
            (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('any', 'all', 'array_equal'))

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return nott(self.cond(e.operand))
        v = self.ev(e.operand)
        t = self.t(v)
        if isinstance(e.op, ast.USub):
            r = self.map1(t, neg)
        elif isinstance(e.op, ast.UAdd):
            return v
        else:
            if self.dtype(v) == 'bool' or self.boolarr(t):
                r = self.map1(t, lambda b: nott(truth(b)))
                return self.arr(r, 'bool') if isinstance(v, (Arr, View)) or ndim(r) else r
            r = self.map1(t, lambda x: T('bitnot', x))
        return self.mkval(r, self.dtype(v))

    def boolarr(self, t):
        if isbool(t):
            return True
        if t.op == 'seq':
            return self.boolarr(t.args[4])
        if t.op == 'tuple' and t.args:
            return all(self.boolarr(a) for a in t.args)
        return False

    def map1(self, t, f):
        d = ndim(t)
        if d:
            return seqmap(t, lambda x: self.map1(x, f))
        return f(t)

    def mkval(self, term, dtype=None):
        if ndim(term) == 0:
            if dtype in WIDE:
                self.emit('width', dtype, term, self.cur, self.fname())
            return term
        if ndim(term) is None and term.op in ('idx', 'opq', 'call', 'attr') and dtype is None:
            return term
        return self.arr(term, dtype)

    def dtype(self, v):
        if isinstance(v, (Arr, View)):
            return self.heap[v.loc].meta.get('dtype')
        return None

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def is_array(self, v):
        return isinstance(v, (Arr, View)) or (isinstance(v, Term) and bool(ndim(v)) and v.op != 'tuple')

    def binop(self, op, a, b):
        # overloads on project objects
        # list / tuple concatenation and repetition
        seqish = (Lst, PyTuple)
        if isinstance(op, ast.Add) and (isinstance(a, seqish) or isinstance(b, seqish)) and not (
                isinstance(a, (Arr, View)) or isinstance(b, (Arr, View))):
            va, vb = self.as_values(a), self.as_values(b)
            if va is not None and vb is not None:
                return self.lst(va + vb) if isinstance(a, Lst) else PyTuple(va + vb)
            r = self.lst_term(cat(self.t(a), self.t(b)))
            return r
        if isinstance(op, ast.Mult) and (isinstance(a, seqish) or isinstance(b, seqish)) and not (
                isinstance(a, (Arr, View)) or isinstance(b, (Arr, View))):
            l, k = (a, b) if isinstance(a, seqish) else (b, a)
            kt = self.t(k)
            va = self.as_values(l)
            if va is not None and kt.op == 'num' and len(va) * kt.args[0] <= 64:
                return self.lst(va * kt.args[0]) if isinstance(l, Lst) else PyTuple(va * kt.args[0])
            if va is not None and len(va) == 1:
                v = fresh('x')
                tm.RANGE[v] = (ZERO, sub(kt, ONE))
                return self.lst_term(seq(kt, v, TRUE, self.t(va[0])))
            return self.lst_term(T('lib', 'listmul', ndim(self.t(l)), self.t(l), kt))
        if isinstance(a, Dct) or isinstance(b, Dct):
            ta, tb = self.t(a), self.t(b)
            name = {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}.get(type(op).__name__)
            kinds = [self.heap[x.loc].kind for x in (a, b) if isinstance(x, Dct)]
            if name == 'union' and kinds == ['dict', 'dict']:
                return Dct(self.alloc('dict', T('lib', 'dupdate', None, ta, tb)))
            if name is None or 'dict' in kinds:
                raise AnalysisError('operator on a dictionary')
            return Dct(self.alloc('set', T('lib', 'set.' + name, None, ta, tb)))
        ta, tb = self.t(a), self.t(b)
        if isinstance(op, ast.Add) and (self.is_text(ta) or self.is_text(tb)):
            return mkstr([ta, tb])
        if isinstance(op, ast.Mod) and ta.op == 'str':
            return self.percent(ta.args[0], b)
        if isinstance(op, ast.Mult) and ta.op == 'str':
            return T('call', 'strmul', ta, tb)
        if isinstance(op, ast.MatMult):
            r = matmul(ta, tb)
            return self.mkval(r, self.join_dtype(a, b))
        dt = self.join_dtype(a, b)
        f = self.scalar_op(op, a, b, dt)
        r = ew(f, ta, tb)
        if self.is_array(a) or self.is_array(b):
            return self.arr(r, dt)
        if ndim(r):
            return self.arr(r, dt)
        return r

    def percent(self, s, b):
        import re as _re
        vals = list(b.items) if isinstance(b, PyTuple) else [b]
        parts = _re.split('(%[ds]|%%)', s)
        if '%' not in ''.join(x for x in parts if x not in ('%d', '%s', '%%')) and \
                sum(x in ('%d', '%s') for x in parts) == len(vals) and not any(isinstance(x, (Arr, View, Lst, Dct, Obj)) for x in vals):
            out = []
            for x in parts:
                if x in ('%d', '%s'):
                    v = self.t(vals.pop(0))
                    out.append(self.to_str(v if x == '%s' else v))
                else:
                    out.append(STR('%' if x == '%%' else x))
            return mkstr(out)
        return T('lib', 'percent', 0, STR(s), *[self.t(x) for x in vals])

    def join_dtype(self, a, b):
        da, db = self.dtype(a), self.dtype(b)
        if da is None and db is None:
            return None
        if 'object' in (da, db):
            return 'object'
        if da is None:
            return db if not self.is_array(a) else None
        if db is None:
            return da if not self.is_array(b) else None
        if da == db:
            return da
        order = ['bool', 'int8', 'int16', 'int32', 'int64', 'float', 'object']
        if da in order and db in order:
            return order[max(order.index(da), order.index(db))]
        return None

    def scalar_op(self, op, a=None, b=None, dt=None):
        k = type(op)
        if k is ast.Add:
            return add
        if k is ast.Sub:
            return sub
        if k is ast.Mult:
            return mul
        if k is ast.Div:
            return div
        if k is ast.FloorDiv:
            return floordiv
        if k is ast.Mod:
            return mod
        if k is ast.Pow:
            return power
        if k is ast.LShift:
            self.emit('shift', self.dtype(a) if a is not None else None, self.is_array(a), self.cur, self.fname())
            return lambda x, y: mul(x, pow2(y))
        if k is ast.RShift:
            return lambda x, y: floordiv(x, pow2(y))
        if k is ast.BitAnd:
            return lambda x, y: bitop('bitand', x, y)
        if k is ast.BitOr:
            return lambda x, y: bitop('bitor', x, y)
        if k is ast.BitXor:
            return lambda x, y: bitop('bitxor', x, y)
        raise AnalysisError('operator')

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return andt(*[self.truth(x) for x in out])

    def compare(self, op, a, b):
        k = type(op)
        if k in (ast.Is, ast.IsNot):
            if isinstance(b, Term) and b is NONE:
                if isinstance(a, Term):
                    r = eq(a, NONE) if a is not NONE else TRUE
                else:
                    r = FALSE
            elif isinstance(a, Term) and isinstance(b, Term):
                r = eq(a, b)
            elif isinstance(a, Term) and a.op == 'call' and a.args[0] == 'type':
                r = T('bool', 'type is', a, self.t(b))
            else:
                r = boolt(self.same_value(a, b))
            return nott(r) if k is ast.IsNot else r
        if k in (ast.In, ast.NotIn):
            r = self.contains(a, b)
            return nott(r) if k is ast.NotIn else r
        if k in (ast.Eq, ast.NotEq):
            if isinstance(a, Term) and (isinstance(b, Obj) or a.op in ('popel', 'carryobj', 'obj')):
                a = self.obj_of_term(a) or a
            if isinstance(b, Term) and isinstance(a, Obj):
                b = self.obj_of_term(b) or b
            if isinstance(a, Obj) and isinstance(b, Obj):
                cls = self.heap[a.loc].meta.get('cls')
                m = cls.lookup('__eq__') if cls else None
                if m is not None:
                    r = self.truth(self.call(Bound(m, a), [b], {}))
                else:
                    r = boolt(a.loc == b.loc)
                return nott(r) if k is ast.NotEq else r
        ta, tb = self.t(a), self.t(b)
        f = {ast.Eq: eq, ast.NotEq: lambda x, y: nott(eq(x, y)), ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[k]
        arr = isinstance(a, (Arr, View)) or isinstance(b, (Arr, View)) or \
            (isinstance(a, Term) and ndim(a) and a.op not in ('tuple',) and not isinstance(b, Lst)) or \
            (isinstance(b, Term) and ndim(b) and b.op not in ('tuple',) and not isinstance(a, Lst))
        if arr:
            return self.arr(ew(f, ta, tb), 'bool')
        if isinstance(a, (Lst, PyTuple, Dct)) or isinstance(b, (Lst, PyTuple, Dct)):
            if k in (ast.Eq, ast.NotEq):
                r = eq(ta, tb) if ta.op == 'tuple' and tb.op == 'tuple' else (TRUE if ta is tb else T('bool', 'listeq', *sorted([ta, tb])))
                return nott(r) if k is ast.NotEq else r
            if isinstance(a, Dct) or isinstance(b, Dct):
                return T('bool', 'lib', T('lib', 'set.' + {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[k], 0, ta, tb))
            if k in (ast.Gt, ast.GtE):
                ta, tb = tb, ta
            return T('bool', 'lib', T('lib', 'listlt' if k in (ast.Lt, ast.Gt) else 'listle', 0, ta, tb))
        if ta.op == 'str' and tb.op == 'str' and k in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            return boolt({ast.Lt: ta.args[0] < tb.args[0], ast.LtE: ta.args[0] <= tb.args[0], ast.Gt: ta.args[0] > tb.args[0],
                          ast.GtE: ta.args[0] >= tb.args[0]}[k])
        if k in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) and (ta.op in ('str', 'fstr', 'strsym', 'tostr') or tb.op in ('str', 'fstr', 'strsym', 'tostr')):
            if k in (ast.Gt, ast.GtE):
                ta, tb = tb, ta
            return T('bool', 'lib', T('lib', 'listlt' if k in (ast.Lt, ast.Gt) else 'listle', 0, ta, tb))
        if ta.opq and ta.op in ('opq', 'call') or tb.opq and tb.op in ('opq', 'call'):
            return f(ta, tb)
        return f(ta, tb)

    def contains(self, a, b):
        ta = self.t(a)
        if isinstance(b, Dct):
            tb = self.t(b)
            if tb.op == 'dictlit':
                keys = [k for k, v in tb.args[0]]
                if all(x.op in ('str', 'num') for x in keys) and ta.op in ('str', 'num'):
                    return boolt(ta in keys)
                return ort(*[eq(ta, k) for k in keys])
            if tb.op == 'set' and tb.args[0].op == 'tuple':
                return ort(*[eq(ta, k) for k in tb.args[0].args])
            if tb.op == 'set':
                return member(ta, tb.args[0])
            return T('bool', 'in', ta, tb)
        tb = self.t(b)
        if tb.op in ('tuple',):
            return ort(*[eq(ta, k) for k in tb.args])
        if tb.op in ('seq', 'cat') and ndim(ta) == 0:
            return member(ta, tb)
        return T('bool', 'in', ta, tb)

    def e_Lambda(self, e):
        return self.mkfunc(e)

    def e_Starred(self, e):
        return self.ev(e.value)

    # comprehensions
    def e_ListComp(self, e):
        r = self.comp(e.generators, lambda: self.ev(e.elt))
        return r if isinstance(r, Lst) else self.lst_term(r)

    def e_GeneratorExp(self, e):
        fr = self.frame
        cap = list(self.frames)
        # evaluated eagerly: the repo consumes generator expressions at once
        r = self.comp(e.generators, lambda: self.ev(e.elt))
        if isinstance(r, Lst):
            vals = self.as_values(r)
            if vals is not None:
                return IterV(None, vals)
            return IterV(self.t(r))
        return IterV(r)

    def e_SetComp(self, e):
        r = self.comp(e.generators, lambda: self.ev(e.elt))
        t = self.t(r) if isinstance(r, Lst) else r
        return Dct(self.alloc('set', T('set', t)))

    def e_DictComp(self, e):
        r = self.comp(e.generators, lambda: PyTuple([self.ev(e.key), self.ev(e.value)]))
        if isinstance(r, Lst):
            vals = self.as_values(r)
            if vals is not None and all(isinstance(v, PyTuple) for v in vals):
                return Dct(self.alloc('dict', {self.hashkey(v.items[0]): v.items[1] for v in vals}))
            r = self.t(r)
        return Dct(self.alloc('dict', T('dict', r)))

    def comp(self, gens, elt):
        f = Frame(self.frame.module, self.frame, None)
        f.fn = None
        self.frames.append(f)
        out = self.lst([])
        try:
            self.comp_rec(gens, 0, elt, out)
        finally:
            self.frames.pop()
        return out

    def comp_rec(self, gens, k, elt, out):
        if k == len(gens):
            v = elt()
            self.list_append(out, v)
            return
        g = gens[k]
        it = self.ev(g.iter)
        vals = self.as_values(it)
        if isinstance(it, Dct) and isinstance(self.heap[it.loc].data, dict):
            vals = list(self.heap[it.loc].data.keys())

        def inner():
            for c in g.ifs:
                if not self.choose(self.cond(c)):
                    return
            self.comp_rec(gens, k + 1, elt, out)
        if vals is not None and len(vals) <= 40:
            self.consume(it)
            for x in vals:
                self.assign(g.target, x)
                inner()
            return
        n, var, guard, brk, elem = self.iterate(it)
        self.consume(it)

        def body():
            self.assign(g.target, elem)
            inner()
        self.loop(g, n, var, guard, brk, body, ())

    # -------------------------------------------------------------- lists
    def printed(self, args, how):
        if self.out is not None:
            self.list_append(self.out, tup(STR(how), *[self.t(a) if not isinstance(a, Spread) else a.term for a in args]))

    def list_append(self, l, v):
        c = self.heap[l.loc]
        self.emit('write', l.loc, 'append', self.cur, self.fname())
        if isinstance(c.data, list):
            c.data.append(v)
        else:
            c.data = cat(c.data, tup(self.t(v)))

    def list_extend(self, l, v):
        vals = self.as_values(v)
        if vals is None:
            self.t(v)
        # running a generator may have replaced the cells
        c = self.heap[l.loc]
        self.emit('write', l.loc, 'extend', self.cur, self.fname())
        if isinstance(c.data, list) and vals is not None:
            c.data.extend(vals)
        else:
            c.data = cat(self.t(l), self.t(v))

    # -------------------------------------------------------------- attributes
    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, v, name):
        if isinstance(v, ModuleV):
            if name in v.ns:
                return v.ns[name]
            m = self.load(v.name + '.' + name) if getattr(v, 'is_pkg', False) else None
            if m is not None:
                return m
            raise AbsRaise('AttributeError', self.cur, self.fname())
        if isinstance(v, Ext):
            if v.name in ('numpy',) or True:
                return self.ext_attr(v.name, name) if not (v.name == 'matplotlib') else Ext(v.name + '.' + name)
        if isinstance(v, Builtin) and v.self is not None and v.name.startswith('method.'):
            v = self.t(v)
        if isinstance(v, Builtin):
            return Builtin(v.name + '.' + name)
        if isinstance(v, ClassV):
            x = v.lookup(name)
            if x is None:
                if name == '__name__':
                    return STR(v.name)
                return T('call', 'classattr', STR(v.name), STR(name))
            if isinstance(x, ClassMethod):
                return Bound(x.f, v)
            if isinstance(x, StaticMethod):
                return x.f
            return x
        if isinstance(v, Term):
            o = self.obj_of_term(v)
            if o is not None:
                v = o
        if isinstance(v, Obj):
            return self.obj_getattr(v, name)
        if isinstance(v, (Func, PartialV, Bound)):
            if name in ('__name__', '__qualname__'):
                return STR(getattr(v, 'name', 'fn'))
            return opaque('fnattr')
        if isinstance(v, (Arr, View)) or isinstance(v, (Lst, Dct, PyTuple, IterV, GenV, Term)):
            from . import npmodel
            r = npmodel.attr(self, v, name)
            if r is not None:
                return r
            return Builtin('method.' + name, v)
        from . import npmodel
        if isinstance(v, npmodel.DDRef):
            return Builtin('dd.' + name, v)
        if isinstance(v, npmodel.SuperV):
            a = v.cls.lookup(name)
            return Bound(a, v.self) if isinstance(a, Func) else opaque('super')
        return opaque('attr:' + name)

    def obj_of_term(self, t):
        if t in self.materialized:
            return self.materialized[t]
        o = None
        if t.op == 'obj':
            info = self.frozen.get(t)
            cls = info[0] if info else self.find_class(t.args[0])
            fields = {}
            for k, ft in t.args[1]:
                if ndim(ft) and ft.op != 'tuple':
                    fields[k] = self.arr(ft)
                else:
                    fields[k] = ft
            o = Obj(self.alloc('inst', fields, cls=cls, symterm=None))
        elif t.op in ('idx', 'popel', 'last', 'carryobj', 'attr', 'first') or t in self.protos and t.op == 'call':
            p = None
            if t.op == 'attr':
                return None
            root = t
            p = self.term_proto(t)
            if p is None or t.op == 'idx' and ndim(t.args[0]) not in (None, 1):
                return None
            if isinstance(t.args[0], Term) and t.args[0].op == 'arr':
                return None
            o = self.materialize(t, p)
        if o is not None:
            self.materialized[t] = o
        return o

    def find_class(self, name):
        for m in list(self.modules.values()):
            c = m.ns.get(name)
            if isinstance(c, ClassV):
                return c
        return None

    def obj_getattr(self, o, name):
        c = self.heap[o.loc]
        cls = c.meta['cls']
        a = cls.lookup(name)
        if isinstance(a, PropertyV):
            return self.call(Bound(a.get, o), [], {})
        if name in c.data:
            return c.data[name]
        if isinstance(a, ClassMethod):
            return Bound(a.f, cls)
        if isinstance(a, StaticMethod):
            return a.f
        if isinstance(a, Func):
            return Bound(a, o)
        if a is not None:
            if isinstance(a, (PartialV, Builtin)):
                return a
            return a
        if name == '__class__':
            return cls
        if name == '_replace' and 'ntfields' in c.meta:
            return Builtin('nt._replace', o)
        if name == '__dict__':
            return Dct(self.alloc('dict', {STR(k): v for k, v in c.data.items()}))
        raise AbsRaise('AttributeError', self.cur, self.fname())

    def setattr(self, v, name, val):
        if isinstance(v, Term):
            o = self.obj_of_term(v)
            if o is not None:
                v = o
        if isinstance(v, Obj):
            c = self.heap[v.loc]
            cls = c.meta['cls']
            a = cls.lookup(name)
            if isinstance(a, PropertyV):
                if a.set is None:
                    raise AbsRaise('AttributeError', self.cur, self.fname())
                self.call(Bound(a.set, v), [val], {})
                return
            self.emit('setfield', v.loc, name, self.cur, self.fname(), cls.name)
            c.data[name] = val
            return
        if isinstance(v, ModuleV):
            self.emit('setmodule', v.name, name, self.cur, self.fname())
            v.ns[name] = val
            return
        if isinstance(v, ClassV):
            self.emit('setclass', v.name, name, self.cur, self.fname())
            v.ns[name] = val
            return
        if isinstance(v, (Arr, View)):
            self.emit('write', v.loc, 'attr:' + name, self.cur, self.fname())
            self.heap[v.loc].data = opaque('setattr')
            return
        self.emit('setunknown', name, self.cur, self.fname())

    def root_loc(self, v):
        return getattr(v, 'loc', None)

    # -------------------------------------------------------------- subscripts
    homes = {}

    def e_Subscript(self, e):
        b = self.ev(e.value)
        r = self.getitem(b, e.slice)
        if isinstance(b, (Lst, Dct)) and isinstance(r, (Term, PyTuple)) and not isinstance(e.slice, (ast.Slice, ast.Tuple)):
            i = self.ev(e.slice) if isinstance(e.slice, (ast.Name, ast.Constant)) else None
            if i is not None:
                i = self.t(i) if isinstance(b, Lst) else self.hashkey(i)
                self.at_home(r, b, i)
        return r

    def keys(self, sl):
        """evaluate a subscript into a list of index values (per axis)"""
        if isinstance(sl, ast.Tuple):
            return [self.key1(x) for x in sl.elts]
        return [self.key1(sl)]

    def key1(self, x):
        if isinstance(x, ast.Slice):
            return SliceV(self.ev(x.lower) if x.lower else None, self.ev(x.upper) if x.upper else None,
                          self.ev(x.step) if x.step else None)
        return self.ev(x)

    def getitem(self, v, sl):
        from . import npmodel
        ks = self.keys(sl)
        return npmodel.getitem(self, v, ks, isinstance(sl, ast.Tuple))

    def setitem(self, v, sl, val):
        from . import npmodel
        ks = self.keys(sl)
        return npmodel.setitem(self, v, ks, val, isinstance(sl, ast.Tuple))

    # -------------------------------------------------------------- calls
    def e_Call(self, e):
        commit = None
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS and isinstance(e.func.value, ast.Subscript):
            v, commit = self.place(e.func.value, e.func.attr)
            f = self.getattr(v, e.func.attr)
        else:
            f = self.ev(e.func)
        r = self.finish_call(e, f)
        if commit is not None:
            commit()
        return r

    def place(self, e, change=None):
        """value of a target that is about to be changed in place, and how the change gets back to its container"""
        if not isinstance(e, ast.Subscript):
            return self.ev(e), None
        base, bc = self.place(e.value)
        from . import npmodel
        ks = self.keys(e.slice)
        tpl = isinstance(e.slice, ast.Tuple)
        v = npmodel.getitem(self, base, ks, tpl)
        if isinstance(v, npmodel.DDRef):
            return v, bc
        if isinstance(v, PyTuple) and isinstance(base, Lst) and not (
                isinstance(self.heap[base.loc].data, list) and any(v is x for x in self.heap[base.loc].data)):
            v = self.t(v)       # an element picked by a computed index
        if not isinstance(v, Term) or isinstance(base, (Arr, View)) or v.op in ('num', 'str') or self.obj_of_term(v) is not None:
            return v, bc
        if v.opq or not isinstance(base, (Lst, Dct, Term)) and not (isinstance(base, PyTuple)):
            raise AnalysisError('change of an element of something unknown')
        if isinstance(base, (Term, PyTuple)):
            raise AnalysisError('change of an element without a place')
        if isinstance(base, Dct):
            ks = [self.hashkey(ks[0] if not tpl else PyTuple(ks))]
            tpl = False
        kind = SET_OPS.get(change) or tm.kind_of(v)
        if not kind and isinstance(base, Dct):
            raise AnalysisError('change of a value of unknown kind')
        tmp = self.lst_term(v) if kind in ('list', None, '') else Dct(self.alloc(kind, v))

        def commit():
            npmodel.setitem(self, base, ks, self.as_plain(tmp), tpl)
            if bc is not None:
                bc()
        return tmp, commit

    def as_plain(self, l):
        return self.t(l)

    def finish_call(self, e, f):
        args = []
        spread = False
        lazy = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                vals = self.as_values(v)
                if isinstance(v, (IterV, GenV)):
                    lazy.append(v)
                if vals is None:
                    args.append(Spread(self.t(v)))
                    spread = True
                else:
                    args += vals
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                t = self.heap[v.loc].data if isinstance(v, Dct) else None
                if isinstance(t, dict):
                    for kk, vv in t.items():
                        if kk.op == 'str':
                            kw[kk.args[0]] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = self.ev(k.value)
        self.cur = e
        r = self.call(f, args, kw)
        if isinstance(f, Builtin) and f.name not in KEEPS:
            lazy += [a for a in args if isinstance(a, (IterV, GenV)) and a is not r]
        if isinstance(f, Builtin) and f.name in ('zip', 'itertools.zip_longest', 'itertools.product', 'itertools.chain'):
            its = [a for a in args if isinstance(a, (IterV, GenV))]
            if len({id(a) for a in its}) < len(its):
                raise AnalysisError('one iterator read twice at a time')
        for v in lazy:
            self.consume(v)
        return r

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value else NONE
        self.do_yield(v)
        return opaque('sent')

    def cells_of(self, v, depth=0):
        """field path -> (root cell, loop depth at which it was allocated)"""
        out = {}
        if isinstance(v, Obj) and depth < 3 and isinstance(self.heap[v.loc].data, dict):
            for k, x in self.heap[v.loc].data.items():
                if isinstance(x, (Arr, View, Lst, Dct, Obj)):
                    l = self.root_loc(x) if isinstance(x, (Arr, View)) else x.loc
                    po = self.heap[l].meta.get('viewof') if l in self.heap else None
                    l = po if po is not None else l
                    out[k] = (l, self.loc_depth.get(l, 0))
                    for k2, y in self.cells_of(x, depth + 1).items():
                        out[k + '.' + k2] = y
        return out

    def do_yield(self, v):
        f = self.frame
        while f is not None and f.yields is None:
            f = f.parent
        self.emit('yield', v, self.cur, self.fname(), self.cells_of(v), self.loopdepth)
        self.list_append(f.yields, v)

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        if isinstance(v, GenV):
            self.force(v)
        f = self.frame
        while f is not None and f.yields is None:
            f = f.parent
        self.list_extend(f.yields, v)
        return NONE

    def e_Await(self, e):
        raise AnalysisError('await')

    def call(self, f, args, kw):
        if self.depth > 60:
            return opaque('depth')
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.f, Func):
                return self.call_func(f.f, [f.self] + list(args), kw)
            return self.call(f.f, [f.self] + list(args), kw)
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            from . import npmodel
            return npmodel.call(self, f, args, kw)
        if isinstance(f, Obj):
            cls = self.heap[f.loc].meta['cls']
            m = cls.lookup('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kw)
        if isinstance(f, (StaticMethod, ClassMethod)):
            return self.call(f.f, args, kw)
        return opaque('call', *[self.t(a) for a in args if not isinstance(a, Spread)])

    def instantiate(self, cls, args, kw):
        nt = getattr(cls, 'fields', None)
        if nt is not None and cls.lookup('__init__') is None:
            fields = {k: cls.ns[k] for k in nt if k in cls.ns}
            fields.update(zip(nt, args))
            fields.update(kw)
            return Obj(self.alloc('inst', fields, cls=cls, ntfields=nt))
        o = Obj(self.alloc('inst', {}, cls=cls))
        init = cls.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif 'Exception' in cls.mro_names():
            pass
        return o

    def qual(self, f):
        return f.module.name + '.' + ((f.cls.name + '.') if f.cls else '') + f.name

    def call_func(self, f, args, kw):
        q = self.qual(f)
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kw)
            if r is not NotImplemented:
                return r
        self.analysed.add(q)
        active = [fr for fr in self.frames if fr.fn is f]
        if len(active) >= 2:
            # an explicit sequence that gets shorter with every call bounds the recursion
            a, b = self.measure(args), active[-1].measure
            if a is None or b is None or a >= b or len(active) > 9:
                return self.recursive(f, args, kw)
        if f.is_gen:
            return GenV(lambda: self.run_gen(f, args, kw), q)
        return self.run(f, args, kw)

    def measure(self, args):
        ls = [len(self.heap[a.loc].data) for a in args if isinstance(a, Lst) and isinstance(self.heap[a.loc].data, list)]
        ls += [len(a.items) for a in args if isinstance(a, PyTuple)]
        return sum(ls) if ls else None

    def recursive(self, f, args, kw):
        ts = []
        for a in list(args) + list(kw.values()):
            ts.append(a.term if isinstance(a, Spread) else self.t(a))
        r = T('call', 'rec:' + self.qual(f), *ts)
        return IterV(r) if f.is_gen else r

    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if any(isinstance(x, Spread) for x in vals):
            # f(*symbolic): expand against the remaining parameters
            out = []
            for x in vals:
                if isinstance(x, Spread):
                    need = len(pos) - len(out) if not a.vararg else 0
                    if a.vararg and len(out) >= len(pos):
                        out.append(x)
                        continue
                    need = len(pos) - len(out)
                    for i in range(need):
                        out.append(self.from_term(idx(x.term, num(i))))
                else:
                    out.append(x)
            vals = out
        n = len(pos)
        for name, v in zip(pos, vals):
            fr.vars[name] = v
        extra = vals[n:]
        if a.vararg:
            if any(isinstance(x, Spread) for x in extra):
                fr.vars[a.vararg.arg] = self.lst_term(cat(*[x.term if isinstance(x, Spread) else tup(self.t(x)) for x in extra]))
            else:
                fr.vars[a.vararg.arg] = PyTuple(extra)
        elif extra:
            raise AbsRaise('TypeError', self.cur, self.fname())
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in pos or k in kwo:
                fr.vars[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            fr.vars[a.kwarg.arg] = Dct(self.alloc('dict', {STR(k): v for k, v in rest.items()}))
        elif rest and '**' not in rest:
            raise AbsRaise('TypeError', self.cur, self.fname())
        for name, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            fr.vars.setdefault(name, d)
        for k, d in f.kwdefaults.items():
            fr.vars.setdefault(k, d)
        for name in pos + kwo:
            if name not in fr.vars:
                raise AbsRaise('TypeError', self.cur, self.fname())

    def run(self, f, args, kw):
        fr = Frame(f.module, f.env, f)
        fr.measure = self.measure(args)
        self.bind_args(f, args, kw, fr)
        self.frames.append(fr)
        self.depth += 1
        d = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            self.block(f.node.body)
            return NONE
        except _Return as r:
            if isinstance(r.v, (Arr, View)) and self.dtype(r.v) in WIDE:
                self.emit('width', self.dtype(r.v), self.t(r.v), self.cur, f.name)
            return r.v
        finally:
            self.depth -= 1
            del self.frames[d - 1:]

    def run_gen(self, f, args, kw):
        fr = Frame(f.module, f.env, f)
        fr.measure = self.measure(args)
        self.bind_args(f, args, kw, fr)
        fr.yields = self.lst([])
        fr.vars['__yields__'] = fr.yields
        self.frames.append(fr)
        self.depth += 1
        d = len(self.frames)
        try:
            self.block(f.node.body)
        except _Return:
            pass
        finally:
            self.depth -= 1
            out = fr.vars.get('__yields__', fr.yields)
            del self.frames[d - 1:]
        return out

    def force(self, g):
        # run once; the marker says whether the run belongs to the path being followed
        if g.cache is None or g.cache[1] not in self.heap:
            r = g.run()
            g.cache = (r, self.alloc('mark', None))
        return g.cache[0]

    def advance(self, it, new):
        """the iterator has been read: whatever holds it now holds what is left"""
        hit = False
        seen = []
        for f in self.frames:
            while f is not None and f not in seen:
                seen.append(f)
                for k, x in list(f.vars.items()):
                    if x is it:
                        f.vars[k] = new
                        hit = True
                f = f.parent
        for loc, c in list(self.heap.items()):
            if isinstance(c.data, dict):
                for k, x in list(c.data.items()):
                    if x is it:
                        c.data[k] = new
                        hit = True
            elif isinstance(c.data, list):
                for k, x in enumerate(c.data):
                    if x is it:
                        c.data[k] = new
                        hit = True
        return hit

    def consume(self, it):
        if isinstance(it, (IterV, GenV)):
            self.advance(it, IterV(None, []))


class _Exit(Exception):
    pass


class Spread:
    def __init__(self, term):
        self.term = term


class SpreadList(list):
    """list display with a symbolic spread"""
    def __init__(self, term):
        super().__init__()
        self.term = term


def normal_rows(t):
    return [w.args for w in t.args[1].args] if t.args[1].op == 'tuple' else []


def opaque_bool(g):
    return T('bool', 'opq', opaque('g', g))


def flat(s):
    """concatenation of a sequence of sequences"""
    if s.op == 'tuple':
        return cat(*s.args)
    if s.op == 'seq':
        n, v, g, k, b = open_seq(s)
        if b.op == 'tuple' and len(b.args) == 1:
            return seq(n, v, g, b.args[0], k)
        if b.op == 'tuple' and not b.args:
            return tup()
    if s.op == 'cat':
        return cat(*[flat(p) for p in s.args])
    return T('flat', s)


tm._MK['flat'] = flat


def floordiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return a
    return T('floordiv', a, b)


def mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return T('mod', a, b)


tm._MK['floordiv'] = floordiv
tm._MK['mod'] = mod


def bitop(op, x, y):
    if isbool(x) and isbool(y):
        if op == 'bitand':
            return andt(x, y)
        if op == 'bitor':
            return ort(x, y)
        return ort(andt(x, nott(y)), andt(nott(x), y))
    if op == 'bitand' and y is ONE:
        return mod(x, num(2))
    if op == 'bitand' and x is ONE:
        return mod(y, num(2))
    return T(op, *sorted([x, y]))


def mkstr(parts):
    out = []
    for p in parts:
        if p.op == 'fstr':
            out += list(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if res and res[-1].op == 'str' and p.op == 'str':
            res[-1] = STR(res[-1].args[0] + p.args[0])
        elif p.op == 'str' and p.args[0] == '':
            continue
        else:
            res.append(p)
    if not res:
        return STR('')
    if len(res) == 1 and res[0].op == 'str':
        return res[0]
    return T('fstr', *res)


_BUILTINS = set('''len range zip enumerate list tuple set dict sorted reversed map filter sum min max any all abs int float bool str
repr isinstance print next iter round hasattr getattr setattr property classmethod staticmethod Exception ValueError IndexError
KeyError TypeError AssertionError StopIteration RuntimeError ArithmeticError ZeroDivisionError BaseException NotImplementedError
AttributeError ImportError OSError LookupError OverflowError ModuleNotFoundError FileNotFoundError Warning DeprecationWarning
type id hash super object divmod pow open chr ord bytes frozenset bytearray slice input vars dir callable format
SystemExit KeyboardInterrupt GeneratorExit exit quit globals locals exec eval compile __import__ issubclass bin hex
NotImplemented oct Ellipsis memoryview complex StopAsyncIteration NameError RecursionError MemoryError'''.split())
