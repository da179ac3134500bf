"""Which rules decide which property.  Each entry is a list of (name, thunk(rep, ctx, tier))."""
from .steps import STEPS, FORK
from . import rules_steps as rs
from . import rules_elim as rl
from . import rules_search as rse
from . import rules_build as rb
from . import rules_pack as rp
from . import rules_effect as re_
from . import rules_io as ri
from . import rules_views as rv


def preserve(*names):
    return [('preserve ' + n, lambda rep, ctx, tier, n=n: rs.preserve(rep, ctx, n, tier)) for n in names]


def residual(*names):
    return [('residual ' + n, lambda rep, ctx, tier, n=n: rs.residual(rep, ctx, n, tier)) for n in names]


def r(f, *a, **kw):
    label = f.__name__ + ''.join(' ' + str(x) for x in a) + ''.join(' %s=%s' % i for i in kw.items())
    return [(label, lambda rep, ctx, tier: f(rep, ctx, tier, *a, **kw))]


def infeasible(names):
    return [('infeasible', lambda rep, ctx, tier: rs.infeasible(rep, ctx, names, tier))]


def unsat(*names):
    return [('unsat ' + ' '.join(names), lambda rep, ctx, tier: rs.unsat(rep, ctx, names, tier))]


ASSIGN = ('zero_in_b', 'only_1_element_in_row')

# what the composition arguments of C29 to C31 have in common
EXACT = residual(*ASSIGN) + preserve('reduce_col', 'eliminate') + r(rl.elim) + r(rs.merge) + r(rb.expand) + r(rp.width) + r(rp.roundtrip)
SEARCH = r(rse.extension, ('explore', 'square')) + r(rse.worklist) + r(re_.branches) + r(re_.copies)

RULES = {
    'C01': r(ri.catalogue_rules, ('valid',)),
    'C02': r(ri.catalogue_rules, ('distinct',)),
    'C03': r(ri.catalogue_rules, ('naming',)) + r(ri.lookup),
    'C04': r(ri.imports) + r(ri.names) + r(ri.solve_cli, ('dispatch',)) + r(ri.database_cli, ('dispatch',)),
    'C05': r(ri.solve_cli, ('valid',)) + r(ri.database_cli, ('valid',)) + r(rb.assertion),
    'C06': r(ri.solve_cli, ('output', 'whole')) + r(rb.sorting) + r(rb.comparator),
    'C07': r(rb.seed),
    'C08': r(rb.row_system) + r(rp.width, ('from_matrix',)),
    'C09': r(rb.append_row) + r(rb.solved) + r(rse.extension, ('square',)),
    'C10': preserve(*ASSIGN) + residual(*ASSIGN) + r(rs.fork, ('account',)),
    'C11': r(rs.merge) + preserve('reduce_col') + r(rb.expand) + r(rp.width, ('reduce_col', 'binarize')) + r(rp.roundtrip),
    'C12': preserve('eliminate') + r(rl.elim) + r(rp.width, ('eliminate',)) + r(rp.roundtrip),
    'C13': r(rp.width) + r(rp.roundtrip) + r(rs.merge),
    'C14': preserve(*STEPS) + r(rl.elim) + r(rb.row_system, which=('prune',)) + infeasible(STEPS) + unsat(*STEPS) + r(rs.fork, ('lost',)) +
           r(rse.worklist, lost=True) + r(rse.extension, ('lost',)),
    'C15': r(rs.fork, ('cover',)) + r(rse.extension, ('explore',)) + r(rse.worklist),
    'C16': r(re_.branches) + r(re_.copies),
    'C17': r(re_.intact),
    'C18': r(re_.handlers) + unsat(*STEPS, FORK) + r(rb.row_system, which=('reach',)) + r(rse.worklist) + r(rse.extension, ('explore',)),
    'C19': r(rl.elim, progress='progress') + r(rs.ends) + r(rs.fork, ('account',)) + r(re_.equality, which=('same',)) + r(rse.worklist) +
           r(rse.extension, ('explore', 'square')) + r(rb.append_row) + r(rb.maximize),
    'C20': r(rb.maximize) + r(rb.swaps),
    'C21': r(rb.sorting) + r(rb.comparator),
    'C22': r(rb.complement_params) + r(rb.complement_matrix),
    'C23': r(rb.spectrum),
    'C24': r(re_.determinism) + r(re_.module_state),
    'C25': r(ri.drawing) + r(ri.file_effects),
    'C26': r(rb.partitions) + r(rb.unique_rt) + r(rb.elim_sort) + r(rp.width, ('encoders',)),
    'C27': r(ri.packaging),
    'C28': r(re_.equality),
    'C29': r(rb.seed) + r(rb.row_system, which=('eq',)) + r(rb.append_row) + r(rb.solved) + EXACT + infeasible(STEPS) + r(rs.fork, ('cover', 'account')) + SEARCH,
    'C30': r(rb.seed) + r(rb.row_system) + r(rb.append_row) + r(rb.solved) + EXACT + preserve(*STEPS) + r(rs.fork, ('cover',)) + SEARCH + r(re_.handlers),
    'C36': r(rs.fork, ('cover',)) + r(rs.merge) + r(rb.expand) + r(rb.append_row) + r(rb.solved) + SEARCH + r(ri.solve_cli, ('output',)) + r(rb.sorting),
    'C38': r(ri.complements),
    'C39': r(ri.closed),
    'C32': r(rv.constructors),
    'C33': r(rv.views),
    'C34': r(rv.queries),
    'C35': r(rv.tracing),
    'C40': r(rv.texts) + r(rv.printing) + r(rv.composing),
}
# a cache that answers with the result for other arguments breaks what the functions of its module promise
for mods, props in {
    ('database/__init__.py',): ('C03', 'C25'),
    ('__main__.py', 'pprint.py', 'sorter.py'): ('C06',),
    ('sorter.py',): ('C20', 'C21'),
    ('utils.py',): ('C05', 'C22', 'C23', 'C35'),
    ('srg.py',): ('C08', 'C09', 'C28', 'C32', 'C33'),
    ('solver.py',): ('C07', 'C18', 'C19'),
    ('solver.py', 'bounds.py', 'fork.py'): ('C10', 'C14', 'C15', 'C16'),
    ('solver.py', 'unique.py'): ('C11',),
    ('solver.py', 'gauss_elim.py'): ('C12',),
    ('unique.py', 'gauss_elim.py', 'solver.py', 'srg.py'): ('C13',),
    ('partition.py', 'unique.py', 'gauss_elim.py'): ('C26',),
    ('bounds.py', 'fork.py'): ('C34',),
    ('srg.py', 'solver.py', 'bounds.py', 'fork.py', 'unique.py', 'gauss_elim.py'): ('C29', 'C30', 'C36'),
}.items():
    for p_ in props:
        RULES[p_] = RULES[p_] + r(re_.module_state, only=mods)
RULES['C37'] = r(ri.catalogue_rules, ('form', 'distinct', 'valid')) + RULES['C30']
