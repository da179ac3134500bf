#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property from the source under /repo.

Exit 0: held on everything decided.  Exit 1 with a VIOLATION line: a rule reports a construct.
An obligation the analysis cannot decide is recorded as such in the evidence and raises nothing."""
import json
import os
import resource
import sys
import threading
import time
import traceback

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
try:
    import numpy        # the reference semantics of some library operations, see sa/pylib.py
except ImportError:
    if os.path.exists('/opt/veriftools/pyvenv/bin/python') and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv('/opt/veriftools/pyvenv/bin/python', ['/opt/veriftools/pyvenv/bin/python', '-B'] + sys.argv)
    raise

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
LIMIT = {'quick': 600, 'thorough': 840}
KNOWN = os.path.join(HERE, 'known_findings.txt')

EXPLAIN = ('Every function named was summarised by abstract interpretation of its current source: the paths of its control flow, '
           'with loops turned into folds, give value numbers (terms over the symbolic arguments) for every result, written array '
           'and raised exception. An obligation is one rule applied to one construct; it is "proved" when the terms, aliases, call '
           'graph or literals decide it outright, "agree" when the terms were compared with the specification by evaluating both '
           'at the stated number of valuations (the program itself is never run), "undecided" when the analysis could not model '
           'the construct, and "violated" otherwise.')


def known(pid):
    """listed findings of the property: construct -> text"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.rstrip('\n')
                if not line.startswith('KNOWN-FINDING: '):
                    continue
                head, _, text = line[len('KNOWN-FINDING: '):].partition(' :: ')
                p, _, rest = head.partition(' rule=')
                if p.strip() != 'property=' + pid:
                    continue
                rule, _, construct = rest.partition(' construct=')
                out[(rule.strip(), construct.strip())] = text
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMIT:
        tier = 'quick'
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    from sa.core import Ctx, Report, SEED, REPO, AnalysisError, Budget, Missing
    rep = Report(pid, tier)
    done = []
    box = {}

    def run():
        from sa.registry import RULES
        try:
            ctx = Ctx()
        except Exception as e:
            rep.undecided('load', 'srg', '%s: %s' % (type(e).__name__, e))
            return
        box['ctx'] = ctx
        for name, f in RULES[pid]:
            t = time.time()
            try:
                f(rep, ctx, tier)
            except (AnalysisError, Budget, Missing) as e:
                rep.undecided(name, '', '%s: %s' % (type(e).__name__, str(e)[:300]))
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                rep.undecided(name, '', 'analysis stopped: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
            done.append((name, round(time.time() - t, 2)))

    threading.stack_size(512 << 20)
    th = threading.Thread(target=run, daemon=True)
    th.start()
    th.join(LIMIT[tier])
    late = th.is_alive()
    obl = list(rep.obl)
    if late:
        obl.append(('time', '', 'undecided', 'the time limit of %d s was reached' % LIMIT[tier]))
    listed = known(pid)
    viol, found = [], []
    for v in list(rep.viol):
        (found if (v['rule'], v['construct']) in listed else viol).append(v)
    by = {}
    for o in obl:
        by[o[2]] = by.get(o[2], 0) + 1
    ev = os.environ.get('VERIF_OUT') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cover = dict(
        explanation=EXPLAIN,
        tree=REPO,
        rules_applied=[n for n, _ in done],
        functions=sorted(rep.functions),
        functions_analysed=len(rep.functions),
        obligations=len(obl),
        discharged=by.get('proved', 0) + by.get('agree', 0),
        obligation_list=[dict(rule=a, construct=str(b), verdict=c, detail=str(d)[:400]) for a, b, c, d in obl],
        verdicts=by,
        measured=dict(rep.counts),
        seconds_per_rule=dict(done),
    )
    out = dict(property=pid, tier=tier, seed=SEED, level='other', coverage=cover,
               assumptions=['the Python semantics and the models of numpy, collections, heapq, itertools and functools in sa/ are faithful'],
               wall_s=round(time.time() - t0, 2), violations=len(viol))
    path = os.path.join(ev, pid + '.json')
    with open(path, 'w') as f:
        json.dump(out, f, indent=1)
    vp = os.path.join(ev, pid + '.violation.json')
    if os.path.exists(vp):
        os.remove(vp)
    for a, b, c, d in obl:
        print('%-9s %s | %s | %s' % (c, a, b, str(d)[:200]))
    for v in found:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['construct'], v['detail'][:300]))
    if viol:
        with open(vp, 'w') as f:
            json.dump(dict(property=pid, tree=REPO, command='./check.py %s %s' % (pid, tier), violations=viol), f, indent=1)
        for v in viol:
            print('  rule %s at %s: %s' % (v['rule'], v['construct'], v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, vp))
    sys.stdout.flush()
    os._exit(1 if viol else 0)


main()
