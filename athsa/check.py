"""Check driver: runs the rule set of one property over the current /repo tree.

exit 0: every decided obligation holds (undecided ones are listed in the
evidence); exit 1 + VIOLATION line: a specific construct breaks the rule;
exit 2: the analysis itself could not run (vanished anchor, parse error).
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.environ.get('ATHSA_EVIDENCE') or VERIF + '/evidence'
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from athsa.front import AnalysisError  # noqa: E402
from athsa import sym  # noqa: E402


class Rec:
    """results of one task"""

    def __init__(self, task=''):
        self.task = task
        self.n = {}
        self.viol = []
        self.undec = []
        self.functions = set()
        self.samples = []
        self.stats = {}
        self.err = None

    def ok(self, rule, what=None):
        self.n[rule] = self.n.get(rule, 0) + 1
        if what and len(self.samples) < 3:
            self.samples.append(rule + ': ' + what)

    def bad(self, rule, where, msg, key=None):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.viol.append((rule, where, msg[:1500], key or rule + '|' + where.split(':')[0]))

    def undecided(self, rule, where, msg):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.undec.append((rule, where, msg[:600]))

    def expect(self, cond, rule, where, msg, key=None):
        if cond:
            self.ok(rule, where + ' ' + msg[:160] if msg else where)
        else:
            self.bad(rule, where, msg, key)

    def fn(self, *names):
        self.functions.update(names)

    def add_stats(self, it):
        for k, v in it.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v


STRICT = os.environ.get('ATHSA_STRICT')      # development: any lost instance is an error
OPAQUE_KINDS = {'unk', 'lout', 'call', 'out', 'wild', 'in'}


def has_opaque(x, seen=None):
    """does a value depend on something the analysis could not resolve?"""
    if seen is None:
        seen = set()
    if isinstance(x, sym.Poly):
        return any(has_opaque(a, seen) for a in x.atoms())
    if isinstance(x, sym.Atom):
        if x.id in seen:
            return False
        seen.add(x.id)
        if x.kind in OPAQUE_KINDS:
            return True
        if x.kind == 'ld' and len(x.args) > 1 and x.args[1] != 0:
            return True
        return any(has_opaque(a, seen) for a in x.args)
    if isinstance(x, (tuple, frozenset)):
        return any(has_opaque(a, seen) for a in x)
    return False


def compare(rec, rule, where, got, want, desc, key=None, assume=None):
    """obligation got == want, three-valued"""
    r = sym.equal_values(got, want, assume)
    if r:
        rec.ok(rule, where + ' ' + desc)
        return True
    if r is None or has_opaque(got):
        rec.undecided(rule, where, '%s: computed %s, required %s' % (desc, sym.show(got)[:300], sym.show(want)[:300]))
        return None
    rec.bad(rule, where, '%s: computed %s, required %s' % (desc, sym.show(got), sym.show(want)), key)
    return False


def _run_task(a):
    mod, name, args = a
    rec = Rec(name)
    t = time.time()

    def late(*_):
        raise AnalysisError('time limit')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('ATHSA_TASK_S', '400')))
    try:
        m = importlib.import_module('athsa.checks.' + mod)
        getattr(m, args[0])(rec, *args[1:])
    except AnalysisError as e:
        rec.err = 'analysis: ' + str(e)
    except RecursionError as e:
        rec.err = 'recursion: ' + str(e)
    except MemoryError:
        rec.err = 'memory limit'
    except Exception:
        rec.err = 'internal: ' + traceback.format_exc()[-1500:]
    signal.alarm(0)
    rec.wall = time.time() - t
    return rec


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3600 << 20, 3600 << 20))


def load_known(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=' + prop + ' '):
                rest = line[len('known: property=' + prop + ' '):]
                key, _, desc = rest.partition(' :: ')
                out.append((key.strip(), desc.strip()))
    return out


def main(argv):
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    only = None
    for a in argv[1:]:
        if a.startswith('--task='):
            only = a[7:]
    t0 = time.time()
    from athsa.checks import REGISTRY
    modname = REGISTRY[prop]
    mod = importlib.import_module('athsa.checks.' + modname)
    tasks = mod.tasks(tier)
    work = [(modname, n, args) for n, args in tasks if only is None or only in n]
    if os.environ.get('ATHSA_SERIAL'):
        recs = [_run_task(w) for w in work]
    else:
        with mp.Pool(min(8, max(1, len(work))), _limits, maxtasksperchild=6) as pool:
            recs = pool.map(_run_task, work, chunksize=1)
    counts, undec, viol, fns, samples, stats, errs = {}, [], [], set(), [], {}, []
    for r in recs:
        for k, v in r.n.items():
            counts[k] = counts.get(k, 0) + v
        viol += [(r.task,) + v for v in r.viol]
        undec += [(r.task,) + v for v in r.undec]
        fns |= r.functions
        samples += r.samples[:2]
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
        if r.err:
            errs.append((r.task, r.err))
    floors = mod.FLOORS if hasattr(mod, 'FLOORS') else {}
    floors = floors.get(tier, floors) if tier in floors else floors
    low = []
    if only is None:
        for k, v in floors.items():
            if counts.get(k, 0) < v:
                low.append('%s: %d obligations, expected at least %d' % (k, counts.get(k, 0), v))
    known = load_known(prop)
    fresh, hit = [], {}
    for v in viol:
        for key, desc in known:
            if key == v[4]:
                hit[key] = desc
                break
        else:
            fresh.append(v)
    total = sum(counts.values())
    wall = time.time() - t0
    evd = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': mod.RULE,
            'obligations': total,
            'discharged': total - len(viol) - len(undec),
            'undecided': len(undec),
            'obligations_per_rule': counts,
            'undecided_list': ['%s %s %s %s' % u for u in undec[:40]],
            'not_analysed': ['%s: %s' % e for e in errs[:20]],
            'tasks': [r.task for r in recs][:200],
            'functions_analysed': sorted(fns),
            'engine_counts': stats,
            'samples': samples[:12],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(fresh),
        'wall_s': round(wall, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    if only is None:
        json.dump(evd, open(EVID + '/%s.json' % prop, 'w'), indent=1)
    for key, desc in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, desc, key))
    print('%s [%s]: %d tasks, %d obligations, %d undecided, %d violations, %d functions, %.1fs' % (
        prop, tier, len(recs), total, len(undec), len(fresh), len(fns), wall))
    if '-v' in argv:
        for u in undec[:int(os.environ.get('NU', '6'))]:
            print('  UNDECIDED', *[x[:int(os.environ.get('WU', '250'))] for x in u])
        print('  ', counts)
        sl = sorted(recs, key=lambda r: -r.wall)[:5]
        print('  slow:', [(r.task, round(r.wall, 1)) for r in sl])
    if fresh:
        rp = EVID + '/%s.violation.txt' % prop
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('task=%s\nrule=%s\nat=%s\n%s\nkey=%s\n\n' % v)
        seen = set()
        for v in fresh:
            k = (v[1], v[2])
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > (int(os.environ.get('NV', '12')) if '-v' in argv else 8):
                break
            print('  rule %s at %s [%s]\n    %s' % (v[1], v[2], v[0], v[3][:700]))
            if '-k' in argv:
                print('    key=' + v[4])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for t, e in errs[:10]:
        print('NOT-ANALYSED task=%s %s' % (t, e))
    for l in low:
        print('ANALYSIS-ERROR vanished instances: ' + l)
    # a task that could not be analysed is reported and recorded as undecided; the check gives
    # no answer at all only when it lost most of its tasks or all instances of a rule family
    if len(errs) * 2 > len(recs) or (low and only is None and (STRICT or len(low) * 2 > len(floors))):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
