"""Common runner of all checks.

A check module defines

    ID, TITLE, RULE, TECH                     -- strings
    BUDGET = {'quick': n, 'thorough': m}      -- number of cases (logical, not wall-clock)
    def case(mon, rng, index, tier): ...      -- drives the real code once and judges it

Every case is derived from (VERIF_SEED, ID, index) only, so that a replay file
holding the three is enough to run it again.  Cases are sharded over forked
workers; every worker returns its counters, they are merged and written down as
the evidence of this run.
"""
import sys
import os
import json
import time
import random
import signal
import hashlib
import traceback
import importlib
import multiprocessing
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_CPU_S = 40      # CPU seconds (not wall clock) one case may burn; they take milliseconds
MAX_VIOLATIONS = 5


class Violation(Exception):
    def __init__(self, msg, **data):
        super(Violation, self).__init__(msg)
        self.msg = msg
        self.data = data


class KnownFinding(Exception):
    """ raised by a check when what it sees is exactly a listed finding """

    def __init__(self, key, msg):
        super(KnownFinding, self).__init__(msg)
        self.key = key


class CpuBudget(BaseException):
    pass


def _on_vtalrm(_sig, _frame):
    raise CpuBudget()


class Monitor(object):
    """ what the checks report to """

    def __init__(self, prop):
        self.prop = prop
        self.counts = Counter()
        self.distinct = set()
        self.samples = []
        self.known = Counter()
        self.context = None

    def count(self, name, n=1):
        self.counts[name] += n

    def shape(self, obj):
        """ register one non-trivial case by its shape """
        raw = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True, default=repr)
        self.distinct.add(hashlib.md5(raw.encode('utf-8', 'surrogatepass')).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            text = json.dumps(obj, sort_keys=True, default=repr)
            self.samples.append(obj if len(text) < 3000 else text[:3000] + '...')

    def check(self, cond, msg, **data):
        self.counts['oracle_decisions'] += 1
        if not cond:
            raise Violation(msg, **data)

    def equal(self, got, expected, msg, **data):
        self.counts['oracle_decisions'] += 1
        if not same(got, expected):
            raise Violation(msg, got=got, expected=expected, diff=first_diff(got, expected), **data)

    def fail(self, msg, **data):
        raise Violation(msg, **data)

    def known_finding(self, key):
        self.known[key] += 1


def same(a, b):
    """ strict equality of JSON-like values: 1, 1.0 and True are all different """
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return type(a) is type(b) and (a == b or (a != a and b != b))


def first_diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '%s/%s only in expected: %.200r' % (path, k, b[k])
            if k not in b:
                return '%s/%s only in result: %.200r' % (path, k, a[k])
            d = first_diff(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d, expected %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, '%s/%d' % (path, i))
            if d:
                return d
        return None
    return None if same(a, b) else '%s: %.200r, expected %.200r' % (path, a, b)


def case_rng(seed, prop, index):
    return random.Random('%s/%s/%s' % (seed, prop, index))


def load_known():
    """ KNOWN_FINDINGS.json: {"findings": [{property, key, what}], "fixed": [...]} """
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return {'findings': [], 'fixed': []}
    with open(path) as fh:
        return json.load(fh)


def repo_frames(exc):
    out = []
    for f in traceback.extract_tb(exc.__traceback__):
        out.append('%s:%s %s' % (f.filename.replace(REPO + '/', ''), f.lineno, f.name))
    return out[-6:]


def run_case(mod, mon, seed, index, tier):
    """ returns None or a violation dict """
    rng = case_rng(seed, mod.ID, index)
    mon.context = None
    mon.counts['cases'] += 1
    signal.signal(signal.SIGVTALRM, _on_vtalrm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CPU_S', CASE_CPU_S))
    try:
        mod.case(mon, rng, index, tier)
    except KnownFinding as e:
        mon.known_finding(e.key)
    except Violation as e:
        return dict(msg=e.msg, data=e.data, context=mon.context, index=index)
    except CpuBudget:
        return dict(msg='a case that takes milliseconds burnt %ss of CPU without an answer' % getattr(
            mod, 'CPU_S', CASE_CPU_S), data={}, context=mon.context, index=index, endless=True)
    except Exception as e:  # pylint: disable=broad-except
        # the workloads are valid inputs: nothing is supposed to raise here
        return dict(msg='unexpected %s: %s' % (type(e).__name__, str(e)[:500]),
                    data={'frames': repo_frames(e)}, context=mon.context, index=index)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


def _worker(modname, seed, tier, indices, queue, deadline):
    mod = importlib.import_module(modname)
    mon = Monitor(mod.ID)
    violations = []
    if hasattr(mod, 'setup_worker'):
        mod.setup_worker(mon, seed, tier)
    for i in indices:
        if time.time() > deadline:
            mon.counts['skipped_by_time_cap'] += 1
            continue
        v = run_case(mod, mon, seed, i, tier)
        if v:
            violations.append(v)
            if v.get('endless') or len(violations) >= MAX_VIOLATIONS:
                break
    if hasattr(mod, 'teardown_worker'):
        mod.teardown_worker()
    queue.put(json.dumps(dict(counts=dict(mon.counts), distinct=sorted(mon.distinct), samples=mon.samples,
                              known=dict(mon.known), violations=violations), default=repr))


def _jobs():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def run(modname, argv=None):
    argv = argv or []
    t0 = time.time()
    sys.setrecursionlimit(3000)
    mod = importlib.import_module(modname)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    if argv and argv[0] == '--replay':
        with open(argv[1]) as fh:
            rep = json.load(fh)
        mon = Monitor(mod.ID)
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker(mon, rep['seed'], rep['tier'])
        v = run_case(mod, mon, rep['seed'], rep['index'], rep['tier'])
        print(json.dumps(v, indent=1, default=repr) if v else 'no violation on replay')
        return 1 if v else 0

    budget = mod.BUDGET[tier]
    cap = float(os.environ.get('VERIF_CAP_S', '600' if tier == 'quick' else '5400'))
    deadline = t0 + cap
    jobs = _jobs()
    ctx = multiprocessing.get_context('fork')
    queue = ctx.Queue()
    procs = []
    for j in range(jobs):
        p = ctx.Process(target=_worker, args=(modname, seed, tier, range(j, budget, jobs), queue, deadline))
        p.start()
        procs.append(p)
    merged = Monitor(mod.ID)
    violations, got = [], 0
    while got < jobs:
        try:
            res = json.loads(queue.get(timeout=2))
        except Exception:  # pylint: disable=broad-except
            if not any(p.is_alive() for p in procs) and queue.empty():
                break
            continue
        got += 1
        merged.counts.update(res['counts'])
        merged.distinct.update(res['distinct'])
        merged.samples.extend(res['samples'])
        merged.known.update(res['known'])
        violations.extend(res['violations'])
    for p in procs:
        p.join()
    if got < jobs:
        violations.append(dict(msg='a worker died without an answer (exit codes %s)' % [p.exitcode for p in procs],
                               data={}, context=None, index=-1))
    violations.sort(key=lambda v: v['index'])

    counts = dict(merged.counts)
    need = getattr(mod, 'NEED', {})
    starved = {} if violations else {k: counts.get(k, 0) for k, n in need.items() if counts.get(k, 0) < n}

    evidence = dict(
        property=mod.ID, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=counts.get('cases', 0), distinct_nontrivial=len(merged.distinct),
                      rule=mod.RULE, samples=merged.samples[:3],
                      observed={k: counts[k] for k in sorted(counts)}, workers=jobs),
        assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=repr)

    for f in load_known()['findings']:
        if f['property'] == mod.ID:
            if merged.known.get(f['key']):
                print('KNOWN-FINDING: property=%s %s' % (mod.ID, f['what']))
            merged.known.pop(f['key'], None)
    for key in merged.known:
        violations.append(dict(msg='finding %s is not listed' % key, data={}, context=None, index=-1))

    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for v in violations[:MAX_VIOLATIONS]:
            path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (mod.ID, seed, v['index']))
            with open(path, 'w') as fh:
                json.dump(dict(check=mod.ID, seed=seed, tier=tier, index=v['index'], message=v['msg'],
                               data=v['data'], context=v['context']), fh, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (mod.ID, path))
            print('  %s' % v['msg'][:600])
            if v['data'].get('diff'):
                print('  at %s' % v['data']['diff'])
            elif v['data']:
                print('  %s' % json.dumps(v['data'], default=repr)[:600])
        return 1
    if starved:
        print('INCONCLUSIVE property=%s: monitors were not reached: %s' % (mod.ID, starved))
        return 2
    print('OK property=%s tier=%s seed=%s cases=%d distinct=%d decisions=%d %.1fs' % (
        mod.ID, tier, seed, counts.get('cases', 0), len(merged.distinct), counts.get('oracle_decisions', 0),
        time.time() - t0))
    return 0
