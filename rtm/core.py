"""Runtime-monitoring harness: case execution, monitors' verdicts, evidence, replays.

A check module defines ID, RULE and WORKLOADS.  A workload is a function f(ctx) that
drives the real library (imported from /repo/src) on one generated case and feeds what
it observes to ctx.expect(...).  The verdict is three-valued:
  violation     an expectation failed, or the library raised/looped on a valid case
  held          every executed case was observed and agreed with its oracle
  inconclusive  a monitor was not reached often enough, or a watchdog fired
"""
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, witness=None, finding=None):
        Exception.__init__(self, msg)
        self.msg, self.witness, self.finding = msg, witness or {}, finding


class Inconclusive(Exception):
    pass


class CpuBudget(BaseException):
    """the case used far more CPU time than any healthy run of it (non-termination)"""


class StepBudget(BaseException):
    """a logical step bound was exceeded (non-termination)"""


def stable_seed(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def plain(x, depth=0):
    """anything -> json-able, short"""
    import numpy as np
    if depth > 6:
        return str(x)[:80]
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        xs = sorted(x, key=str) if isinstance(x, (set, frozenset)) else x
        return [plain(v, depth + 1) for v in list(xs)[:60]]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if x == x and abs(x) != float('inf') else str(x)
    return str(x)[:300]


class Ctx:
    def __init__(self, mod, workload, seed, tier, index, stats):
        self.mod, self.workload, self.seed, self.tier, self.index = mod, workload, seed, tier, index
        s = stable_seed(seed, mod.ID, workload, index)
        self.case_seed = s
        self.rng = random.Random(s)
        self.stats = stats
        self.case_desc = {}
        import numpy as np
        np.random.seed(s % (2 ** 32))
        random.seed(s)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- what the monitors saw
    def count(self, name, n=1):
        self.stats['counts'][name] = self.stats['counts'].get(name, 0) + n

    def nontrivial(self, key):
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        self.stats['distinct'].add(self.workload + ':' + h)

    def describe(self, **kw):
        self.case_desc.update(kw)

    # -- verdicts
    def expect(self, cond, msg, finding=None, **witness):
        self.count('expectations')
        if not cond:
            raise Violation(msg, witness, finding)

    def fail(self, msg, finding=None, **witness):
        raise Violation(msg, witness, finding)

    def raises(self, excs, fn, msg, **witness):
        """fn must raise one of excs"""
        self.count('expectations')
        try:
            r = fn()
        except excs as e:
            return e
        raise Violation(msg, dict(witness, returned=plain(r)))

    def close(self, a, b, msg, tol=1e-9, **witness):
        self.count('expectations')
        if not same(a, b, tol):
            raise Violation(msg, dict(witness, got=plain(a), expected=plain(b)))


def same(a, b, tol=1e-9):
    import numpy as np
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return a == b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if a == b:
        return True
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


ENVIRONMENTAL = ('TerminatedWorkerError', 'BrokenProcessPool', 'MemoryError', 'PermissionError', 'TimeoutError',
                 'BlockingIOError')


def environmental(e):
    """failures of the sandbox, not of the code (what cannot be handed to or back from a worker is the code's)"""
    return type(e).__name__ in ENVIRONMENTAL and 'serialize' not in str(e)


def run_case(mod, name, fn, seed, tier, index, stats, cpu):
    """-> None (held) or dict (violation)"""
    ctx = Ctx(mod, name, seed, tier, index, stats)

    def on_alarm(*_):
        raise CpuBudget()

    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    err = None
    try:
        fn(ctx)
    except Violation as v:
        err = dict(kind='expectation', message=v.msg, witness=plain(v.witness), finding=v.finding)
    except Inconclusive:
        raise
    except StepBudget as e:
        err = dict(kind='non-termination', message='step bound exceeded: %s' % e, witness={}, finding=None)
    except CpuBudget:
        err = dict(kind='non-termination', message='no result after %ss of CPU time' % cpu,
                   witness={'stack': traceback.format_exc(limit=-6)}, finding=None)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if environmental(e):
            raise Inconclusive('%s: %s' % (type(e).__name__, e))
        err = dict(kind='exception', message='%s: %s' % (type(e).__name__, str(e)[:300]),
                   witness={'traceback': traceback.format_exc(limit=-8)}, finding=None)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    stats['evaluations'] += 1
    stats['per_workload'][name] = stats['per_workload'].get(name, 0) + 1
    if len(stats['samples']) < 3 or (index % 97 == 0 and len(stats['samples']) < 6):
        if ctx.case_desc:
            stats['samples'].append({'workload': name, 'index': index, **plain(ctx.case_desc)})
    if err:
        err.update(property=mod.ID, workload=name, index=index, seed=seed, tier=tier,
                   hashseed=os.environ.get('PYTHONHASHSEED'), case=plain(ctx.case_desc))
    return err


def workload_items(mod):
    for w in mod.WORKLOADS:
        name, fn, nq, nt = w[:4]
        opts = w[4] if len(w) > 4 else {}
        yield name, fn, nq, nt, opts


def run_shard(mod_name, seed, tier, shard, n_shards, out):
    t0 = time.time()
    mod = importlib.import_module('checks.' + mod_name)
    stats = dict(evaluations=0, per_workload={}, counts={}, distinct=set(), samples=[])
    violations, inconclusive = [], None
    limit = getattr(mod, 'TIME', (150, 780))[0 if tier == 'quick' else 1]
    try:
        plan = []
        for name, fn, nq, nt, opts in workload_items(mod):
            n = nq if tier == 'quick' else nt
            plan.append([name, fn, list(range(shard, n, n_shards)), opts])
        total = sum(len(p[2]) for p in plan)
        # interleave the workloads, so that a time limit cuts all of them evenly
        queue = []
        for name, fn, idx, opts in plan:
            for j, i in enumerate(idx):
                queue.append(((j + 0.5) / max(len(idx), 1), name, i, fn, opts))
        queue.sort(key=lambda q: (q[0], q[1]))
        done = 0
        for _, name, i, fn, opts in queue:
            if time.time() - t0 > limit:
                break
            err = run_case(mod, name, fn, seed, tier, i, stats, opts.get('cpu', 30))
            done += 1
            if err:
                violations.append(err)
                if len([v for v in violations if not v.get('finding')]) >= 2 or len(violations) > 20:
                    break
        stats['planned'] = total
        stats['done'] = done
    except Inconclusive as e:
        inconclusive = str(e)
    stats['distinct'] = sorted(stats['distinct'])
    with open(out, 'w') as f:
        json.dump(dict(stats=stats, violations=violations, inconclusive=inconclusive, wall=time.time() - t0,
                       rule=mod.RULE, floor=getattr(mod, 'FLOOR', {}), assumptions=getattr(mod, 'ASSUMPTIONS', [])), f)
