#!/opt/venv/bin/python
"""run.py <ID> [--replay FILE] [--seed N] [--tier quick|thorough]   (cwd: anywhere)

Runs one property's monitors against the working tree in /repo.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def environment(scratch, hashseed):
    env = dict(os.environ)
    env.update(PYTHONPATH=os.pathsep.join([os.path.join(REPO, 'src'), VERIF]),
               PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
               PYTHONHASHSEED=str(hashseed), PYTHONWARNINGS='ignore',
               TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg', TF_ENABLE_ONEDNN_OPTS='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1',
               JOBLIB_TEMP_FOLDER=scratch, TMPDIR=scratch, VERIF_REPO=REPO)
    return env


def shard_main(argv):
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    mod, seed, tier, shard, n, out = argv
    sys.path[:0] = [os.path.join(REPO, 'src'), VERIF]
    from rtm import core
    import sims_pars
    if not os.path.abspath(sims_pars.__file__).startswith(os.path.join(REPO, 'src') + os.sep):
        print('wrong tree: %s' % sims_pars.__file__)
        sys.exit(4)
    core.run_shard(mod, int(seed), tier, int(shard), int(n), out)


def replay_main(mod, path, scratch):
    r = json.load(open(path))
    if os.environ.get('PYTHONHASHSEED') != str(r['hashseed']) or not os.environ.get('VERIF_REPLAY'):
        env = environment(scratch, r['hashseed'])
        env['VERIF_REPLAY'] = '1'
        return subprocess.call([PY, os.path.abspath(__file__), mod, '--replay', path], env=env)
    sys.path[:0] = [os.path.join(REPO, 'src'), VERIF]
    import importlib
    import logging
    logging.disable(logging.CRITICAL)
    from rtm import core
    m = importlib.import_module('checks.' + mod.lower())
    for name, fn, _, _, opts in core.workload_items(m):
        if name == r['workload']:
            stats = dict(evaluations=0, per_workload={}, counts={}, distinct=set(), samples=[])
            err = core.run_case(m, name, fn, r['seed'], r['tier'], r['index'], stats, opts.get('cpu', 30))
            print(json.dumps(err, indent=1))
            return 1 if err else 0
    return 2


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == '--shard':
        return shard_main(argv[1:])
    pid = argv[0]
    opt = {argv[i][2:]: argv[i + 1] for i in range(1, len(argv) - 1, 2)}
    seed = int(opt.get('seed', os.environ.get('VERIF_SEED', '1')))
    tier = opt.get('tier', os.environ.get('VERIF_TIER', 'quick'))
    scratch = tempfile.mkdtemp(prefix='rtm-')
    try:
        if 'replay' in opt:
            return replay_main(pid, os.path.abspath(opt['replay']), scratch)
        return check(pid, seed, tier, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, seed, tier, scratch):
    t0 = time.time()
    conf = json.load(open(os.path.join(VERIF, 'checks', 'config.json')))
    c = conf.get(pid, {})
    n_shards = c.get('shards', {}).get(tier, 8)
    timeout = 840 if tier == 'quick' else 1500
    procs = []
    for k in range(n_shards):
        out = os.path.join(scratch, 'out%d.json' % k)
        # the library iterates over sets of names: every shard runs under another hash seed
        env = environment(scratch, (seed * 101 + k * 7919) % 4294967295)
        log = open(os.path.join(scratch, 'log%d' % k), 'w')
        procs.append((subprocess.Popen([PY, os.path.abspath(__file__), '--shard', pid.lower(), str(seed), tier,
                                        str(k), str(n_shards), out], env=env, cwd=scratch, stdout=log,
                                       stderr=subprocess.STDOUT), out, log.name))
    stats = dict(evaluations=0, per_workload={}, counts={}, samples=[], planned=0, done=0)
    distinct, violations, problems = set(), [], []
    rule, floor, assumptions = '', {}, []
    for p, out, log in procs:
        try:
            rc = p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            problems.append('watchdog')
            continue
        if rc != 0 or not os.path.exists(out):
            tail = open(log, errors='replace').read()[-1500:]
            problems.append('shard failed (%s): %s' % (rc, tail))
            continue
        r = json.load(open(out))
        s = r['stats']
        for k in ('evaluations', 'planned', 'done'):
            stats[k] += s.get(k, 0)
        for k in ('per_workload', 'counts'):
            for a, b in s[k].items():
                stats[k][a] = stats[k].get(a, 0) + b
        stats['samples'] += s['samples']
        distinct.update(s['distinct'])
        violations += r['violations']
        rule, floor, assumptions = r['rule'], r['floor'], r['assumptions']
        if r['inconclusive']:
            problems.append(r['inconclusive'])

    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    known = {f['key']: f for f in known if f['property'] == pid}
    listed = [v for v in violations if v.get('finding') in known]
    fresh = [v for v in violations if v.get('finding') not in known]

    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats['evaluations'],
            'distinct_nontrivial': len(distinct),
            'rule': rule,
            'samples': stats['samples'][:6],
            'cases_per_workload': stats['per_workload'],
            'observed': stats['counts'],
            'planned_cases': stats['planned'],
            'hash_seeds': n_shards,
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k in sorted({v['finding'] for v in listed}):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    if fresh:
        fresh.sort(key=lambda v: (v['workload'], v['index']))
        v = fresh[0]
        path = os.path.join(VERIF, 'evidence', 'replays', '%s-%s-%s-%d.json' % (pid, v['workload'], seed, v['index']))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s: %s' % (v['workload'], v['message']))
        print(json.dumps(v['witness'])[:2000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problems:
        print('INCONCLUSIVE property=%s %s' % (pid, problems[0]))
        return 3
    for name in stats['per_workload']:
        floor.setdefault(name, 1)
    for name, n in floor.items():
        seen = (sum(1 for d in distinct if d.startswith(name + ':')) if name in stats['per_workload']
                else stats['counts'].get(name, 0))
        if seen < n:
            print('INCONCLUSIVE property=%s the monitor of %s observed too little' % (pid, name))
            return 3
    if not stats['per_workload']:
        print('INCONCLUSIVE property=%s nothing ran' % pid)
        return 3
    print('HELD property=%s cases=%d distinct=%d expectations=%d wall=%.1fs' % (
        pid, stats['evaluations'], len(distinct), stats['counts'].get('expectations', 0), ev['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
