#!/usr/bin/env python3
"""tryseed.py ID[:CHECK] ... [--seeds 1,2]  - run checks against planted bugs in scratch copies (development only)."""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
seeds = [1]
if '--seeds' in args:
    i = args.index('--seeds'); seeds = [int(x) for x in args[i + 1].split(',')]; del args[i:i + 2]
if not args:
    args = sorted(os.listdir('/verif/seeded'))
def one(a):
    i, _, c = a.partition(':')
    c = c or json.load(open('/verif/seeded/%s/meta.json' % i))['property']
    wt = tempfile.mkdtemp(prefix='wt-', dir='/tmp'); os.rmdir(wt)
    try:
        subprocess.check_call(['cp', '-a', '/repo', wt])
        p = subprocess.run(['git', 'apply', '/verif/seeded/%s/patch.diff' % i], cwd=wt, capture_output=True, text=True)
        if p.returncode:
            return i, c, 'does not apply: ' + p.stderr[:200]
        out = []
        for s in seeds:
            p = subprocess.run(['/opt/venv/bin/python', '/verif/run.py', c, '--seed', str(s)], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wt))
            out.append({0: 'MISSED', 1: 'caught', 3: 'INCONCLUSIVE'}.get(p.returncode, p.returncode))
            if p.returncode not in (0,1): out.append(p.stdout[-300:])
        return i, c, out
    finally:
        subprocess.run(['rm', '-rf', wt])
with ThreadPoolExecutor(2) as ex:
    for x in ex.map(one, args):
        print(*x, flush=True)
