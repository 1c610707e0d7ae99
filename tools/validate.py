#!/usr/bin/env python3
"""validate.py [ID...]  - do the planted bugs still apply, and do their demonstrations still tell them apart? (development only)"""
import os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded/'
def one(i):
    wt = tempfile.mkdtemp(prefix='wt-', dir='/tmp'); os.rmdir(wt)
    try:
        subprocess.check_call(['cp', '-a', '/repo', wt])
        run = lambda: subprocess.run([S + i + '/demo.sh'], cwd=wt, capture_output=True, text=True, timeout=300).returncode
        clean = run()
        p = subprocess.run(['git', 'apply', S + i + '/patch.diff'], cwd=wt, capture_output=True, text=True)
        if p.returncode:
            return i, 'does not apply'
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=wt,
                           capture_output=True, env=dict(os.environ, PYTHONPATH=wt + '/src', PYTHONDONTWRITEBYTECODE='1')).returncode
        bad = run()
        return i, 'ok' if clean == 0 and bad and t == 0 else 'clean %s patched %s tests %s' % (clean, bad, t)
    except subprocess.TimeoutExpired:
        return i, 'timeout'
    finally:
        subprocess.run(['rm', '-rf', wt])
with ThreadPoolExecutor(6) as ex:
    for i, v in ex.map(one, sys.argv[1:] or sorted(os.listdir(S))):
        if v != 'ok':
            print(i, v, flush=True)
