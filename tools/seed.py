#!/usr/bin/env python3
"""seed.py SPEC.py [NAME...]  - build, validate and try planted bugs (development only; no check reads this).

SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo=python source, needs, breaks, checks=[...])].
For each: scratch copy of /repo, apply, stable tests, demo on both trees, blame of the changed lines, then the check.
"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
BASE = 'a8906e5'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout=900, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, env=dict(ENV, **env))
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    return p.returncode, p.stdout + p.stderr


def original_lines(wt, f):
    rc, out = sh(['git', 'blame', '-l', '-s', f], wt)
    return [l.split()[0].lstrip('^') for l in out.splitlines()]


def one(b, seeds=(1,)):
    d = '/verif/seeded/' + b['id']
    wt = tempfile.mkdtemp(prefix='wt-', dir='/tmp')
    res = dict(id=b['id'])
    try:
        os.rmdir(wt)
        subprocess.check_call(['cp', '-a', '/repo', wt])
        orig = sh(['git', 'rev-parse', BASE], wt)[1].strip()
        os.makedirs(d, exist_ok=True)
        for f in {e[0] for e in b['edits']}:
            blame = original_lines(wt, f)
            text = open(wt + '/' + f).read()
            for g, old, new in b['edits']:
                if g != f:
                    continue
                if text.count(old) != 1:
                    return dict(res, error='edit matches %d times: %r' % (text.count(old), old[:60]))
                text = text.replace(old, new)
            open(wt + '/' + f, 'w').write(text)
        rc, diff = sh(['git', 'diff'], wt)
        open(d + '/patch.diff', 'w').write(diff)
        # removed lines must be original
        bad, tot = 0, 0
        f, ln = None, 0
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
                sh(['git', 'stash'], wt)
                blame = original_lines(wt, f)
                sh(['git', 'stash', 'pop'], wt)
            elif l.startswith('@@'):
                ln = int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                tot += 1
                bad += blame[ln - 1][:7] != orig[:7]
                ln += 1
            elif l.startswith(' '):
                ln += 1
        res['lines'] = '%d/%d original' % (tot - bad, tot)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd at the repository\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TQDM_DISABLE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], wt, PYTHONPATH=wt + '/src')
        last = out.strip().splitlines()[-1] if out.strip() else ''
        res['tests'] = 'ok' if rc == 0 else last
        res['demo_patched'] = sh([d + '/demo.sh'], wt, 300)[0]
        res['demo_clean'], o = sh([d + '/demo.sh'], '/repo', 300)
        if res['demo_clean']:
            res['demo_out'] = o[-400:]
        for c in b.get('checks', [b['prop']]):
            for s in seeds:
                rc, out = sh([PY, '/verif/run.py', c, '--seed', str(s)], '/verif', VERIF_REPO=wt)
                res.setdefault('checks', {})['%s/%d' % (c, s)] = {0: 'MISSED', 1: 'caught', 3: 'inconclusive'}.get(rc, rc)
                if rc:
                    ls = [l for l in out.splitlines() if l.strip()]
                    res['msg'] = ls[0][:160]
        return res
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    names = set(sys.argv[2:])
    bugs = [b for b in m.BUGS if not names or b['id'] in names]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, bugs):
            good = r.get('tests') == 'ok' and r.get('demo_clean') == 0 and r.get('demo_patched') not in (0, None) and r['lines'].split('/')[0] == r['lines'].split('/')[1].split()[0]
            print(('OK  ' if good else 'BAD ') + json.dumps(r), flush=True)


main()
