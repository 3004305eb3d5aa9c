"""Development tool: verify planted bugs.  usage: seeded.py [ID ...] [--check]   (default: all)

Per bug, in a scratch copy of /repo: patch applies, changes lines of the original repository only, the stable tests
pass, demo.sh exits 0 without and non-zero with the patch; with --check, the property's check reports it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f'{V}/seeded'
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='2', MKL_NUM_THREADS='2', PYTHONNOUSERSITE='1',
             PYTHONHASHSEED='0')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def original(diff):
    """Every removed line existed in the first commit of /repo."""
    f, bad = None, []
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
            base = subprocess.run(['git', '-C', '/repo', 'show', f'{ROOT}:{f}'], capture_output=True, text=True).stdout.split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base:
            bad.append(l[1:].strip())
    return bad


ROOT = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()


def one(bug, check, tests):
    d = tempfile.mkdtemp(prefix='seeded-')
    res = {}
    try:
        c = f'{d}/repo'
        subprocess.run(['cp', '-a', '/repo', c], check=True)
        demo = f'{d}/demo'
        shutil.copytree(f'{S}/{bug}', demo)
        diff = open(f'{demo}/patch.diff').read()
        bad = original(diff)
        if bad:
            res['not-original'] = bad
        rc, out = sh(['bash', f'{demo}/demo.sh'], c, timeout=300)
        res['demo clean'] = 'ok' if rc == 0 else f'FAIL {rc} {out[-400:]}'
        rc, out = sh(['git', 'apply', f'{demo}/patch.diff'], c)
        if rc:
            res['apply'] = out
            return bug, res
        rc, out = sh(['bash', f'{demo}/demo.sh'], c, timeout=300)
        res['demo patched'] = f'ok ({out.strip()[-160:]})' if rc not in (0, 124) else f'FAIL {rc}'
        if tests:
            rc, out = sh([PY, '-m', 'pytest', 'test', '-q', '-p', 'no:cacheprovider', '--timeout=300'], c,
                         {'OMP_NUM_THREADS': '4', 'MKL_NUM_THREADS': '4'})
            res['tests'] = out.strip().split('\n')[-1]
            fails = re.findall(r'^(?:FAILED|ERROR) (\S+)', out, re.M)
            if fails:
                res['failed'] = fails
        if check:
            pid = json.load(open(f'{demo}/meta.json'))['property']
            hits = []
            for p in ([pid] if check == 'own' else check.split(',')):
                rc, out = sh([PY, '-m', 'sim', 'check', p], V, {'TORCHDYN_REPO': c, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick',
                                                                'VERIF_OUT': d})
                m = [l for l in out.split('\n') if 'scenario' in l or 'VIOLATION' in l]
                hits.append(f'{p}: rc={rc} ' + ' | '.join(m)[:400])
            res['check'] = hits
    finally:
        shutil.rmtree(d)
    return bug, res


if __name__ == '__main__':
    a = sys.argv[1:]
    check = next((x.split('=')[1] if '=' in x else 'own' for x in a if x.startswith('--check')), None)
    tests = '--no-tests' not in a
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(S))
    with ThreadPoolExecutor(2 if tests and not check else 1) as ex:
        for bug, res in ex.map(lambda b: one(b, check, tests), ids):
            print('==', bug)
            for k, v in res.items():
                print('   ', k, ':', v)
            sys.stdout.flush()
