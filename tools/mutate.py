"""Development tool: sampled first-order mutants of the code under test against the checks.

usage: mutate.py OUT.jsonl [seed] [files,..] [per_file]
Each mutant is applied in a scratch copy; the checks mapped to its file run at reduced scale until one reports it;
mutants nothing reports are run against the stable tests, and those that pass are listed for inspection."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

REPO = os.environ.get('MUT_REPO', '/repo')
PY = '/opt/venv/bin/python'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
FILES = {
    'torchdyn/numerics/odeint.py': 'P02 P01 P03 P04 P08 P13 P06 P05 P07',
    'torchdyn/numerics/utils.py': 'P02 P01 P03 P12 P08',
    'torchdyn/numerics/sensitivity.py': 'P07 P10 P05 P04 P11 P13',
    'torchdyn/numerics/interpolators.py': 'P01 P07 P06',
    'torchdyn/numerics/sdeint.py': 'P04 P09 P03',
    'torchdyn/numerics/solvers/ode.py': 'P01 P02 P04 P13 P03 P06 P07',
    'torchdyn/numerics/solvers/sde.py': 'P09 P04',
    'torchdyn/numerics/solvers/root.py': 'P12',
    'torchdyn/numerics/solvers/hyper.py': 'P04 P06 P07',
    'torchdyn/numerics/solvers/templates.py': 'P01 P06 P04 P13',
    'torchdyn/core/problems.py': 'P07 P11 P01 P10 P13 P04',
    'torchdyn/core/neuralde.py': 'P10 P07 P01 P09 P14 P11',
    'torchdyn/core/defunc.py': 'P10 P07 P09 P11',
    'torchdyn/core/utils.py': 'P10 P11 P01 P07',
    'torchdyn/nn/node_layers.py': 'P10 P11',
    'torchdyn/models/cnf.py': 'P10 P07 P14',
    'torchdyn/models/hybrid.py': 'P05 P06 P11',
    'torchdyn/datasets/static_datasets.py': 'P14',
    'torchdyn/nn/galerkin.py': 'P10 P11',
}
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: '+'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.encode().split(b'\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    b = src.encode()
    out = []

    def add(s, e, new, what, line):
        out.append((s, e, new.encode(), what, line))
    infunc = set()
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            for n in ast.walk(fn):
                infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) not in infunc:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            ls, le = pos(n.left)
            rs, re_ = pos(n.right)
            gap = b[le:rs].decode()
            for op in ('**', '@', '+', '-', '*', '/'):
                if op in gap:
                    add(le, rs, gap.replace(op, SWAP[type(n.op)], 1), f'{op}->{SWAP[type(n.op)]}', n.lineno)
                    break
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            le, rs = pos(n.left)[1], pos(n.comparators[0])[0]
            gap = b[le:rs].decode()
            add(le, rs, ' ' * (gap[:1] == '(') + f' {CMP[type(n.ops[0])]} ' if '(' not in gap and ')' not in gap else gap, 'cmp', n.lineno)
        elif isinstance(n, ast.BoolOp):
            le, rs = pos(n.values[0])[1], pos(n.values[1])[0]
            gap = b[le:rs].decode()
            new = gap.replace('and', 'or') if isinstance(n.op, ast.And) else gap.replace('or', 'and')
            add(le, rs, new, 'boolop', n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            s, e = pos(n)
            add(s, e, repr(n.value + 1 if isinstance(n.value, int) else n.value * 1.5 + (n.value == 0)), f'const {n.value}', n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            s, e = pos(n)
            add(s, e, repr(not n.value), f'const {n.value}', n.lineno)
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            s, e = pos(n.test)
            add(s, e, f'(not ({b[s:e].decode()}))', 'negate', n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            s, e = pos(n)
            add(s, e, 'pass', 'delete', n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            s, e = pos(n)
            add(s, e, f'({b[pos(n.operand)[0]:pos(n.operand)[1]].decode()})', 'unary', n.lineno)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ('min', 'max'):
            s, e = pos(n)
            add(s, e, 'max' if n.id == 'min' else 'min', n.id, n.lineno)
    seen, res = set(), []
    for m in out:
        new = b[:m[0]] + m[2] + b[m[1]:]
        if new != b and new not in seen:
            try:
                compile(new, 'x', 'exec')
            except (SyntaxError, ValueError):
                continue
            seen.add(new)
            res.append((new, m[3], m[4], b[max(0, m[0] - 40):m[1] + 30].decode(errors='replace')))
    return res


def main():
    outp, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
    files = sys.argv[3].split(',') if len(sys.argv) > 3 and sys.argv[3] != 'all' else list(FILES)
    per = int(sys.argv[4]) if len(sys.argv) > 4 else 10
    scratch = os.environ.get('MUT_DIR', '/tmp/mut')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    subprocess.run(['cp', '-a', REPO, scratch + '/repo'], check=True)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    subprocess.run(['cp', '-a', here, scratch + '/verif'], check=True)  # edits here do not disturb the run
    scale = os.environ.get('MUT_SCALE', '.4')
    stats = dict(killed=0, tests=0, survived=0)
    for f in files:
        src = open(f'{REPO}/{f}').read()
        ms = mutants(src)
        random.Random(f'{seed}/{f}').shuffle(ms)
        for new, what, line, ctx in ms[:per]:
            open(f'{scratch}/repo/{f}', 'wb').write(new)
            env = dict(os.environ, TORCHDYN_REPO=scratch + '/repo', VERIF_OUT=scratch + '/out', OMP_NUM_THREADS='1')
            rec = dict(file=f, line=line, what=what, ctx=ctx.strip(), by=None, odd=[])
            t0 = time.time()
            for p in FILES[f].split():
                try:
                    r = subprocess.run([PY, '-m', 'sim', 'check', p, 'seed=1', 'scale=' + scale], cwd=scratch + '/verif', env=env,
                                       capture_output=True, text=True, timeout=600)
                    rc, out = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, out = 124, 'timeout'
                if rc == 1:
                    rec['by'] = p
                    rec['how'] = [l for l in out.split('\n') if 'scenario' in l][:1]
                    break
                if rc:
                    rec['odd'].append([p, rc, out[-300:]])
            if rec['by'] is None:
                t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'test', '-n', '0'] if False else
                                   [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'test'], cwd=scratch + '/repo',
                                   env=dict(env, PYTHONPATH=scratch + '/repo', OMP_NUM_THREADS='4', MPLBACKEND='Agg',
                                            PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True, timeout=900)
                rec['tests'] = t.stdout.strip().split('\n')[-1]
                rec['survived'] = ' failed' not in rec['tests'] and ' error' not in rec['tests']
            rec['s'] = round(time.time() - t0, 1)
            with open(outp, 'a') as fh:
                fh.write(json.dumps(rec) + '\n')
        open(f'{scratch}/repo/{f}', 'w').write(src)


