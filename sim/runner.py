"""Seeded search over scenarios, minimisation, replay files and evidence."""
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
from collections import Counter

from . import core
from .core import VERIF

NWORK = int(os.environ.get('SIM_WORKERS', '8'))
CHUNK = 20
CHUNK_TIMEOUT = 400
OUT = os.environ.get('VERIF_OUT', VERIF)  # development runs against scratch copies write elsewhere
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def load_prop(pid):
    return importlib.import_module(f'sim.props.{pid.lower()}')


# ---------------------------------------------------------------- forked execution
def _child(job, wfd):
    try:
        out = job()
    except BaseException as e:  # noqa: the parent classifies
        import traceback
        out = ('harness', ''.join(traceback.format_exception(e))[-3000:])
    try:
        with os.fdopen(wfd, 'wb') as fh:
            pickle.dump(out, fh)
    finally:
        os._exit(0)


class Farm:
    """Runs jobs in forked children, each in a fresh copy of this process."""
    def __init__(self, n=NWORK):
        self.n, self.live = n, {}

    def spawn(self, key, job):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in list(self.live):
                os.close(fd)
            _child(job, w)
        os.close(w)
        self.live[r] = [key, pid, bytearray(), time.monotonic()]

    def poll(self):
        """Wait for one finished child; returns (key, result)."""
        while True:
            rs, _, _ = select.select(list(self.live), [], [], 5)
            for r in rs:
                data = os.read(r, 1 << 20)
                ent = self.live[r]
                if data:
                    ent[2] += data
                    continue
                os.close(r)
                del self.live[r]
                os.waitpid(ent[1], 0)
                try:
                    return ent[0], pickle.loads(bytes(ent[2]))
                except Exception:
                    return ent[0], ('harness', 'worker died without a result')
            now = time.monotonic()
            for r, ent in list(self.live.items()):
                if now - ent[3] > CHUNK_TIMEOUT:
                    os.kill(ent[1], signal.SIGKILL)
                    os.close(r)
                    del self.live[r]
                    os.waitpid(ent[1], 0)
                    return ent[0], ('harness', f'worker exceeded {CHUNK_TIMEOUT} s')

    def full(self):
        return len(self.live) >= self.n

    def kill(self):
        for r, ent in self.live.items():
            os.kill(ent[1], signal.SIGKILL)
            os.close(r)
            os.waitpid(ent[1], 0)
        self.live = {}


def in_child(job):
    f = Farm(1)
    f.spawn(0, job)
    return f.poll()[1]


def run_case(prop, case, keep=0):
    """A case is a list of scenarios executed in order in one process; the verdict is the last one's."""
    out = None
    for scn in case:
        out = core.run_scenario(prop, scn, keep)
    return out


# ---------------------------------------------------------------- minimisation
def _get(d, path):
    for p in path:
        d = d[p]
    return d


def _with(scn, path, val):
    new = json.loads(json.dumps(scn))
    d = new
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = val
    return new


def candidates(prop, scn):
    spec = getattr(prop, 'SHRINK', {})
    for key, how in spec.items():
        path = key.split('.')
        try:
            v = _get(scn, path)
        except (KeyError, TypeError, IndexError):
            continue
        kind, arg = how
        if kind == 'list' and isinstance(v, list):
            n = len(v)
            size = n
            while size >= 1:
                if n - size >= arg:
                    for i in range(0, n - size + 1, max(1, size)):
                        yield _with(scn, path, v[:i] + v[i + size:])
                size //= 2
        elif kind == 'choice':
            i = arg.index(v) if v in arg else len(arg)
            for o in arg[:i]:
                yield _with(scn, path, o)
        elif kind == 'int' and isinstance(v, int):
            for c in dict.fromkeys([arg, (arg + v) // 2, v - 1]):
                if arg <= c < v:
                    yield _with(scn, path, c)
        elif kind == 'items' and isinstance(v, list):  # shrink fields of each list entry
            for i, it in enumerate(v):
                for k2, how2 in arg.items():
                    if k2 in it:
                        sub = dict(SHRINK={k2: how2})
                        for c in candidates(type('P', (), sub), it):
                            yield _with(scn, path, v[:i] + [c] + v[i + 1:])
    if hasattr(prop, 'simplify'):
        yield from prop.simplify(scn)


def minimise(prop, case, kind, budget=60.):
    """Greedy reduction keeping the violation kind; every attempt in a fresh process."""
    end = time.monotonic() + budget

    def fails(cands):
        """First candidate (in order) that still fails the same way; evaluated in parallel batches."""
        it = iter(cands)
        seen = set()
        while time.monotonic() < end:
            batch = []
            for c in it:
                h = json.dumps(c, sort_keys=True)
                if h not in seen:
                    seen.add(h)
                    batch.append(c)
                if len(batch) == NWORK:
                    break
            if not batch:
                return None
            farm, res = Farm(), {}
            for i, c in enumerate(batch):
                farm.spawn(i, lambda c=c: run_case(prop, c))
            while farm.live:
                i, r = farm.poll()
                res[i] = r
            for i, c in enumerate(batch):
                r = res[i]
                if isinstance(r, dict) and r['viol'] and r['viol'][0] == kind:
                    return c
        return None

    # drop the scenarios that only happened to run before
    if len(case) > 1:
        n = len(case) - 1
        while n >= 1:
            i = 0
            while i < len(case) - 1:
                c = case[:i] + case[min(i + n, len(case) - 1):]
                if len(c) < len(case) and fails([c]):
                    case = c
                else:
                    i += n
            n //= 2
    while time.monotonic() < end:
        nxt = fails(case[:-1] + [c] for c in candidates(prop, case[-1]))
        if nxt is None:
            break
        case = nxt
    return case


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: ') and f'property={pid} ' in line:
                out.append(line[len('finding: '):])
    return out


def match_known(pid, outcome):
    """A finding line: `finding: property=<id> match=<substring of "kind: detail"> <what fails>`"""
    text = ': '.join(outcome['viol'])
    for line in known_findings(pid):
        m = line.split('match=', 1)
        if len(m) == 2 and m[1].split(' ', 1)[0] in text:
            return line
    return None


# ---------------------------------------------------------------- a check
def check(pid, tier=None, seed=None, scale=1.0):
    t0 = time.monotonic()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
    print(f'[sim] property={pid} tier={tier} seed={seed}', flush=True)
    core.load_target()
    prop = load_prop(pid)
    total = int(prop.COUNT[tier] * scale)
    cap = 420. if tier == 'quick' else float(os.environ.get('SIM_CAP', '6600'))

    def chunk_job(lo, hi):
        res = []
        for i in range(lo, hi):
            scn = prop.generate(core.rng_for(seed, pid, i), i)
            # what is executed is what a replay file can hold
            scn = json.loads(json.dumps(scn))
            out = core.run_scenario(prop, scn)
            out['i'] = i
            res.append(out)
            if out['viol'] or out['err']:
                break
        return res

    chunk = getattr(prop, 'CHUNK', CHUNK)
    todo = [(lo, min(lo + chunk, total)) for lo in range(0, total, chunk)]
    # determinism: a sample of the chunks is executed once more and its event logs are compared
    again = {c for k, c in enumerate(todo) if k % 16 == 3}
    queue = [(c, 0) for c in todo] + [(c, 1) for c in sorted(again)]
    farm = Farm()
    outs, errs, viols, knowns = {}, [], [], []
    hashes, mismatch, redone, capped = {}, [], 0, False
    best = None
    qi = 0
    while qi < len(queue) or farm.live:
        while qi < len(queue) and not farm.full():
            (lo, hi), rep = queue[qi]
            qi += 1
            if best is not None and (lo > best or rep):
                continue
            if time.monotonic() - t0 > cap:
                capped = True
                continue
            farm.spawn((lo, hi, rep), lambda lo=lo, hi=hi: chunk_job(lo, hi))
        if not farm.live:
            break
        (lo, hi, rep), res = farm.poll()
        if isinstance(res, tuple):
            errs.append((lo, res[1]))
            break
        for o in res:
            i = o['i']
            if rep:
                redone += 1
                if i in hashes and hashes[i] != o['hash']:
                    mismatch.append(i)
                continue
            hashes[i] = o['hash']
            if o['err']:
                errs.append((i, o['err']))
            elif o['viol']:
                k = match_known(pid, o)
                if k:
                    knowns.append(k)
                else:
                    viols.append((i, lo, o))
                    best = i if best is None else min(best, i)
            outs[i] = dict(o, trace=None)
        if errs:
            break
    farm.kill()
    if len(errs) and not viols:
        print(f'[sim] HARNESS ERROR in scenario {errs[0][0]} of seed {seed}:\n{errs[0][1]}', flush=True)
        return 2

    rc = 0
    if viols:
        i, lo, o = min(viols, key=lambda v: v[0])
        rc = report_violation(prop, pid, tier, seed, i, lo, o)
    for k in dict.fromkeys(knowns + known_findings(pid)):
        print('KNOWN-FINDING: ' + k, flush=True)
    write_evidence(prop, pid, tier, seed, outs, mismatch, redone, capped, time.monotonic() - t0, len(viols))
    if mismatch:
        print(f'[sim] warning: scenarios {mismatch[:5]} did not repeat their event log', flush=True)
    print(f'[sim] {len(outs)} runs, {sum(1 for o in outs.values() if o["nontrivial"])} non-trivial, '
          f'{len(viols)} violating, {time.monotonic() - t0:.1f} s', flush=True)
    return rc


def report_violation(prop, pid, tier, seed, i, lo, o):
    def gen(j):
        return json.loads(json.dumps(prop.generate(core.rng_for(seed, pid, j), j)))
    kind = o['viol'][0]
    case = [gen(i)]
    r = in_child(lambda: run_case(prop, case))
    if not (isinstance(r, dict) and r['viol']):
        case = [gen(j) for j in range(lo, i + 1)]  # depends on what ran before it in the same process
        r = in_child(lambda: run_case(prop, case))
    reproduced = isinstance(r, dict) and bool(r['viol'])
    if reproduced:
        kind = r['viol'][0]
        case = minimise(prop, case, kind)
        r = in_child(lambda: run_case(prop, case, keep=200))
    else:
        r = o
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(case, sort_keys=True)
    path = os.path.join(d, f'{pid}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json')
    with open(path, 'w') as fh:
        json.dump(dict(property=pid, seed=seed, tier=tier, index=i, kind=r['viol'][0], detail=r['viol'][1],
                       log_hash=r['hash'], reproduced=reproduced, case=case, trace=r['trace'][-200:]), fh, indent=1)
    print(f'[sim] seed {seed} scenario {i}: {r["viol"][0]}: {r["viol"][1][:1500]}', flush=True)
    print(f'[sim] minimised case: {blob[:1500]}', flush=True)
    print(f'VIOLATION property={pid} replay={path}', flush=True)
    return 1


def replay(path):
    d = json.load(open(path))
    core.load_target()
    prop = load_prop(d['property'])
    r = run_case(prop, d['case'], keep=200)
    for line in r['trace']:
        print('   ', line)
    print('log hash', r['hash'], '(recorded', d['log_hash'] + ')', flush=True)
    if r['err']:
        print('HARNESS ERROR', r['err'])
        return 2
    if r['viol']:
        print(f'[sim] {r["viol"][0]}: {r["viol"][1]}')
        print(f'VIOLATION property={d["property"]} replay={path}', flush=True)
        return 1
    print('[sim] the property held on this case')
    return 0


def write_evidence(prop, pid, tier, seed, outs, mismatch, redone, capped, wall, nviol):
    faults, probes, metrics = Counter(), Counter(), {}
    sigs, nontriv_sigs = set(), set()
    for o in outs.values():
        faults.update(o['faults'])
        probes.update(o['probes'])
        for k, v in o['metrics'].items():
            metrics[k] = max(metrics.get(k, 0.), v)
        sigs.add(o['sig'])
        if o['nontrivial']:
            nontriv_sigs.add(o['sig'])
    n = len(outs)
    samples = []
    for i in sorted(outs)[:3]:
        samples.append(dict(index=i, scenario=prop.generate(core.rng_for(seed, pid, i), i),
                            log_hash=outs[i]['hash'], events=outs[i]['nev'], faults=outs[i]['faults']))
    cov = dict(
        evaluations=n,
        distinct_nontrivial=len(nontriv_sigs),
        rule=prop.RULE,
        samples=samples,
        runs_per_hour=int(n / max(wall, 1e-9) * 3600),
        seeds_per_hour=int(n / max(wall, 1e-9) * 3600),
        simulated_time=round(sum(o['simtime'] for o in outs.values()), 3),
        simulated_time_unit='units of the differential equation\'s own time, summed over solves',
        callback_evaluations=sum(o['evals'] for o in outs.values()),
        events_logged=sum(o['nev'] for o in outs.values()),
        faults_fired=dict(sorted(faults.items())),
        probes=dict(sorted(probes.items())),
        worst_margins={k: float('%.3g' % v) for k, v in sorted(metrics.items())},
        distinct_signatures=len(sigs),
        nontrivial_runs=sum(1 for o in outs.values() if o['nontrivial']),
        thread_switches=sum(o['switches'] for o in outs.values()),
        real_components=prop.REAL,
        simulated_components=prop.STUB,
        determinism=dict(reexecuted=redone, log_mismatches=len(mismatch)),
        stopped_at_time_cap=capped,
    )
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='exploration',
              coverage=cov, assumptions=list(prop.ASSUMPTIONS), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    path = os.path.join(OUT, 'evidence', f'{pid}.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + '.tmp', path)


def determinism(pids, seeds, n):
    """Print one event-log digest per property and seed (to diff between processes)."""
    core.load_target()
    for pid in pids:
        prop = load_prop(pid)
        for seed in seeds:
            farm = Farm()
            res = {}

            def job(lo, hi):
                return [core.run_scenario(prop, json.loads(json.dumps(
                    prop.generate(core.rng_for(seed, pid, i), i)))) for i in range(lo, hi)]
            step = max(1, n // (2 * NWORK))
            todo = [(lo, min(lo + step, n)) for lo in range(0, n, step)]
            while todo or farm.live:
                while todo and not farm.full():
                    lo, hi = todo.pop(0)
                    farm.spawn(lo, lambda lo=lo, hi=hi: job(lo, hi))
                k, r = farm.poll()
                if isinstance(r, tuple):
                    print('HARNESS', r[1])
                    return 2
                for j, o in enumerate(r):
                    res[k + j] = o
            h = hashlib.sha1('\n'.join(f'{i} {res[i]["hash"]} {res[i]["viol"]} {res[i]["err"]}'
                                       for i in sorted(res)).encode()).hexdigest()
            bad = [i for i in res if res[i]['viol'] or res[i]['err']]
            print(pid, seed, n, h, 'bad:', bad[:5], flush=True)
            if os.environ.get('SIM_HASHES'):
                for i in sorted(res):
                    print('  ', i, res[i]['hash'])
    return 0
