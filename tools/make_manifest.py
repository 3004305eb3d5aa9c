"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
PURE = {
    'P20': 'Convergence order is a pure function of tableau and step size: no schedule, clock, fault or interleaving to '
           'simulate; sampling step sizes would be input generation in simulator vocabulary.',
    'P21': 'The divergence channel is a pure function of network, state and noise draw; the only multi-party part (one '
           'draw per solve, held fixed) is decided under P10.',
    'P22': 'Energy-based fields are pure functions of energy and state; nothing in them depends on time, order, faults '
           'or shared state.',
    'P23': 'Galerkin layers are pure functions of depth and weights; the stateful part (the depth assigned before each '
           'evaluation) is decided under P10.',
    'P24': 'Dataset geometry is a pure function of arguments and random draws; the part that depends on the random '
           'generators (reproducibility, isolation) is decided under P14.',
}
NOTES = {}
for l in open(f'{V}/tools/level_notes.txt'):
    if l.strip():
        k, v = l.strip().split(': ', 1)
        NOTES[k] = v
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(f'{V}/sim/props/{pid.lower()}.py') and pid in NOTES:
        checks.append(dict(
            property=pid, quick_cmd=f'/opt/venv/bin/python -m sim check {pid}',
            thorough_cmd=f'VERIF_TIER=thorough /opt/venv/bin/python -m sim check {pid}',
            evidence_file=f'evidence/{pid}.json',
            technique='deterministic simulation with fault injection: seeded scenario and fault-schedule search',
            level='exploration', level_note=NOTES[pid]))
    else:
        na.append(dict(property=pid, reason=PURE.get(pid, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -m compileall -q sim', checks=checks, not_applicable=na,
               notes='All checks import torchdyn from /repo\'s working tree; no hooks were added to /repo.'),
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
