"""P16: repeated, aborted and nested use accumulates nothing: the n-th solve costs and holds what the second did."""
import gc
import sys
from collections import deque

import torch

from ..core import SimFault, Violation
from ..worlds import need, same
from . import p05

COUNT = dict(quick=700, thorough=25000)
CHUNK = 10
RULE = ('one run = a round of 1-3 problems (solves, gradients, searches, some aborted by an exception in a drawn callback, '
        'some nested in a callback of another) repeated on one set of objects; after every round the results are dropped and '
        'the live tensors, live objects, depth of the call stack in the callbacks, number of callback calls, executed lines and the '
        'names and sizes of state dictionaries are compared with the rounds before; non-trivial when a problem was aborted or '
        'several were solved; distinct by kind, aborts and nesting')
REAL = list(p05.REAL) + ['CPython garbage collector (observation of live objects)']
STUB = list(p05.STUB)
ASSUMPTIONS = ['objects held by C++ only (saved tensors of graphs nobody refers to from Python) are not counted',
               'caches may fill during the first three rounds']
SHRINK = {'problems': ('list', 1), 'exc': ('choice', ['SimFault']), 'nest': ('choice', [False])}
ROUNDS, WARM = 7, 3


def generate(rng, i):
    scn = p05.generate(rng, i)
    for p in scn['problems']:
        p['fault'] = rng.random() < .5
    scn['exc'] = rng.choice(['SimFault', 'SimInterrupt', 'ValueError', 'KeyboardInterrupt'])
    scn['nest'] = rng.random() < .35 and scn['kind'] in ('adaptive', 'fixed', 'hybrid', 'sde', 'ms', 'root', 'symplectic')
    scn['at'] = rng.randrange(6)
    return scn


OLD = []


def census():
    gc.collect()
    objs = gc.get_objects()
    kinds = {}
    for o in objs:
        t = type(o)
        kinds[t] = kinds.get(t, 0) + 1
    tensors = sum(n for t, n in kinds.items() if issubclass(t, torch.Tensor))
    # frames and cells come and go with the measurement itself
    contents = sum(len(o) for o in objs if type(o) in (list, dict, set, deque)) + sum(map(len, OLD))
    # as tuples of plain values, which the collector does not track: keeping them adds no live object
    return tensors, len(objs), contents, tuple((t.__name__, n) for t, n in kinds.items())


def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def execute(env, scn):
    if not OLD:  # containers of modules and classes; those of later scenarios' objects come on top
        import torchdyn.core, torchdyn.models, torchdyn.nn, torchdyn.numerics.sensitivity  # noqa
        gc.collect()
        OLD.extend(o for o in gc.get_objects() if type(o) in (list, dict, set, deque) and o is not OLD)
    gc.collect()
    gc.freeze()
    try:
        history, what, plans = rounds(env, scn)
    finally:
        gc.unfreeze()
    judge(env, scn, history, what, plans)


def rounds(env, scn):
    E = p05.exc_class(scn['exc'])
    b = p05.Bundle(env, scn)
    P = b.P
    orig = P.hit
    rec = dict(depth=0, calls=0, nested=0)

    def hit(party, *a):
        rec['calls'] += 1
        d = depth()
        if d > rec['depth']:
            rec['depth'] = d
        orig(party, *a)
        if scn['nest'] and rec['nested'] == 0 and P.counts.get(party, 0) == scn['at'] + 1:
            rec['nested'] = 1
            plan, P.plan = P.plan, None
            keep = b.inputs
            counts, P.counts = P.counts, {}
            env.fault('nested-solve')
            b.run(scn['problems'][-1])
            P.plan, P.counts, b.inputs = plan, counts, keep
    P.hit = hit
    if hasattr(b, 'model'):
        for m in b.model.modules():
            if getattr(m, 'hit', None) is not None:
                m.hit = hit
    # which call of which party fails is decided by a round without failures
    plans = []
    for p in scn['problems']:
        P.reset()
        rec['nested'] = 0
        b.run(p)
        c = dict(sorted(P.counts.items()))
        if p['fault'] and c:
            party = sorted(c)[int(p['party'] * len(c))]
            plans.append((party, int(p['at'] * c[party]), E))
        else:
            plans.append(None)
    history = [None] * ROUNDS  # of constant size: it is counted too
    for r in range(ROUNDS):
        rec.update(depth=0, calls=0)
        for p, plan in zip(scn['problems'], plans):
            for at in ([plan] if plan else []) + [None]:
                P.reset(at)
                rec['nested'] = 0
                try:
                    b.run(p)
                except BaseException as e:  # noqa
                    if e is not P.raised:
                        raise
                P.raised = None
                b.inputs = None
                for q in b.params:
                    q.grad = None
            env.simtime += abs(p['ts'][-1] - p['ts'][0])
        tensors, objects, contents, kinds = census()
        names = tuple((k, tuple(v.shape)) for k, v in b.model.state_dict().items()) if hasattr(b, 'model') else ()
        history[r] = tensors, objects, contents, rec['depth'], rec['calls'], names, kinds
    return history, f'{scn["kind"]} ({"with" if any(plans) else "without"} aborted problems)', plans


def judge(env, scn, history, what, plans):
    history = [dict(zip(('tensors', 'objects', 'contents', 'depth', 'calls', 'names', 'kinds'), h)) for h in history]
    base, last = history[WARM - 1], history[-1]
    n = ROUNDS - WARM
    for key, name in (('tensors', 'live tensors'), ('objects', 'live objects'),
                      ('contents', 'entries of lists, dictionaries and sets'), ('depth', 'stack depth in callbacks'),
                      ('calls', 'callback calls per round')):
        vals = [h[key] for h in history[WARM - 1:]]
        env.metric(key + '-growth', max(0, last[key] - base[key]))
        if last[key] - base[key] >= n and all(q > p for p, q in zip(vals, vals[1:])):
            a, z = dict(base['kinds']), dict(last['kinds'])
            grown = {k: n - a.get(k, 0) for k, n in z.items()}
            grown = {k: v for k, v in sorted(grown.items(), key=lambda kv: -kv[1])[:6] if v > 0}
            raise Violation('accumulates', f'{what}: {name} grow from round to round: {vals} {grown if key == "objects" else ""}')
    need(all(h['names'] == history[0]['names'] for h in history), 'accumulates', f'{what}: the state dictionary changes from '
         f'round to round: {[len(h["names"]) for h in history]}')
    env.nontrivial = env.nontrivial or len(plans) > 1
    env.probe('rounds', ROUNDS)
    env.probe('rounds with aborted problems', ROUNDS if any(plans) else 0)
    env.ev(scn['kind'], str(plans), last['calls'])
    env.sig(scn['kind'], str(plans), scn['nest'])
