"""P17: process-wide settings neither change what is computed nor are changed by it."""
import gc
import os
import sys
import threading
import warnings
from contextlib import ExitStack

import numpy
import torch

from ..worlds import need, same
from . import p05

COUNT = dict(quick=2000, thorough=60000)
CHUNK = 10
RULE = ('one run = a history of 1-3 problems (solves of every kind, gradients, searches) on one set of objects, in a process '
        'whose settings (default precision, grad and inference mode, anomaly detection, deterministic algorithms, thread '
        'count, saved-tensor hooks, garbage collection, numpy error state, warning filters) are drawn at construction, before '
        'each problem, or changed by another party during one; compared with fresh objects under standard settings; '
        'after every problem, completed or aborted, the settings must be as the parties left them; non-trivial when a '
        'setting differed from the standard; distinct by kind, settings and when they were changed')
REAL = list(p05.REAL)
STUB = list(p05.STUB) + ['parties changing process-wide settings']
ASSUMPTIONS = ['fields do not depend on the settings themselves',
               'adaptive step sizes may round differently under another default precision; agreement is then to solver '
               'tolerance, otherwise bitwise']
SHRINK = {'problems': ('list', 1), 'settings': ('list', 0), 'exc': ('choice', ['SimFault']), 'unused': ('choice', [False])}
# the other kinds differentiate within the solve, which torch's inference mode rules out
EAGER = ('adaptive', 'fixed', 'hybrid', 'sde', 'symplectic')
NOGRAD = EAGER + ('root', 'cnf', 'ms', 'ieuler')
ADAPTIVE = ('adaptive', 'control', 'adjoint', 'interp_adjoint', 'trajectory', 'second_order', 'hybrid')
DD = {'f16': torch.float16, 'bf16': torch.bfloat16, 'f32': torch.float32, 'f64': torch.float64}


def generate(rng, i):
    scn = p05.generate(rng, i)
    for p in scn['problems']:
        p['fault'] = rng.random() < .5
        if rng.random() < .7:
            p['dtype'] = scn['problems'][0]['dtype']
    settings = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        what = rng.choice(['dtype', 'dtype', 'dtype', 'grad', 'anomaly', 'deterministic', 'threads', 'hooks', 'gc',
                           'numpy', 'warnings', 'freeze'] + ['grad'] * 4 * (scn['kind'] in NOGRAD))
        val = dict(dtype=rng.choice(['f64', 'f64', 'f16', 'bf16']), grad=rng.choice(['off', 'off', 'inference']),
                   threads=rng.choice([2, 3])).get(what, True)
        when = rng.choice(['build', 'problem', 'call'])
        if what in ('grad', 'hooks'):
            when = 'problem'
        settings.append(dict(what=what, val=val, when=when, problem=rng.randrange(len(scn['problems'])),
                             call=rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30]), back=rng.random() < .3))
    scn['settings'] = settings
    return scn


def state():
    return dict(dtype=torch.get_default_dtype(), grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(),
                anomaly=torch.is_anomaly_enabled(), deterministic=torch.are_deterministic_algorithms_enabled(),
                threads=torch.get_num_threads(), gc=gc.isenabled(), thresholds=gc.get_threshold(), numpy=tuple(sorted(
                    numpy.geterr().items())), filters=tuple(map(repr, warnings.filters)), rec=sys.getrecursionlimit(),
                switch=sys.getswitchinterval(), trace=sys.gettrace(), profile=sys.getprofile(), hook=sys.excepthook,
                cwd=os.getcwd(), env=tuple(sorted(os.environ.items())), threads_alive=threading.active_count(),
                printing=repr(torch.tensor([1 / 3, 1e-7], dtype=torch.float64)), path=tuple(sys.path),
                default_device=str(torch.get_default_device()), out=sys.stdout, err=sys.stderr,
                functions=len(torch.overrides._get_current_function_mode_stack()),
                determ=torch.backends.mkldnn.enabled, multithreading=torch._C._is_multithreading_enabled(),
                hooks=torch._C._autograd._saved_tensors_hooks_is_enabled())


def put(what, val):
    """Apply one setting as a party would."""
    if what == 'dtype':
        torch.set_default_dtype(DD[val] if isinstance(val, str) else val)
    elif what == 'anomaly':
        torch.set_anomaly_enabled(val)
    elif what == 'deterministic':
        torch.use_deterministic_algorithms(val)
    elif what == 'threads':
        torch.set_num_threads(val)
    elif what == 'gc':  # collections happen at every call of a callback
        (gc.disable if val else gc.enable)()
        gc.collect()
    elif what == 'freeze':
        gc.set_threshold(*(100, 3, 1000) if val else (700, 10, 10))
    elif what == 'numpy':
        numpy.seterr(all='raise' if val else 'warn', under='raise' if val else 'ignore')
    elif what == 'warnings':
        warnings.simplefilter('always' if val else 'ignore')


STANDARD = dict(dtype='f32', anomaly=False, deterministic=False, threads=1, gc=False, freeze=False, numpy=False,
                warnings=False)


class Pack(torch.autograd.graph.saved_tensors_hooks):
    """Saved tensors are moved away and brought back when needed, as offloading does."""
    def __init__(self):
        super().__init__(lambda t: (t.detach().numpy().copy(), t.dtype) if not t.requires_grad or t.grad_fn is None
                         and not isinstance(t, torch.nn.Parameter) else t.detach().clone(),
                         lambda s: torch.from_numpy(s[0]) if isinstance(s, tuple) else s)


def standard():
    base = dict(threshold=gc.get_threshold(), filters=warnings.filters[:], err=numpy.geterr(), threads=torch.get_num_threads(),
                gc=gc.isenabled())

    def undo():
        torch.set_default_dtype(torch.float32)
        torch.set_anomaly_enabled(False)
        torch.use_deterministic_algorithms(False)
        torch.set_num_threads(base['threads'])
        gc.set_threshold(*base['threshold'])
        (gc.enable if base['gc'] else gc.disable)()
        numpy.seterr(**base['err'])
        warnings.filters[:] = base['filters']
        warnings._filters_mutated()
        torch.set_grad_enabled(True)
    return undo


def execute(env, scn):
    undo = standard()
    import io
    from contextlib import redirect_stderr
    try:
        with redirect_stderr(io.StringIO()):  # anomaly mode and warnings write there
            history(env, scn, undo)
    finally:
        undo()


def leaves(o, out):
    if isinstance(o, torch.Tensor):
        out.append(o.detach())
    elif isinstance(o, (list, tuple)):
        for v in o:
            leaves(v, out)
    else:
        out.append(o)
    return out


def history(env, scn, undo):
    E = p05.exc_class(scn['exc'])
    kind, S = scn['kind'], scn['settings']
    wants, first = [], state()

    def untouched(what):
        now = state()
        bad = [k for k in now if now[k] != first[k]]
        need(not bad, 'settings-changed', f'{kind}: {what} changed {[(k, str(first[k])[:200], str(now[k])[:200]) for k in bad]}')
    b = p05.Bundle(env, scn)
    untouched('building the objects')
    for p in scn['problems']:
        fresh = p05.Bundle(env, scn)
        wants.append((fresh.run(p), dict(sorted(fresh.P.counts.items())), [None if q.grad is None else q.grad.clone()
                                                                         for q in fresh.params]))
        untouched('a problem')
    for s in S:
        if s['when'] == 'build':
            put(s['what'], s['val'])
            env.fault(s['what'])
    b = p05.Bundle(env, scn)
    g0 = [None if q.grad is None else q.grad.clone() for q in b.params]
    orig, live = b.P.hit, dict(n=0, plans=[], expect=None, collect=any(s['what'] == 'gc' for s in S))

    def hit(party, *a):
        n = live['n']
        live['n'] = n + 1
        if live['collect']:
            gc.collect(0 if n % 50 else 1)
        for s in live['plans']:
            if s['call'] == n:
                put(s['what'], s['val'])
                live['expect'] = dict(state(), **{k: live['expect'][k] for k in ('grad', 'inference', 'hooks',
                                                                                 'multithreading', 'out', 'err')})
                env.fault(s['what'] + ' during a solve')
            elif s['back'] and s['call'] + 4 == n:
                put(s['what'], STANDARD[s['what']])
                live['expect'] = dict(state(), **{k: live['expect'][k] for k in ('grad', 'inference', 'hooks',
                                                                                 'multithreading', 'out', 'err')})
        orig(party, *a)
    b.P.hit = hit
    if hasattr(b, 'model'):
        for m in b.model.modules():
            if getattr(m, 'hit', None) is not None:
                m.hit = hit
    for j, p in enumerate(scn['problems']):
        want, counts, grads = wants[j]
        with ExitStack() as st:
            modes = []
            for s in S:
                if s['problem'] != j or s['when'] != 'problem':
                    continue
                if s['what'] == 'grad':
                    if kind in NOGRAD and not modes:
                        off = s['val'] == 'off' or kind not in EAGER
                        st.enter_context(torch.no_grad() if off else torch.inference_mode())
                        modes.append(s['val'])
                        env.fault('grad mode')
                elif s['what'] == 'hooks':
                    if 'hooks' not in modes and kind not in ('ms',):
                        st.enter_context(Pack())
                        modes.append('hooks')
                        env.fault('saved-tensor hooks')
                else:
                    put(s['what'], s['val'])
                    env.fault(s['what'])
            live['plans'] = [s for s in S if s['problem'] == j and s['when'] == 'call']
            for fault in ([True] if p['fault'] else []) + [False]:
                plan = None
                if fault:
                    party = sorted(counts)[int(p['party'] * len(counts))]
                    plan = (party, int(p['at'] * counts[party] * .8), E)
                live.update(n=0, expect=state())
                for q, g in zip(b.params, g0):
                    q.grad = None if g is None else g.clone()
                b.P.reset(plan)
                got = None
                try:
                    got = b.run(p)
                except BaseException as e:  # noqa
                    if e is not b.P.raised:
                        raise
                b.P.raised = None
                now = state()
                bad = [k for k in now if now[k] != live['expect'][k]]
                need(not bad, 'settings-changed', f'{kind}: {"an aborted" if fault else "a"} problem changed '
                     f'{[(k, str(live["expect"][k])[:200], str(now[k])[:200]) for k in bad]}')
            dtype_differs = torch.get_default_dtype() is not torch.float32 or any(s['what'] == 'dtype' for s in S)
            compare(env, scn, p, got, want, dtype_differs and (kind in ADAPTIVE or kind in ('symplectic', 'wrapped') and scn['interp']))
        env.simtime += abs(p['ts'][-1] - p['ts'][0]) * 2
    env.nontrivial = True
    env.ev(kind, str(S))
    env.sig(kind, str(sorted((s['what'], str(s['val']), s['when'], s['call'] if s['when'] == 'call' else 0) for s in S)))


def compare(env, scn, p, got, want, loose):
    kind = scn['kind']
    a, b = leaves(got, []), leaves(want, [])
    what = f'{kind}: with {[(s["what"], s["val"], s["when"]) for s in scn["settings"]]}'
    need(len(a) == len(b), 'depends-on-settings', f'{what}: {len(a)} results, {len(b)} under standard settings')
    for i, (u, v) in enumerate(zip(a, b)):
        if not isinstance(v, torch.Tensor):
            need(type(u) is type(v) and (u is v or u == v), 'depends-on-settings', f'{what}: result {i} is {u}, not {v}')
            continue
        need(u.dtype == v.dtype, 'precision', f'{what}: result {i} has {u.dtype}, not {v.dtype}')
        if loose and (kind in ('hybrid', 'interp_adjoint') or kind == 'adaptive' and p['xseed'] % 4 == 0 or kind == 'wrapped' and scn['seed'] // 4 % 3 == 2):  # their points are those of the steps taken
            need(bool(torch.isfinite(u).all()), 'depends-on-settings', f'{what}: not finite')
            continue
        need(u.shape == v.shape, 'depends-on-settings', f'{what}: result {i} has shape {tuple(u.shape)}, not {tuple(v.shape)}')
        if not loose or i == 0 and kind in ('adaptive', 'symplectic', 'control', 'adjoint', 'second_order'):
            need(same(u, v), 'depends-on-settings', f'{what}: result {i} differs: {u.flatten()[:6]} {v.flatten()[:6]}')
        else:
            d = float((u.double() - v.double()).abs().max()) if u.numel() else 0.
            ref = 1. + (float(v.double().abs().max()) if v.numel() else 0.)
            env.metric('loose', d / ref / TOL)
            need(d <= TOL * ref, 'depends-on-settings', f'{what}: result {i} differs by {d:.3g}')


TOL = .01
