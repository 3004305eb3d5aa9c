"""P03: solves terminate in bounded work or raise, once faults stop."""
import math

import torch

from ..core import Budget, Violation
from ..grids import draw_ts
from ..worlds import DT, EPS, Field, FieldModule, World, draw_world, draw_x0, make_world, need, relerr

COUNT = dict(quick=3000, thorough=100000)
RULE = ('one run = one solve (adaptive odeint / ODEProblem / NeuralODE / hybrid / adjoint backward under transient or '
        'persistent non-finite evaluations and forced rejections; fixed-step, SDE and parallel-in-time solves under '
        'non-finite fields and rounding-sensitive grids; Zeno hybrid systems; blow-up fields) under a work budget '
        'counted in callback evaluations and loop iterations; non-trivial when a fault fired or the run is adversarial by '
        'construction (Zeno, blow-up, ulp-spaced grid); distinct by kind, entry and work counts')
REAL = ['adaptive, fixed-step, hybrid, SDE and multiple-shooting drivers', 'step-size control and initial step selection',
        'all named fixed-step steppers', 'adjoint backward']
STUB = ['vector field with transient/persistent faults', 'vetoing solver', 'counting solvers', 'always-active and Zeno '
        'event callbacks', 'Brownian path']
ASSUMPTIONS = ['bounded work = 2 x fault-free evaluations + 90 per faulty evaluation or veto + 60 (calibrated)']
KINDS = ['transient'] * 8 + ['coarse'] * 4 + ['persistent'] * 4 + ['fixed'] * 5 + ['sde', 'sde', 'zeno', 'zeno', 'ms', 'blowup', 'ulp', 'ulp']
SHRINK = {'faults': ('list', 1), 'ts': ('list', 2), 'batch': ('int', 1), 'entry': ('choice', ['odeint']),
          'rev': ('choice', [False]), 'spec.kind': ('choice', ['decay']), 'interp': ('choice', [False])}


def generate(rng, i):
    kind = rng.choice(KINDS)
    dtype = rng.choice(['f32', 'f64', 'f64'])
    spec = draw_world(rng)
    tol = rng.choice([1e-2, 1e-3, 1e-4] if dtype == 'f32' else [1e-2, 1e-3, 1e-5, 1e-7])
    scn = dict(kind=kind, dtype=dtype, spec=spec, batch=rng.choice([1, 2]), xseed=rng.randrange(10 ** 6), atol=tol,
               rtol=tol, solver=rng.choice(['dopri5', 'tsit5']), ts=draw_ts(rng), rev=rng.random() < .3, faults=[],
               entry='odeint', interp=rng.random() < .3)
    if kind in ('transient', 'persistent', 'coarse'):
        scn['entry'] = rng.choice(['odeint', 'odeint', 'problem', 'neuralode', 'hybrid', 'adjoint'] +
                                  ['hybrid-event'] * (kind == 'persistent'))
        if scn['entry'] == 'adjoint':
            scn['ts'] = [scn['ts'][0], scn['ts'][-1]]
            if spec['kind'] == 'logistic':  # a state past the equilibrium escapes in finite time when it is retraced
                spec['kind'] = 'drivendecay'
    if kind == 'transient':
        w = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            veto = rng.random() < .3 and scn['entry'] in ('odeint', 'problem', 'neuralode')
            f = dict(kind='reject' if veto else rng.choice(['nan', 'inf', '-inf']),
                     at=rng.choice([0, 1, 2, 4]) if veto else rng.choice([1, 2, 3, 4, 6, 9, 14, 22, 40, 77]),
                     len=rng.choice([1, 2, 3]) if veto else rng.choice([1, 1, 3, 7, 15]))
            if scn['entry'] == 'adjoint':
                f['at'] = max(f['at'], 3)
            w += f['len'] if veto else 1 + f['len'] / 6
            if dtype == 'f32' and w > 3:
                break
            scn['faults'].append(f)
    elif kind == 'persistent':
        scn['where'] = rng.choice(['index', 'index', 'time', 'time', 'initial'])
        scn['at'] = rng.choice([1, 2, 3, 5, 9, 15, 30]) if scn['where'] == 'index' else round(rng.uniform(.02, .98), 3)
        scn['value'] = rng.choice(['nan', 'inf', '-inf'])
    elif kind == 'coarse':
        scn['value'] = rng.choice(['nan', 'inf', '-inf', 'one'])
        scn['h'] = rng.choice([.3, .1, .03, .01, .003])
        lo = rng.choice([0., 0., rng.uniform(0, .9)])
        scn['lo'], scn['hi'] = round(lo, 3), round(rng.choice([1., lo + .1, lo + .3]), 3)
        scn['what'] = rng.choice(['estimate', 'estimate', 'stage'])
    elif kind == 'fixed':
        scn['solver'] = rng.choice(['euler', 'midpoint', 'rk4', 'alf', 'hypereuler', 'ieuler'])
        scn['entry'] = rng.choice(['odeint', 'problem', 'neuralode', 'trajectory'])
        scn['nan_at'] = rng.choice([None, None, 0, 1, 5]) if scn['solver'] != 'ieuler' else None
        scn['ts'] = draw_ts(rng, n=rng.choice([2, 3, 5, 9, 17]))
        style = rng.random()
        if style < .3:  # grids on which accumulated time misses the end by rounding
            n, h, o = rng.choice([5, 11, 21]), rng.choice([.1, .3, .7, 1 / 3]), rng.choice([0., .1, 100., 1000.3])
            scn['ts'] = [o + h * k for k in range(n)]
        elif style < .6:  # the last step does not start within a factor of two of its end: its length is rounded
            t1 = rng.uniform(.1, 3)
            scn['ts'] = [round(t1 - d, rng.choice([3, 9, 16])) for d in sorted(
                {t1 + rng.uniform(-.4, 2) * t1, *(t1 + 3 + rng.uniform(0, 3) for _ in range(rng.choice([0, 0, 1])))}, reverse=True)] + [t1]
            if rng.random() < .3:
                scn['ts'] = [-v for v in reversed(scn['ts'])]
        elif style < .75:
            n, h, o = rng.choice([2, 2, 2, 3, 4, 12]), rng.uniform(.05, 1.), rng.choice([0., rng.uniform(-3, 3), -1.7, 40.])
            scn['ts'] = [o + h * (k + (rng.uniform(-.3, .3) if n > 4 else 0)) for k in range(n)]
    elif kind == 'sde':
        scn['solver'] = rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'])
        scn['rev'] = False
        n, h, o = rng.choice([2, 3, 5, 11]), rng.choice([.1, .3, .01, rng.uniform(.01, 1)]), rng.choice([0., .1, 100., rng.uniform(-3, 3)])
        scn['ts'] = [o + h * k for k in range(n)]
        scn['nan_at'] = rng.choice([None, 0, 3])
    elif kind == 'zeno':
        scn['zeno'] = rng.choice(['ball', 'always', 'toggle'])
        scn['j_span'] = rng.choice([0, 1, 2, 5, 9])
        scn['event_tol'] = rng.choice([1e-3, 1e-4])
        scn['priority'] = rng.choice(['jump', 'flow'])
        scn['dtype'] = 'f64'
        scn['atol'] = scn['rtol'] = rng.choice([1e-3, 1e-4, 1e-5])
    elif kind == 'ms':
        scn['maxiter'] = rng.choice([0, 1, 5, 10 ** 6])
        scn['n'] = rng.choice([2, 3, 5, 8])
        scn['fine'] = rng.choice([2, 3, 4])
        scn['method'] = rng.choice(['zero', 'backward'])
        scn['nan_at'] = rng.choice([None, 0, 7])
    elif kind == 'blowup':
        scn['atol'] = scn['rtol'] = rng.choice([1e-2, 1e-3, 1e-4])
        scn['entry'] = rng.choice(['odeint', 'hybrid'])
        scn['ts'] = [0., 3.]
    elif kind == 'ulp':
        scn['o'] = rng.choice([0., 1., 100., 4096.3] + ([1e6, -1e9] if dtype == 'f64' else []))
        scn['gaps'] = [rng.choice([1, 2, 3, 7, 1000, 10 ** 5]) for _ in range(rng.choice([1, 2, 4]))]
        scn['entry'] = rng.choice(['odeint', 'hybrid'])
        scn['atol'] = scn['rtol'] = 1e-3
    return scn


class Region(Field):
    """A field that turns bad for good: from one evaluation on, or beyond one time."""
    cut = idx = None
    sgn, value = 1., 'nan'

    def __call__(self, t, x, args=None):
        out = super().__call__(t, x, args)
        if (self.idx is not None and self.n > self.idx) or (
                self.cut is not None and self.sgn * (float(t.reshape(-1)[0]) - self.cut) > 0):
            if not self.fired:
                self.env.fault('persistent-' + self.value)
            self.fired += 1
            out = out * 0 + float(self.value)
        return out


class Never:
    def check_event(self, t, x):
        return False

    def jump_map(self, t, x):
        return x


class TimeEvent:
    """Fires once, when time passes the middle of the span."""
    def __init__(self, tc):
        self.tc, self.done = tc, False

    def check_event(self, t, x):
        return bool(t.reshape(-1)[0] > self.tc) and not self.done

    def jump_map(self, t, x):
        self.done = True
        return x * .5


def adaptive(env, scn, fld, ts, x0, solver=None):
    from torchdyn.numerics.odeint import odeint, odeint_hybrid
    from torchdyn.core import NeuralODE, ODEProblem
    a, r = scn['atol'], scn['rtol']
    t_span = torch.tensor(ts, dtype=x0.dtype)
    solver = solver or scn['solver']
    it = '4th' if scn['interp'] else None
    e = scn['entry']
    if e == 'odeint':
        return odeint(fld, x0, t_span, solver, atol=a, rtol=r, interpolator=it)
    if e == 'problem':
        return ODEProblem(FieldModule(fld), solver, interpolator=it, atol=a, rtol=r)(x0, t_span)
    if e == 'neuralode':
        return NeuralODE(FieldModule(fld), solver, interpolator=it, atol=a, rtol=r)(x0, t_span)
    if e in ('hybrid', 'hybrid-event'):
        cb = Never() if e == 'hybrid' else TimeEvent((ts[0] + ts[-1]) / 2)
        return odeint_hybrid(fld, x0, t_span, 4, solver, [cb], atol=a, rtol=r, event_tol=1e-3)
    # the backward solve of the adjoint is the solve under test; the forward one is fault-free
    from torchdyn.core import ODEProblem
    m = ODEProblem(Scaled(fld), solver, sensitivity='adjoint', atol=a, rtol=r, atol_adjoint=a, rtol_adjoint=r)
    x = x0.clone().requires_grad_(True)
    bad, fld.bad = fld.bad, {}
    idx, cut = getattr(fld, 'idx', None), getattr(fld, 'cut', None)
    fld.idx = fld.cut = None
    te, sol = m(x, t_span)
    fld.n, fld.bad, fld.idx, fld.cut = 0, bad, idx, cut
    sol[-1].sum().backward()
    return te, sol


class Scaled(torch.nn.Module):
    def __init__(self, fld):
        super().__init__()
        self.fld, self.p = fld, torch.nn.Parameter(torch.ones(1))

    def forward(self, t, x, args={}):
        return self.p.to(x) * self.fld(t, x)


def spans(scn):
    ts = list(scn['ts'])
    if scn['rev'] and not scn['entry'].startswith('hybrid'):
        ts.reverse()
    return ts


def execute(env, scn):
    getattr(__import__(__name__, fromlist=['x']), 'run_' + scn['kind'])(env, scn)


def run_transient(env, scn):
    from .p01 import make_solver
    dt = DT[scn['dtype']]
    w, ts = make_world(scn['spec']), spans(scn)
    x0 = draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt)
    clean = Field(env, w)
    adaptive(env, scn, clean, ts, x0)
    fld = Field(env, w, scn['faults'])
    veto = any(f['kind'] == 'reject' for f in scn['faults'])
    solver = make_solver(env, scn, []) if veto else None
    nf0 = sum(env.faults.values())
    bound = 2 * clean.n + 60 + 90 * sum(f['len'] for f in scn['faults'])
    env.max_evals = env.evals + bound + 10
    out = adaptive(env, scn, fld, ts, x0, solver)
    nf = sum(env.faults.values()) - nf0
    work = fld.n / (2 * clean.n + 60 + 90 * nf)
    env.metric('work', work)
    if nf:
        env.metric('extra-per-fault', (fld.n - clean.n) / nf)
    need(work <= 1, 'too-much-work', f'{fld.n} evaluations with {nf} faults, {clean.n} without')
    te = out[0]
    need(abs(float(te[-1]) - ts[-1]) <= 8 * EPS[scn['dtype']] * max(1., abs(ts[-1]), abs(ts[0])), 'not-at-end',
         f'{float(te[-1])} instead of {ts[-1]}')
    env.simtime += 2 * abs(ts[-1] - ts[0])
    env.ev('transient', fld.n, clean.n, nf, env.T(out[1]))
    env.sig('transient', scn['entry'], fld.n, clean.n)


def run_coarse(env, scn):
    """A region of time in which every trial step longer than a threshold fails: only shorter steps get through."""
    from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
    dt = DT[scn['dtype']]
    w, ts = make_world(scn['spec']), spans(scn)
    x0 = draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt)
    span = abs(ts[-1] - ts[0])
    h, value = scn['h'] * span, scn['value']
    mirror = -1. if ts[-1] < ts[0] else 1.
    lo, hi = min(ts) + scn['lo'] * span, min(ts) + scn['hi'] * span
    base = DormandPrince45 if scn['solver'] == 'dopri5' else Tsitouras45
    on, log = [False], []

    class Party(base):
        def step(self, f, x, t, dt, k1=None, args=None):
            u, d = float(t.reshape(-1)[0]), float(dt.reshape(-1)[0])
            # (a reversed solve runs in mirrored time or with negative steps)
            a = u if mirror > 0 or d < 0 else -u
            b = a + mirror * abs(d)
            bad = on[0] and abs(d) > h and max(min(a, b), lo) < min(max(a, b), hi)
            if bad and scn['what'] == 'stage':
                f0, k = f, []

                def f(t, x):
                    k.append(1)
                    return f0(t, x) * (float(value) if value != 'one' and len(k) == 3 else 1.)
            f_new, x_new, err, stages = super().step(f, x, t, dt, k1=k1, args=args)
            if bad:
                env.fault('coarse-' + value)
                log.append(d)
                if value == 'one':
                    err = err.reshape(-1).clone()
                    err[0] = 1e4 * (1 + x.abs().max().item())
                    err = err.reshape(x.shape)
                elif scn['what'] == 'estimate':
                    err = err * 0 + float(value)
            return f_new, x_new, err, stages
    clean = Field(env, w)
    adaptive(env, scn, clean, ts, x0, Party(dt))
    fld = Field(env, w)
    on[0] = True
    # every committed step in the region is at least a hundredth of the threshold, and every one may be preceded by
    # rejected attempts to grow
    bound = 2 * clean.n + 60 + 90 * 6 + (2 if scn['entry'] == 'adjoint' else 1) * 7 * 20 * (hi - lo) / h
    env.max_evals = env.evals + int(bound) + 10
    out = adaptive(env, scn, fld, ts, x0, Party(dt))
    env.metric('coarse-work', fld.n / bound)
    env.metric('coarse-per-step', (fld.n - clean.n) / ((hi - lo) / h + 10))
    te = out[0]
    need(abs(float(te[-1]) - ts[-1]) <= 8 * EPS[scn['dtype']] * max(1., abs(ts[-1]), abs(ts[0])), 'not-at-end',
         f'{float(te[-1])} instead of {ts[-1]}')
    env.simtime += 2 * span
    env.ev('coarse', fld.n, clean.n, len(log), env.T(out[1]))
    env.sig('coarse', scn['entry'], fld.n, clean.n, len(log))


def run_persistent(env, scn):
    dt = DT[scn['dtype']]
    w, ts = make_world(scn['spec']), spans(scn)
    x0 = draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt)
    fld = Region(env, w)
    fld.value = scn['value']
    fld.sgn = 1. if ts[-1] > ts[0] else -1.
    back = scn['entry'] == 'adjoint'
    if scn['where'] == 'initial':
        fld.idx = 0
    elif scn['where'] == 'index':
        fld.idx = max(3, scn['at']) if back else scn['at']
    else:
        fld.cut = ts[0] + (ts[-1] - ts[0]) * scn['at']
        if back:
            fld.sgn = -fld.sgn
    env.max_evals = 60_000
    try:
        out = adaptive(env, scn, fld, ts, x0)
    except Exception as e:
        if isinstance(e, Violation):
            raise
        need(fld.fired, 'spurious-error', f'{type(e).__name__}: {e} without any fault')
        env.ev('raised', type(e).__name__, fld.n)
        env.sig('persistent', scn['entry'], scn['where'], fld.n)
        return
    env.nontrivial = env.nontrivial or fld.fired > 0
    # (evaluations after the last step of a backward pass only serve the unused gradient of the times)
    need(fld.fired <= (2 if back else 0), 'returned-despite-nan',
         lambda: f'the field is {scn["value"]} from evaluation {fld.idx} / time {fld.cut} on, '
                 f'yet the solve returned {out[1][-1].flatten()[:3].tolist()} at {float(out[0][-1])}')
    env.ev('finished-before', fld.n)
    env.sig('persistent', scn['entry'], scn['where'], 'done')


def counting(base, counter):
    class C(base):
        def step(self, *a, **k):
            counter.append(1)
            return super().step(*a, **k)
    return C


def run_fixed(env, scn):
    from torchdyn.core import NeuralODE, ODEProblem
    from torchdyn.numerics.odeint import odeint
    from torchdyn.numerics.solvers import ode
    from torchdyn.numerics.solvers.hyper import HyperEuler
    dt = DT[scn['dtype']]
    w, ts = make_world(scn['spec']), spans(scn)
    x0 = draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt)
    faults = [] if scn['nan_at'] is None else [dict(kind='nan', at=scn['nan_at'])]
    fld = Field(env, w, faults)
    if scn['solver'] == 'alf':
        x0 = torch.cat([x0, x0], -1)
    steps = []
    base = dict(euler=ode.Euler, midpoint=ode.Midpoint, rk4=ode.RungeKutta4, alf=ode.AsynchronousLeapfrog,
                hypereuler=HyperEuler, ieuler=ode.ImplicitEuler)[scn['solver']]
    C = counting(base, steps)
    solver = C(lambda t, x: x) if scn['solver'] == 'hypereuler' else C(dtype=dt)
    t_span = torch.tensor(ts, dtype=dt)
    e = scn['entry']
    if e == 'odeint':
        te, sol = odeint(fld, x0, t_span, solver)
    elif e == 'problem':
        te, sol = ODEProblem(FieldModule(fld), solver)(x0, t_span)
    elif e == 'neuralode':
        te, sol = NeuralODE(FieldModule(fld), solver)(x0, t_span)
    else:
        sol, te = NeuralODE(FieldModule(fld), solver).trajectory(x0, t_span), t_span
    need(len(steps) == len(ts) - 1, 'step-count', f'{len(steps)} steps for {len(ts) - 1} intervals of {ts[:20]}')
    need(len(sol) == len(te) == len(ts), 'count', f'{len(sol)} states for {len(ts)} times')
    env.nontrivial = True
    env.simtime += abs(ts[-1] - ts[0])
    env.ev('fixed', scn['solver'], fld.n, env.T(sol))
    env.sig('fixed', scn['solver'], e, len(ts), fld.n, scn['nan_at'])


def run_sde(env, scn):
    from torchdyn.core.defunc import SDEFunc
    from torchdyn.numerics.sdeint import sdeint
    dt = torch.float64
    w, ts = make_world(scn['spec']), scn['ts']
    x0 = draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt)
    faults = [] if scn['nan_at'] is None else [dict(kind='nan', at=scn['nan_at'])]
    f, g = Field(env, w, faults), Field(env, w)
    q = []

    def bm(a, b):
        env.work()
        q.append((float(a), float(b)))
        return torch.full_like(x0, .1 * math.sin(3 * float(b)) - .1 * math.sin(3 * float(a)))
    sde = SDEFunc(f=lambda t, x: f(t, x), g=lambda t, x: g(t, x) * .1, noise_type='diagonal',
                  sde_type='ito' if scn['solver'] in ('euler', 'milstein_ito') else 'stratonovich')
    te, sol = sdeint(sde, x0, torch.tensor(ts, dtype=dt), scn['solver'], bm)
    need(len(te) == len(sol) == len(ts), 'count', f'{len(sol)} states for {len(ts)} times')
    need(f.n == len(ts) - 1, 'step-count', f'drift evaluated {f.n} times for {len(ts) - 1} intervals')
    env.nontrivial = True
    env.simtime += ts[-1] - ts[0]
    env.ev('sde', f.n, g.n, env.T(sol))
    env.sig('sde', scn['solver'], len(ts), scn['nan_at'])


class BallWorld(World):
    """Free fall; bouncing with restitution below one accumulates infinitely many events in finite time."""
    dim = 2

    def f(self, t, x):
        return torch.stack([x[:, 1], -9.8 * torch.ones_like(x[:, 1])], 1)


class Bounce:
    def __init__(self, env, zeno):
        self.env, self.zeno, self.jumps, self.on = env, zeno, 0, True

    def check_event(self, t, x):
        self.env.work()
        if self.zeno == 'always':
            return True
        if self.zeno == 'toggle':
            return bool((x[:, 0] < 50).all()) and self.on
        return bool((x[:, 0] <= 0).any() and (x[:, 1] < 0).any())

    def jump_map(self, t, x):
        self.jumps += 1
        self.env.fault('jump-' + self.zeno)
        if self.zeno == 'always':
            return x + 0.
        if self.zeno == 'toggle':
            return x * .99
        return torch.stack([x[:, 0].abs(), -.6 * x[:, 1]], 1)


def run_zeno(env, scn):
    from torchdyn.numerics.odeint import odeint_hybrid
    x0 = torch.tensor([[1. + .1 * (scn['xseed'] % 7), 0.]], dtype=torch.float64)
    fld = Field(env, BallWorld())
    cb = Bounce(env, scn['zeno'])
    env.max_evals = 30_000
    n = 1 + scn['xseed'] % 3
    t_span = torch.linspace(0, 3., n + 1, dtype=torch.float64)
    te, sol = odeint_hybrid(fld, x0, t_span, scn['j_span'], scn['solver'], [cb], atol=scn['atol'], rtol=scn['rtol'],
                            event_tol=scn['event_tol'], priority=scn['priority'])
    extra = 1 if scn['priority'] == 'jump' else 0  # (the jump at the initial time is taken before the budget is read)
    need(cb.jumps <= max(scn['j_span'], extra), 'too-many-jumps', f'{cb.jumps} jumps, j_span={scn["j_span"]}')
    need(cb.jumps >= scn['j_span'] or float(te[-1]) == 3., 'stopped-early',
         f'{cb.jumps} jumps of {scn["j_span"]} at time {float(te[-1])}')
    env.nontrivial = True
    env.simtime += 3.
    env.ev('zeno', cb.jumps, fld.n, env.T(sol))
    env.sig('zeno', scn['zeno'], scn['j_span'], cb.jumps, fld.n)


def run_ms(env, scn):
    from torchdyn.numerics.odeint import odeint_mshooting
    dt = DT[scn['dtype']]
    spec = dict(scn['spec'], kind='decay')
    w = make_world(spec)
    n, m = scn['n'], scn['fine']
    faults = [] if scn['nan_at'] is None else [dict(kind='nan', at=scn['nan_at'])]
    fld = Field(env, w, faults)
    x0 = draw_x0(spec, scn['batch'], scn['xseed'], dt)
    it = min(scn['maxiter'] + 1, n)
    # per iteration: one batched coarse and fine sweep (at most 4 stages per step) and n serial coarse sweeps
    bound = (n - 1) * 4 + it * (m - 1) * (4 + 4 + 4 * n) + 10
    env.max_evals = bound
    te, sol = odeint_mshooting(fld, x0, torch.linspace(0, 1, n, dtype=dt), scn['method'], fine_steps=m,
                               maxiter=scn['maxiter'])
    need(len(sol) == n, 'count', f'{len(sol)} points for {n} times')
    env.nontrivial = True
    env.metric('ms-work', fld.n / bound)
    env.ev('ms', fld.n, env.T(sol))
    env.sig('ms', scn['method'], n, m, scn['maxiter'], scn['nan_at'])


class Square(World):
    def f(self, t, x):
        return x * x


def run_blowup(env, scn):
    dt = DT[scn['dtype']]
    x0 = torch.full((1, 2), 1. + .1 * (scn['xseed'] % 5), dtype=dt)
    fld = Field(env, Square())
    env.max_evals = 30_000
    env.nontrivial = True
    try:
        adaptive(env, scn, fld, scn['ts'], x0)
        raise Violation('integrated-through-blowup', 'the solution does not exist on the whole span')
    except Violation:
        raise
    except Exception as e:
        env.ev('raised', type(e).__name__, fld.n)
    env.metric('blowup-evals', fld.n)
    env.sig('blowup', scn['entry'], fld.n)


def run_ulp(env, scn):
    """Requested times a few floating-point spacings apart."""
    dt = DT[scn['dtype']]
    spec = dict(kind='decay', dim=2, a=1.)
    o = torch.tensor(scn['o'], dtype=dt)
    ulp = (torch.nextafter(o, o + 1) - o).item() if scn['o'] else EPS[scn['dtype']]
    ts = [o.item()]
    for g in scn['gaps']:
        ts.append((torch.tensor(ts[-1], dtype=dt) + g * ulp).item())
    fld = Field(env, make_world(spec))
    env.max_evals = 8_000
    env.nontrivial = True
    x0 = draw_x0(spec, 1, scn['xseed'], dt)
    te, sol = adaptive(env, scn, fld, ts, x0)
    need([float(v) for v in te][-1] == ts[-1], 'not-at-end', f'{te.tolist()} for {ts}')
    env.metric('ulp-evals', fld.n)
    env.ev('ulp', fld.n, env.T(sol))
    env.sig('ulp', scn['entry'], scn['o'], len(ts), fld.n)
