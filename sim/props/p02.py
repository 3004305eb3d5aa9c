"""P02: only error-controlled trial steps are committed; rejected ones leave no trace."""
import math
import random

import torch

from ..core import Violation
from ..grids import draw_ts
from ..worlds import DT, EPS, Field, FieldModule, draw_world, draw_x0, make_world, need

COUNT = dict(quick=6000, thorough=140000)
RULE = ('one run = one adaptive solve (odeint with/without interpolation, odeint_hybrid without events, backward pass of '
        'the adjoint) whose trial steps are produced by the real stepper under field faults, or by a scripted stepper '
        'returning a drawn sequence of error estimates (0 .. 1e9, inf, NaN, exactly one, one-hot); every trial is '
        'recorded and the chain replayed against an independent error-control model; non-trivial when at least one '
        'trial was rejected or truncated; distinct by the accept/reject/truncate sequence')
REAL = ['adaptive drivers of odeint and odeint_hybrid', 'step-size control', 'dopri5/tsit5 (non-scripted runs)',
        'adjoint backward driver']
STUB = ['recording solver subclass', 'scripted solver (adversarial error estimates)', 'vector field with faults']
ASSUMPTIONS = ['trials whose error ratio is within 1e-4 of one are not judged (except ratios that are exactly one)']
ENTRIES = ['odeint', 'odeint', 'hybrid', 'neuralode', 'adjoint']
SHRINK = {'faults': ('list', 0), 'script': ('list', 1), 'ts': ('list', 2), 'batch': ('int', 1),
          'entry': ('choice', ['odeint']), 'interp': ('choice', [False]), 'rev': ('choice', [False]),
          'spec.kind': ('choice', ['decay']), 'semi': ('choice', [0])}


def generate(rng, i):
    entry = rng.choice(ENTRIES)
    scripted = rng.random() < .55 and entry != 'adjoint'
    spec = draw_world(rng)
    ts = draw_ts(rng)
    if entry == 'adjoint':
        ts = [ts[0], ts[-1]]
        if spec['kind'] == 'logistic':  # a state past the equilibrium escapes in finite time when it is retraced
            spec['kind'] = 'drivendecay'
    dtype = rng.choice(['f32', 'f64', 'f64'])
    faults = []
    if not scripted and rng.random() < .5:
        for _ in range(1 if dtype == 'f32' else rng.choice([1, 2, 3])):
            faults.append(dict(kind=rng.choice(['nan', 'inf']), at=rng.choice([2, 3, 5, 8, 13, 21, 40]),
                               len=rng.choice([1, 2, 6])))
    script = []
    if scripted:
        style = rng.choice(['mixed', 'mixed', 'accepty', 'burst', 'growing'])
        for _ in range(rng.choice([3, 6, 12, 20])):
            if style == 'accepty':
                v = rng.choice([0., .1, .5, .9, .99, 1.01])
            elif style == 'growing':
                v = rng.choice([0., 1e-6, 1e-3, .3])
            elif style == 'burst':
                v = rng.choice([1.5, 30., 1e9, 'nan', 'inf'])
            else:
                v = rng.choice([0., 1e-4, .3, .9, .999, 1.001, 1.1, 3., 1e3, 'nan', 'inf'])
            script.append([v, rng.choice(['flat', 'flat', 'rand', 'onehot'])])
        if dtype == 'f32':
            script = script[:8]
    exact = scripted and rng.random() < .2
    if exact:
        script = [[rng.choice([1., 1., .5, 2.]), 'flat'] for _ in script]
    tol = rng.choice([1e-2, 1e-3, 1e-4] if dtype == 'f32' else [1e-2, 1e-3, 1e-5, 1e-7])
    batch = rng.choice([1, 2, 3])
    semi = rng.choice([0, 0, 1]) if entry in ('odeint', 'hybrid') and batch > 1 else 0
    if semi or entry == 'adjoint':
        faults = []  # NaNs outside of a seminorm, or in the first evaluation of a backward solve, are not controlled
    return dict(entry=entry, spec=spec, ts=ts, dtype=dtype, batch=batch, xseed=rng.randrange(10 ** 6),
                rev=rng.random() < .3 and entry != 'hybrid', solver=rng.choice(['dopri5', 'tsit5']), faults=faults,
                script=script, exact=exact, atol=2. ** -7 if exact else tol,
                rtol=0. if exact else tol * rng.choice([1, 1, .01, 10]), interp=entry in ('odeint', 'neuralode') and
                rng.random() < .25, semi=semi,
                all=rng.random() < .3 and entry == 'odeint')


def make_solver(env, scn, recs, fld):
    from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
    base = DormandPrince45 if scn['solver'] == 'dopri5' else Tsitouras45
    script = scn['script']

    class Spy(base):
        def step(self, f, x, t, dt, k1=None, args=None):
            k1_in = k1
            x_in = x.detach().clone()
            t_in = t.detach().clone().reshape(-1)[0]
            fld.quiet = True
            with torch.no_grad() if scn['entry'] != 'adjoint' else torch.enable_grad():
                ref = f(t, x)
            fld.quiet = False
            if script:
                i = len(recs)
                k1 = f(t, x) if k1 is None else k1
                x_new = x + dt * k1.clamp(-3., 3.)
                f_new = f(t + dt, x_new)
                v = script[i] if i < len(script) else [1e-3, 'flat']
                if not float(v[0]) <= 1:
                    env.fault('scripted-error-%s' % (v[0] if isinstance(v[0], str) else v[1]))
                err = shape_error(scn, x, x_new, *v)
                stages = (k1,) * 7
            else:
                f_new, x_new, err, stages = super().step(f, x, t, dt, k1=k1, args=args)
            recs.append(dict(t=t_in, x=x_in, dt=dt.detach().clone().reshape(-1)[0], k1=None if k1_in is None else
                             k1_in.detach().clone(), ref=ref.detach(), x_new=x_new.detach().clone(),
                             err=err.detach().clone()))
            return f_new, x_new, err, stages
    return Spy(DT[scn['dtype']])


def shape_error(scn, x, x_new, ratio, pattern):
    """An error estimate whose weighted root mean square is `ratio`."""
    ratio = float(ratio)
    scale = scn['atol'] + scn['rtol'] * torch.max(x.abs(), x_new.abs()).detach()
    n = x.shape[0] if not scn['semi'] else scn['semi']
    m = x[:n].numel()
    if pattern == 'onehot':
        u = torch.zeros_like(x)
        u.reshape(-1)[(m - 1) // 2] = math.sqrt(m)
    elif pattern == 'rand' and math.isfinite(ratio):
        r = random.Random(f'{scn["xseed"]}/{ratio}')
        u = torch.tensor([r.choice([-1, 1]) * r.uniform(.2, 2.) for _ in range(x.numel())], dtype=x.dtype).reshape(x.shape)
        u = u / u[:n].pow(2).mean().sqrt()
    else:
        u = torch.ones_like(x)
    err = ratio * scale * u if math.isfinite(ratio) else torch.full_like(x, ratio)
    if scn['semi']:
        err[n:] = 1e6 * scale[n:]  # outside of the seminorm: must not count
    return err


def ratio_of(r, atol, rtol, semi):
    n = semi if semi else len(r['x'])
    e, a, b = (r[k][:n].double() for k in ('err', 'x', 'x_new'))
    return ((e / (atol + rtol * torch.max(a.abs(), b.abs()))) ** 2).mean().sqrt().item()


def execute(env, scn):
    from torchdyn.numerics.odeint import odeint, odeint_hybrid
    from torchdyn.core import NeuralODE, ODEProblem
    dtype, eps = DT[scn['dtype']], EPS[scn['dtype']]
    w = make_world(scn['spec'])
    ts = list(reversed(scn['ts'])) if scn['rev'] else list(scn['ts'])
    t_span = torch.tensor(ts, dtype=dtype)
    x0 = draw_x0(scn['spec'], scn['batch'], scn['xseed'], dtype)
    fld = QuietField(env, w, scn['faults'])
    recs = []
    solver = make_solver(env, scn, recs, fld)
    a, r = scn['atol'], scn['rtol']
    interp = '4th' if scn['interp'] else None
    semi = (True, scn['semi']) if scn['semi'] else (False, None)
    entry = scn['entry']
    if entry == 'odeint':
        te, sol = odeint(fld, x0, t_span, solver, atol=a, rtol=r, interpolator=interp, seminorm=semi,
                         return_all_eval=scn['all'])
    elif entry == 'neuralode':
        te, sol = NeuralODE(FieldModule(fld), solver, interpolator=interp, atol=a, rtol=r)(x0, t_span)
    elif entry == 'hybrid':
        te, sol = odeint_hybrid(fld, x0, t_span, 5, solver, [Never()], atol=a, rtol=r, seminorm=semi)
    else:
        m = ODEProblem(Scaled(fld), solver, sensitivity='adjoint', atol=a, rtol=r, atol_adjoint=a, rtol_adjoint=r)
        x = x0.clone().requires_grad_(True)
        te, sol = m(x, t_span)
        cut = len(recs)
        chain(env, scn, recs[:cut], ts, a, r, 0, eps, te, sol.detach(), x0, w)
        (sol[-1] * torch.linspace(.5, 1.5, x0.numel(), dtype=dtype).reshape(x0.shape)).sum().backward()
        need(len(recs) > cut, 'adjoint-solver', 'the backward pass did not use the solver')
        chain(env, scn, recs[cut:], [ts[1], ts[0]], a, r, 2 * x0.numel(), eps, None, None, None, w)
        env.simtime += 2 * abs(ts[-1] - ts[0])
        finish(env, scn, recs, sol)
        return
    interped = interp is not None and scn['solver'] == 'dopri5'
    chain(env, scn, recs, ts, a, r, scn['semi'], eps, te, sol, x0, w, interped)
    env.simtime += abs(ts[-1] - ts[0])
    finish(env, scn, recs, sol)


def finish(env, scn, recs, sol):
    env.ev(scn['entry'], len(recs), env.T(sol))
    env.probe('trial-steps', len(recs))


class QuietField(Field):
    quiet = False

    def __call__(self, t, x, args=None):
        if self.quiet:
            return self.world.f(t, x)
        return super().__call__(t, x, args)


class Scaled(torch.nn.Module):
    """A field with a parameter (the adjoint needs one)."""
    def __init__(self, fld):
        super().__init__()
        self.fld, self.p = fld, torch.nn.Parameter(torch.ones(1))

    def forward(self, t, x, args={}):
        return self.p.to(x) * self.fld(t, x)


class Never:
    def check_event(self, t, x):
        return False

    def jump_map(self, t, x):
        raise Violation('spurious-event', 'jump map called without an event')


def chain(env, scn, recs, ts, atol, rtol, semi, eps, te, sol, x0, w, interped=False):
    """Replays the recorded trials against the error-control protocol."""
    need(len(recs) > 0, 'no-steps')
    s = 1. if ts[1] > ts[0] else -1.
    tfirst = float(recs[0]['t'])
    # a reversed solve may run in mirrored time (increasing -t) or in the caller's (negative steps)
    mirrored = s < 0 and float(recs[0]['dt']) > 0
    req = [float(torch.tensor(v, dtype=recs[0]['t'].dtype)) * (-1 if mirrored else 1) for v in ts]
    d = 1. if req[-1] > req[0] else -1.
    T = req[-1]
    tmax = max(abs(v) for v in req)
    slack = 8 * eps * max(tmax, 1e-30)
    need(abs(tfirst - req[0]) <= slack, 'start', f'first trial starts at {tfirst}, not {req[0]}')
    if x0 is not None:
        need(torch.equal(recs[0]['x'], x0), 'start', 'first trial does not start at the initial state')
    committed = [(req[0], recs[0]['x'])]
    pattern, run, run_dt = [], 0, None
    for i, r in enumerate(recs):
        t, dt = float(r['t']), float(r['dt'])
        need(dt * d >= 0, 'direction', f'trial {i} has step {dt}')
        nxt = next((v for v in req[1:] if d * (v - t) > slack), T)
        limit = T if interped else nxt
        need(d * (t + dt - limit) <= slack, 'overshoot',
             f'trial {i} from t={t} with step {dt} reaches past {limit}')
        if r['k1'] is not None:
            scale = r['ref'].abs().max().item() + (w.lip() + 1) * (r['x'].abs().max().item() + 1)
            e = (r['k1'].double() - r['ref'].double()).abs().max().item()
            # the reused derivative was evaluated at this very point, up to rounding of state and time
            tol = 64 * eps * scale * (1 + tmax)
            if not e <= tol:
                raise Violation('stale-derivative', f'trial {i} at t={t} starts with a derivative that is off by {e:.3g}')
        rho = ratio_of(r, atol, rtol, semi)
        last = i + 1 == len(recs)
        if not last:
            q = recs[i + 1]
            moved = torch.equal(q['x'], r['x_new']) and abs(float(q['t']) - (t + dt)) <= slack
            stayed = torch.equal(q['x'], r['x']) and abs(float(q['t']) - t) <= slack / 8
            if moved and stayed:
                verdict = 'ambiguous'
            elif moved:
                verdict = 'commit'
            elif stayed:
                verdict = 'reject'
            else:
                raise Violation('continuity', f'trial {i + 1} starts at t={float(q["t"])}, x={q["x"].flatten()[:3].tolist()}'
                                f' which is neither the start of trial {i} (t={t}) nor its end (t={t + dt})')
        else:
            verdict = 'commit'
            need(abs(t + dt - T) <= slack, 'end', f'last trial ends at {t + dt}, not at {T}')
        exact_one = scn['exact'] and abs(rho - 1) < 1e-12
        clear = exact_one or not abs(rho - 1) < (1e-4 if scn['dtype'] == 'f32' else 1e-7)
        if clear and verdict != 'ambiguous':
            should = 'commit' if rho <= 1 + 1e-12 else 'reject'
            if should != verdict:
                raise Violation('accepted-bad' if verdict == 'commit' else 'rejected-good',
                                f'trial {i} at t={t} with error ratio {rho:.6g} was {verdict}ed')
        if verdict == 'reject':
            env.nontrivial = True
            env.probe('rejected')
            q = recs[i + 1]
            need(d * float(q['dt']) <= d * dt * (1 + 1e-5), 'longer-retry',
                 f'trial {i} of length {dt} was rejected and retried with {float(q["dt"])}')
            if abs(t + dt - nxt) > slack and abs(t + dt - T) > slack:
                # (one cut short to meet a time may be retried at the same length, until the step falls below the cut)
                need(d * float(q['dt']) < d * dt, 'same-retry', f'trial {i} at t={t} of length {dt} with error ratio {rho:.6g} '
                                                                f'was rejected and retried with the same length')
            run, run_dt = (1, dt) if run == 0 else (run + 1, run_dt)
            if run >= 12:
                need(abs(float(q['dt'])) < abs(run_dt) * .9, 'same-retry',
                     f'{run} rejections at t={t} and the step is still {float(q["dt"])} (first was {run_dt})')
        else:
            run = 0
            committed.append((t + dt, r['x_new']))
        if abs(t + dt - nxt) <= slack:
            env.nontrivial = True
            pattern.append('T' if verdict == 'commit' else 't')
        else:
            pattern.append('a' if verdict == 'commit' else 'r')
    if sol is not None:
        # what is returned is what was committed
        need(torch.equal(sol[-1], recs[-1]['x_new']), 'result', 'the last returned state is not the last committed one')
        if not interped:
            for t, x in zip((-te if mirrored else te).tolist(), sol):
                hits = [c for c in committed if abs(c[0] - t) <= slack]
                need(any(torch.equal(c[1], x) for c in hits), 'result', f'state returned at t={t} was never committed there')
    env.sig(scn['entry'], scn['solver'], ''.join(pattern))
    env.ev(''.join(pattern))
