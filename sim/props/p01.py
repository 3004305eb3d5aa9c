"""P01: adaptive solves deliver every requested time once, in order, with its state."""
import bisect

import torch

from ..core import Violation
from ..grids import draw_ts
from ..worlds import DT, EPS, Field, FieldModule, draw_world, Packed, draw_x0, make_world, need, relerr

COUNT = dict(quick=6000, thorough=150000)
RULE = ('one run = one adaptive solve of a world with known exact flow through one entry point (odeint, ODEProblem, '
        'NeuralODE forward/trajectory), drawn span/direction/tolerances/precision/interpolation, with seeded field '
        'faults (NaN/Inf windows) and solver faults (forced rejections); non-trivial when a fault fired or at least one '
        'trial step was truncated or rejected; distinct by the sequence of accepted/rejected trial steps per interval')
REAL = ['torchdyn.numerics.odeint (adaptive driver, step control, interpolation)', 'dopri5/tsit5 steppers',
        'ODEProblem / NeuralODE dispatch', 'torch']
STUB = ['vector field (exactly solvable world with fault injection)', 'solver subclass that can veto a trial step']
ASSUMPTIONS = ['accuracy is judged against the exact flow with calibrated constants; errors below them go unnoticed',
               'single precision only on |t| <= 10']

ENTRIES = ['odeint', 'problem', 'neuralode', 'trajectory', 'symplectic']
NAMES = {'dopri5': ['dopri5', 'DormandPrince45', 'DormandPrince5'], 'tsit5': ['tsit5', 'Tsitouras45', 'Tsitouras5']}
SHRINK = {'form': ('choice', ['tensor']), 'faults': ('list', 0), 'ts': ('list', 2), 'entry': ('choice', ENTRIES), 'batch': ('int', 1),
          'all': ('choice', [False]), 'interp': ('choice', [None, 'str']), 'spec.kind': ('choice', ['decay']),
          'inst': ('choice', [False]), 'rev': ('choice', [False]), 'pack': ('choice', [None])}


def generate(rng, i):
    spec = draw_world(rng)
    entry = rng.choice(ENTRIES + ['odeint'] * 3)
    ts = draw_ts(rng)
    faults = []
    if rng.random() < .6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(['nan', 'inf', '-inf', 'reject', 'reject'])
            faults.append(dict(kind=k, at=rng.choice([1, 2, 3, 5, 8, 13, 20, 40]) if k != 'reject' else
                               rng.choice([0, 1, 2, 3, 4, 6, 9]), len=rng.choice([1, 1, 2, 6, 12])))
    dtype = rng.choice(['f32', 'f64', 'f64'])
    if dtype == 'f32':  # every rejection shrinks the step fivefold: few fit between 1e-4 and the spacing of floats
        faults = faults[:1]
        for f in faults:
            f['len'] = min(f['len'], 2)
    tol = rng.choice([1e-2, 1e-3, 1e-4, 1e-5]) if dtype == 'f32' else rng.choice([1e-2, 1e-3, 1e-4, 1e-6, 1e-8])
    return dict(spec=spec, entry=entry, ts=ts, rev=rng.random() < .35, batch=rng.choice([1, 2, 3]),
                xseed=rng.randrange(10 ** 6), dtype=dtype, atol=tol, rtol=tol * rng.choice([1, 1, .1, 10]),
                solver=rng.choice(['dopri5', 'tsit5']), inst=rng.random() < .4 or any(
                    f['kind'] == 'reject' for f in faults),
                interp=rng.choice([None, None, 'str', 'obj']) if entry not in ('trajectory', 'symplectic') else None,
                form=rng.choice(['tensor'] * 6 + ['list', 'grad', 'strided']),
                all=entry == 'odeint' and rng.random() < .3, faults=faults,
                pack=rng.choice([None] * 6 + ['flat', 'deep', 'tall', 'complex', 'complex']))


def make_solver(env, scn, log):
    """A solver party: the real stepper, which can additionally veto a trial (huge error estimate)."""
    from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
    base = DormandPrince45 if scn['solver'] == 'dopri5' else Tsitouras45
    veto = set()
    for f in scn['faults']:
        if f['kind'] == 'reject':
            veto |= set(range(f['at'], f['at'] + f['len']))

    class Party(base):
        n = 0

        def step(self, f, x, t, dt, k1=None, args=None):
            k = self.n
            self.n += 1
            f_new, x_new, err, stages = super().step(f, x, t, dt, k1=k1, args=args)
            log.append(float(t))
            if k in veto:
                env.fault('forced-rejection')
                err = err.abs() + 1e6 * (1 + x.abs().max())  # (a NaN estimate stays one)
            return f_new, x_new, err, stages
    return Party(DT[scn['dtype']])


class Timed(Field):
    """Also records where it is evaluated."""
    def __init__(self, *a):
        super().__init__(*a)
        self.times = []

    def __call__(self, t, x, args=None):
        self.times.append(float(t.real))
        return super().__call__(t, x, args)


def execute(env, scn):
    from torchdyn.numerics.odeint import odeint
    from torchdyn.core import NeuralODE, ODEProblem
    dt = DT[scn['dtype']]
    w = Packed(make_world(scn['spec']), scn.get('pack'))
    ts = list(reversed(scn['ts'])) if scn['rev'] else list(scn['ts'])
    t_span = torch.tensor(ts, dtype=dt)
    x0 = w.pack(draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt))
    x_in = x0.clone()
    ts_in = t_span.clone()
    fld = Timed(env, w, scn['faults'])
    log = []
    solver = make_solver(env, scn, log) if scn['inst'] else NAMES[scn['solver']][scn['xseed'] % 3]
    interp = None
    if scn['interp'] == 'str':
        interp = '4th'
    elif scn['interp'] == 'obj':
        from torchdyn.numerics.interpolators import str_to_interp
        interp = str_to_interp('4th', dt)
    a, r = scn['atol'], scn['rtol']
    entry, span, form = scn['entry'], t_span, scn.get('form')
    if form == 'list' and entry in ('odeint', 'symplectic') and not scn['rev']:
        span = [torch.tensor([t], dtype=dt) for t in ts]
    elif form == 'grad':
        span = t_span.clone().requires_grad_(True)
    elif form == 'strided':  # views into larger tensors
        span = torch.stack([t_span, t_span + 1], 1)[:, 0]
        x_in = torch.stack([x_in, x_in + 1], -1)[..., 0]
    if entry == 'odeint':
        t_eval, sol = odeint(fld, x_in, span, solver, atol=a, rtol=r, interpolator=interp,
                             return_all_eval=scn['all'])
    elif entry == 'problem':
        t_eval, sol = ODEProblem(FieldModule(fld), solver, interpolator=interp, atol=a, rtol=r)(x_in, span)
    elif entry == 'symplectic':
        from torchdyn.numerics.odeint import odeint_symplectic
        fld.order = 2
        t_eval, sol = odeint_symplectic(fld, x_in, span, solver, atol=a, rtol=r)
    elif entry == 'neuralode':
        t_eval, sol = NeuralODE(FieldModule(fld), solver, interpolator=interp, atol=a, rtol=r)(x_in, span)
    else:
        sol = NeuralODE(FieldModule(fld), solver, atol=a, rtol=r).trajectory(x_in, span)
        t_eval = t_span
    t_eval, sol = t_eval.detach(), sol.detach()
    env.simtime += abs(ts[-1] - ts[0])
    eps = EPS[scn['dtype']]
    tmax = max(abs(v) for v in ts)

    # ---------------- delivery
    need(t_eval.dim() == 1 and len(t_eval) == len(sol), 'shape', f'{t_eval.shape} times, {sol.shape} states')
    need(torch.equal(x_in, x0) and torch.equal(t_span, ts_in), 'input-modified')
    need(sol.dtype == x0.dtype and tuple(sol.shape[1:]) == tuple(x0.shape), 'shape', f'{sol.dtype} {tuple(sol.shape)}')
    te = [float(v) for v in t_eval]
    req = [float(v) for v in t_span]
    slack = 4 * eps * max(tmax, 1e-30)
    s = -1. if scn['rev'] else 1.
    if scn['all']:
        # (a fault can shrink a step below the spacing of floats: it is then committed without advancing time)
        need(all(s * (q - p) > 0 or (q == p and env.faults) for p, q in zip(te, te[1:])), 'order', f'times not strictly ordered: {te[:40]}')
        idx, j = [], 0
        for v in req:
            while j < len(te) and abs(te[j] - v) > slack:
                j += 1
            need(j < len(te), 'missing-time', f'requested {v} is not among {te[:40]}')
            while j + 1 < len(te) and abs(te[j + 1] - v) <= abs(te[j] - v):
                j += 1
            idx.append(j)
        idx[0] = 0
        need(idx[0] == 0 and idx[-1] == len(te) - 1, 'outside-span', f'{te[:3]}..{te[-3:]} for {req}')
    else:
        need(len(te) == len(req), 'count', f'{len(req)} times requested, {len(te)} returned: {te[:40]} for {req[:40]}')
        need(all(abs(p - q) <= slack for p, q in zip(te, req)), 'times', f'{te[:40]} for {req[:40]}')
        idx = list(range(len(req)))

    # ---------------- states
    need(torch.equal(sol[0], x0), 'initial-state', 'first returned state is not the initial one')
    need(bool(torch.isfinite(sol).all()), 'non-finite', 'solution contains non-finite values')
    sol = torch.stack([w.un(v) for v in sol])
    times = sorted(fld.times)
    worst = 0.
    for p in range(1, len(te)):
        ref = w.flow(te[p - 1], te[p], sol[p - 1])
        xm = max(sol[p - 1].abs().max().item(), sol[p].abs().max().item())
        amp = w.growth(te[p - 1], te[p])
        lo, hi = min(te[p - 1], te[p]), max(te[p - 1], te[p])
        # local errors committed on the way from one point to the next
        steps = (bisect.bisect_right(times, hi + slack) - bisect.bisect_left(times, lo - slack)) / 6 + 1 + 2 * (interp is not None)
        tol = tolerance(scn, steps, a, r, xm, amp, eps, tmax, w, interp is not None and scn['solver'] == 'dopri5')
        e = relerr(sol[p], ref)
        worst = max(worst, e / tol)
        if e > tol:
            raise Violation('accuracy', f'state at t={te[p]} is off by {e:.3g} (allowed {tol:.3g}) after flowing from '
                                        f't={te[p-1]}; {sol[p].flatten()[:4].tolist()} vs {ref.flatten()[:4].tolist()}')
    env.metric('acc-%s%s' % (scn['dtype'], '-interp' if interp is not None and scn['solver'] == 'dopri5' else ''), worst)
    n = len(te)
    env.ev('sol', entry, n, fld.n, env.T(sol), env.T(t_eval))
    env.sig(entry, scn.get('pack'), scn['rev'], scn['interp'], scn['all'], len(req), fld.n, tuple(sorted(env.faults.items())))
    env.nontrivial = env.nontrivial or fld.n > 8 + 6 * 2
    env.probe('reversed', scn['rev'])
    env.probe('state-' + str(scn.get('pack')))
    env.probe('interpolated', interp is not None)
    env.probe('all-points', scn['all'])
    env.probe('times-requested', len(req))


def tolerance(scn, steps, a, r, xm, amp, eps, tmax, w, interp):
    tol = 3. * steps * (a + r * xm) * amp
    if interp:
        tol = 4. * steps * (a + r * xm) ** .8 * max(1., xm) ** .2 * amp
    return tol + 8 * steps * eps * (xm + 1 + tmax * w.lip() * (xm + 1)) * amp
