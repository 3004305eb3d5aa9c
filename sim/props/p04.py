"""P04: fixed-step solves are restartable: saved state plus remaining grid suffice."""
import math
import random

import torch

from ..core import SimFault, Violation
from ..grids import draw_ts
from ..worlds import DT, EPS, Field, FieldModule, Packed, draw_world, draw_x0, make_world, need, relerr, same

COUNT = dict(quick=5000, thorough=100000)
RULE = ('one run = one uninterrupted fixed-step ODE or SDE solve, the same solve performed by a checkpointing client that '
        'crashes in drawn field/drift/diffusion/noise calls and restarts from its last durable state on the remaining '
        'grid (same or fresh solver objects), and the same solve with drawn saved subsets in drawn container types; '
        'non-trivial when a crash fired or a proper subset was saved; distinct by entry, scheme, grid, crash points')
REAL = ['fixed-step ODE driver, SDE driver', 'all named fixed-step schemes, hypersolvers, ALF, implicit Euler',
        'ODEProblem/NeuralODE/NeuralSDE dispatch incl. adjoint classes (forward)']
STUB = ['vector field/drift/diffusion with crash injection', 'Brownian path (deterministic smooth path)',
        'checkpointing client and its durable store', 'solver for dictionary-valued states']
ASSUMPTIONS = ['equality up to accumulated floating-point rounding (implicit Euler: 1e-7)',
               'saved times are distinguishable on the grid by torch.isclose']
ODE = ['euler', 'midpoint', 'rk4', 'alf', 'hypereuler', 'hypermidpoint', 'hyperrk4', 'ieuler', 'dict']
SDE = ['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich']
ALIASES = {'rk4': ['rk4', 'rk-4', 'RungeKutta4'], 'alf': ['alf', 'AsynchronousLeapfrog'], 'ieuler': ['ieuler', 'implicit_euler']}
SHRINK = {'listspan': ('choice', [False]), 'cuts': ('list', 0), 'crashes': ('list', 0), 'keep': ('list', 1), 'ts': ('list', 2), 'batch': ('int', 1),
          'rev': ('choice', [False]), 'pack': ('choice', [None]), 'entry': ('choice', ['odeint', 'sdeint']), 'spec.kind': ('choice', ['decay'])}


def generate(rng, i):
    sde = rng.random() < .3
    spec = draw_world(rng, ['decay', 'growth', 'rotation', 'forced', 'drivendecay', 'gauss'])
    spec['a'] = min(spec['a'], 2.)
    ts = draw_ts(rng, n=rng.choice([2, 3, 4, 5, 7, 9, 12]), near=False)
    if rng.random() < .12:  # points close to each other, yet distinguishable
        gap = min(b - a for a, b in zip(ts, ts[1:]))
        c = rng.choice([1.5e-4, 1e-3]) / gap
        ts = [round(ts[0] + (t - ts[0]) * c, 9) for t in ts]
    scheme = rng.choice(SDE if sde else ODE[:3] * 2 + ODE)
    if scheme == 'ieuler':
        ts = ts[:4]  # steps whose equation has one solution
        spec['a'] = min(spec['a'], 1., .25 / max(b - a for a, b in zip(ts, ts[1:])))
        if spec['kind'] == 'gauss':
            spec['a'] /= 1 + max(map(abs, ts))
    n = len(ts)
    if sde:
        entry = rng.choice(['sdeint', 'sdeint', 'neuralsde'])
    else:
        entry = rng.choice(['odeint', 'odeint', 'problem', 'neuralode', 'adjoint', 'interpolated_adjoint', 'symplectic'])
        if scheme == 'dict' or scheme == 'ieuler' and entry not in ('neuralode', 'symplectic'):
            entry = 'odeint'
    pack = rng.choice([None] * 5 + ['flat', 'deep', 'tall', 'complex']) if scheme not in ('ieuler', 'dict', 'alf') and not sde else None
    keep = sorted(rng.sample(range(n), rng.randrange(1, n + 1)))
    return dict(sde=sde, scheme=scheme, pack=pack, spec=spec, ts=ts, entry=entry, rev=not sde and rng.random() < .35,
                dtype=rng.choice(['f64', 'f64', 'f64', 'f32']) if scheme != 'ieuler' else 'f64',
                batch=rng.choice([1, 2, 3]), xseed=rng.randrange(10 ** 6),
                cuts=sorted(rng.sample(range(1, n), rng.randrange(0, min(n - 1, 4) + 1))) if n > 2 else [],
                crashes=[rng.choice([0, 1, 2, 3, 5, 8]) for _ in range(rng.choice([0, 1, 2, 3]))],
                listspan=rng.random() < .1, fresh=rng.random() < .5, keep=keep, shuffle=rng.randrange(1000),
                form=rng.choice(['list', 'tensor', 'tensor', 'tensor32', 'tuple']))


class Crashing(Field):
    crash_at = None
    off = .0

    def __call__(self, t, x, args=None):
        self.times.append(float(t.real))
        if self.crash_at is not None and self.n >= self.crash_at:
            self.crash_at = None
            self.n = 0
            self.env.fault('crash')
            raise SimFault('crash')
        return super().__call__(t, x, args)


class Path:
    """A simulated Brownian path: fixed, deterministic, queried over arbitrary intervals."""
    def __init__(self, env, shape, seed, dtype):
        r = random.Random(f'W/{seed}')
        self.env, self.dtype = env, dtype
        n = math.prod(shape)
        self.c = [(torch.tensor([r.uniform(-.4, .4) for _ in range(n)], dtype=torch.float64).reshape(shape),
                   r.uniform(.5, 9.), r.uniform(0, 6.)) for _ in range(4)]
        self.queries = []
        self.crash_at = None

    def W(self, t):
        return sum(a * math.sin(w * t + p) for a, w, p in self.c)

    def __call__(self, a, b):
        self.env.work()
        a, b = float(a), float(b)
        self.queries.append((a, b))
        if self.crash_at is not None and len(self.queries) > self.crash_at:
            self.crash_at = None
            self.env.fault('crash-in-noise')
            raise SimFault('noise path')
        return (self.W(b) - self.W(a)).to(self.dtype)


def build(env, scn):
    """Fresh parties and a function solve(x, ts, save_at) running the real driver."""
    from torchdyn.core import NeuralODE, NeuralSDE, ODEProblem
    from torchdyn.core.defunc import SDEFunc
    from torchdyn.numerics.odeint import odeint, odeint_symplectic
    from torchdyn.numerics.sdeint import sdeint
    from torchdyn.numerics.solvers import hyper, ode
    dt = DT[scn['dtype']]
    w = Packed(make_world(scn['spec']), scn.get('pack'))
    fld = Crashing(env, w)
    fld.times = []
    s, e = scn['scheme'], scn['entry']
    span = (lambda ts: torch.tensor(ts, dtype=dt))
    if scn['sde']:
        path = Path(env, (scn['batch'], w.dim), scn['xseed'], dt)
        types = 'ito' if s in ('euler', 'milstein_ito') else 'stratonovich'

        def f(t, x):
            return fld(t, x)

        def g(t, x):
            return .3 + .2 * torch.sin(x + t)
        if e == 'sdeint':
            sde = SDEFunc(f=f, g=g, noise_type='diagonal', sde_type=types)
            return fld, path, lambda x, ts, sv=(): sdeint(sde, x, span(ts), s, path, save_at=sv)
        m = NeuralSDE(f, g, solver=s, sde_type=types, noise_type='diagonal', bm=path)
        return fld, path, lambda x, ts, sv=(): m(x, span(ts), save_at=sv)

    if s == 'dict':
        solver = dict_solver(ode)
    elif s.startswith('hyper'):
        solver = {'hypereuler': hyper.HyperEuler, 'hypermidpoint': hyper.HyperMidpoint,
                  'hyperrk4': hyper.HyperRungeKutta4}[s](hn, dtype=dt)
    elif scn['xseed'] % 2 or s == 'ieuler':
        solver = ode.str_to_solver(s, dt)
    else:
        solver = random.Random(scn['shuffle']).choice(ALIASES.get(s, [s]))
    if scn.get('listspan') and not scn['rev'] and e in ('odeint', 'symplectic'):
        span = (lambda ts: [torch.tensor([t], dtype=dt) for t in ts])
    if e == 'odeint':
        return fld, None, lambda x, ts, sv=(): odeint(fld, x, span(ts), solver, save_at=sv)
    if e == 'symplectic':
        fld.order = 1
        return fld, None, lambda x, ts, sv=(): odeint_symplectic(fld, x, span(ts), solver, save_at=sv)
    if e == 'neuralode':
        m = NeuralODE(FieldModule(fld), solver)
    else:
        m = ODEProblem(FieldModule(fld), solver, sensitivity='autograd' if e == 'problem' else e)
        if e == 'interpolated_adjoint' and isinstance(solver, str) is False:
            pass
    return fld, None, lambda x, ts, sv=(): m(x, span(ts), save_at=sv)


def hn(t, x):
    if x.is_complex():  # a bounded residual: complex sines are not
        return .1 * torch.complex(torch.sin(x.real + t.real), torch.sin(x.imag))
    return .1 * torch.sin(x + t.real)


def model_step(scheme, f, x, t, h, dt):
    """One step of the named scheme, written from its definition (None: no executable model of this scheme)."""
    if scheme == 'dict':
        return {'u': x['u'] + h * f(t, x['u']), 'v': x['v'] + h * x['u']}
    if scheme == 'alf':
        n = x.shape[-1] // 2
        q, v = x[..., :n], x[..., n:]
        mid = q + h / 2 * v
        v1 = 2 * f(t + h / 2, mid) - v
        return torch.cat([mid + h / 2 * v1, v1], -1)
    if scheme in ('euler', 'hypereuler'):
        y, p = x + h * f(t, x), 1
    elif scheme in ('midpoint', 'hypermidpoint'):
        y, p = x + h * f(t + h / 2, x + h / 2 * f(t, x)), 2
    elif scheme == 'hyperrk4':  # any Runge-Kutta method of order four: the repository's own
        from torchdyn.numerics.solvers import ode
        solver = ode.RungeKutta4(dtype=dt)
        solver.sync_device_dtype(x, t)
        y, p = solver.step(f, x, t, h)[1], 4
    else:
        return None
    return y + h ** (p + 1) * hn(t, x) if scheme.startswith('hyper') else y


def dict_solver(ode):
    class DictEuler(ode.SolverTemplate):
        def __init__(self):
            super().__init__(order=1)
            self.stepping_class = 'fixed'

        def step(self, f, x, t, dt, k1=None, args=None):
            k = f(t, x['u'])
            return None, {'u': x['u'] + dt * k, 'v': x['v'] + dt * x['u']}, None
    return DictEuler()


def wrap(scn, x):
    if scn['scheme'] == 'dict':
        return {'u': x, 'v': x * .5}
    if scn['scheme'] == 'alf':
        return torch.cat([x, x * .3], -1)
    return x


def pick(sol, i):
    return {k: v[i] for k, v in sol.items()} if isinstance(sol, dict) else sol[i]


def diff(a, b):
    if isinstance(a, dict):
        return max(relerr(a[k], b[k]) for k in a) if isinstance(b, dict) and a.keys() == b.keys() else float('inf')
    return relerr(a, b)


def size(a):
    return max(size(v) for v in a.values()) if isinstance(a, dict) else a.abs().max().item()


def copy(x):
    return {k: v.detach().clone() for k, v in x.items()} if isinstance(x, dict) else x.detach().clone()


def rows(sol):
    return len(next(iter(sol.values()))) if isinstance(sol, dict) else len(sol)


def execute(env, scn):
    dt, eps = DT[scn['dtype']], EPS[scn['dtype']]
    w = Packed(make_world(scn['spec']), scn.get('pack'))
    ts = list(reversed(scn['ts'])) if scn['rev'] else list(scn['ts'])
    n = len(ts)
    x0 = wrap(scn, w.pack(draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt)))
    x_in = copy(x0)

    # ---- the uninterrupted run
    fld, path, solve = build(env, scn)
    te, sol = solve(x_in, ts)
    sol, visited = copy(sol), list(fld.times)
    req = torch.tensor(ts, dtype=dt)
    need(same(x_in, x0), 'input-modified', 'the solve changed the initial state it was given')
    need(rows(sol) == n and torch.equal(te.detach(), req), 'grid', f'{te.tolist()} / {rows(sol)} states for {ts}')
    need(same(pick(sol, 0), x0), 'initial-state', 'first recorded state is not the initial one')
    lip = max(w.lip(), 1.) if scn['spec']['kind'] != 'gauss' else 2 * scn['spec']['a'] * max(map(abs, ts)) + 1
    grow = 1.
    for a, b in zip(ts, ts[1:]):
        grow *= 1 + abs(b - a) * lip * (2 if scn['scheme'] == 'alf' or scn['sde'] else 1)
    tmax = max(map(abs, ts))
    tol = .4 * eps * n * (tmax * (lip + 1) + 1) * (size(sol) + 1) * min(grow, 1e4) + \
        (1e-7 if scn['scheme'] == 'ieuler' else 0)
    # ---- exactly the given grid was visited
    slack = 16 * eps * n * (tmax + 1)
    lo, hi = min(ts), max(ts)
    need(all(lo - slack <= t <= hi + slack for t in fld.times), 'off-grid', 'the field was evaluated outside of the span')
    for t in ts[1:] if scn['scheme'] == 'ieuler' else ts[:-1]:  # (the implicit scheme looks at the end of a step)
        need(any(abs(t - u) <= slack for u in fld.times), 'off-grid',
             f'no evaluation at grid time {t}: {sorted(set(fld.times))[:20]}') if scn['scheme'] != 'alf' else None
    env.simtime += abs(ts[-1] - ts[0])

    # ---- every step is one of the scheme from one grid point to the next (its local error is that of its order)
    p = dict(euler=1, midpoint=2, rk4=4, hypereuler=1, hypermidpoint=2, hyperrk4=4).get(scn['scheme'])
    if p and not scn['sde']:
        for k in range(n - 1):
            a, b = w.un(pick(sol, k)), w.un(pick(sol, k + 1))
            h = abs(ts[k + 1] - ts[k])
            z = h * (lip + 1)
            if z <= .5:
                e = relerr(w.flow(ts[k], ts[k + 1], a), b)
                lim = {1: .6, 2: .2, 4: .02}[p] * (h + z) * z ** p * (1 + size(a)) + tol
                env.metric('local-' + scn['scheme'], e / lim)
                need(e <= lim, 'local-error', f'step from t={ts[k]} to t={ts[k + 1]} is off by {e:.3g} (allowed {lim:.3g})')

    # (how a solver's own extra state or correction behaves under time reversal is a convention, not checked)
    if not scn['sde'] and (not scn['rev'] or scn['scheme'] in ('euler', 'midpoint', 'ieuler')):
        pure = build(env, scn)[0]
        for k in range(n - 1):
            x, t, h = pick(sol, k), torch.tensor(ts[k], dtype=dt), torch.tensor(ts[k + 1], dtype=dt) - torch.tensor(ts[k], dtype=dt)
            if scn['scheme'] == 'ieuler':  # the defining equation of the step
                y = pick(sol, k + 1)
                e = relerr(y, x + h * pure(t + h, y))
                env.metric('step-ieuler', e / 2e-6)
                need(e <= 2e-6, 'scheme', f'step from t={ts[k]} to t={ts[k + 1]} misses its implicit equation by {e:.3g}')
                continue
            y = model_step(scn['scheme'], pure, x, t, h, dt)
            if y is None:
                break
            e = diff(pick(sol, k + 1), y)
            env.metric('step-' + scn['scheme'], e / tol / 5)
            need(e <= 5 * tol, 'scheme', f'step from t={ts[k]} to t={ts[k + 1]} differs by {e:.3g} from one of {scn["scheme"]} '
                                     f'(allowed {tol:.3g})')

    # ---- the crashing client
    crashes = list(scn['crashes'])
    marks = [0] + [c for c in scn['cuts'] if c < n - 1] + [n - 1]
    durable = copy(x0)
    got = [copy(x0)]
    parts = build(env, scn)
    for a, b in zip(marks, marks[1:]):
        for attempt in range(6):
            fld, path, run = parts
            fld.n = 0
            if crashes and scn['sde'] and crashes[0] % 2:
                path.crash_at = len(path.queries) + crashes.pop(0)
            elif crashes:
                fld.crash_at = crashes.pop(0)
            state = copy(durable)
            try:
                t2, part = run(state, ts[a:b + 1])
            except SimFault:
                if scn['fresh']:
                    parts = build(env, scn)
                continue
            need(same(state, durable), 'input-modified', 'a restarted solve changed its initial state')
            need(torch.equal(t2.detach(), req[a:b + 1]), 'grid', f'restart on {ts[a:b + 1]} returned {t2.tolist()}')
            got += [copy(pick(part, j)) for j in range(1, rows(part))]
            durable = copy(pick(part, rows(part) - 1))
            if fld.crash_at is not None:
                fld.crash_at = None
            if path is not None:
                path.crash_at = None
            break
        env.simtime += abs(ts[b] - ts[a])
    if len(marks) > 2:
        env.nontrivial = True
        env.fault('restart')
    need(len(got) == n, 'grid', f'{len(got)} of {n} states after restarts')
    for j in range(n):
        e = diff(pick(sol, j), got[j])
        env.metric('restart' if scn['scheme'] != 'ieuler' else 'restart-ieuler', e / tol)
        if not e <= tol:
            raise Violation('restart', f'state at t={ts[j]} differs by {e:.3g} (allowed {tol:.3g}) after restarts at '
                                       f'{[ts[m] for m in marks[1:-1]]}')

    # ---- saved subsets
    idx = [k for k in scn['keep'] if k < n] or [0]
    want = [ts[k] for k in idx]
    random.Random(scn['shuffle']).shuffle(want)
    sv = {'list': list, 'tuple': tuple, 'tensor': lambda v: torch.tensor(v, dtype=dt),
          'tensor32': lambda v: torch.tensor(v, dtype=torch.float32)}[scn['form']](want)
    fld, path, solve = build(env, scn)
    t3, sub = solve(copy(x0), ts, sv)
    need(rows(sub) == len(idx) == len(t3), 'save-count',
         f'{len(idx)} saved times {want} of {ts}: got {len(t3)} times and {rows(sub)} states')
    need(torch.equal(t3.detach(), req[idx]), 'save-times', f'saved {want}, got times {t3.tolist()}')
    need(fld.times == visited, 'off-grid', f'saving {want} of {ts} changes where the field is evaluated: '
                                           f'{len(fld.times)} evaluations instead of {len(visited)}')
    for j, k in enumerate(idx):
        e = diff(pick(sub, j), pick(sol, k))
        need(e <= (tol if scn['scheme'] == 'ieuler' else 0.), 'save-values',
             f'state saved for t={ts[k]} differs by {e:.3g} from the one of the full solve')
    if len(idx) < n:
        env.nontrivial = True
        env.probe('proper-subset-saved')
    env.ev(scn['entry'], scn['scheme'], n, str(marks), env.T(sol['u'] if isinstance(sol, dict) else sol))
    env.sig(scn['entry'], scn['scheme'], scn.get('pack'), scn['rev'], n, str(marks), tuple(idx), tuple(scn['crashes']))
