"""P15: members of a batch solved with fixed steps do not affect each other, whatever happens to some of them."""
import random

import torch
import torch.nn as nn

from ..core import Violation
from ..grids import draw_ts
from ..nets import Net, TimeFree, draw
from ..worlds import DT, EPS, need

COUNT = dict(quick=4000, thorough=70000)
RULE = ('one run = the solution of a batch (fixed-step ODE through every entry point, neural ODE with conditioning '
        'modules or trace estimators, SDE, parallel-in-time) compared, member '
        'by member, with solutions of batches in which the other members are poisoned from the start, fail at a drawn '
        'evaluation of the field, are removed, replaced, added or reordered; gradients with respect to the initial state '
        'likewise; non-trivial when another member failed or the batch was rearranged; distinct by kind, scheme, '
        'sensitivity, disturbance and place of the fault')
REAL = ['fixed-step ODE and SDE drivers', 'all named fixed-step ODE and SDE schemes',
        'ODEProblem/NeuralODE (autograd, adjoint, interpolated adjoint)', 'MSZero, MSBackward, odeint_mshooting',
        'CNF, hutch_trace, autograd_trace, HNN, GNF, LNN, DataControl, DepthCat, GalLinear, GalConv2d, Augmenter', 'higher-order neural ODEs']
STUB = ['fields that fail for single members', 'Brownian path per member', 'trace noise per member']
ASSUMPTIONS = ['fields act on each member alone; members are rows of the state (the second dimension for parallel-in-time)',
               'equality up to rounding when the batch has another size or order, since kernels depend on it']
KINDS = ['ode'] * 4 + ['net'] * 3 + ['control', 'depth', 'augment', 'cnf', 'hutch', 'sde', 'sde', 'ms', 'ms', 'order2', 'order2',
         'energy', 'gal', 'dict']
HOW = ['poison', 'poison', 'fault', 'fault', 'fault', 'subset', 'permute', 'extend', 'replace']
SHRINK = {'ts': ('list', 2), 'batch': ('int', 2), 'grad': ('choice', [False]), 'rev': ('choice', [False]),
          'entry': ('choice', ['odeint']), 'at': ('int', 0), 'how': ('choice', ['replace', 'subset'])}


def generate(rng, i):
    kind = rng.choice(KINDS)
    ts = draw_ts(rng, n=rng.choice([2, 3, 4, 6]), near=False, span=rng.choice([.5, 1., 2.]))
    scn = dict(kind=kind, ts=ts, rev=rng.random() < .3 and kind in ('ode', 'net', 'control', 'depth'),
               batch=rng.choice([2, 2, 3, 4, 5]), dim=rng.choice([1, 2, 3]), seed=rng.randrange(10 ** 6),
               dtype=rng.choice(['f64', 'f64', 'f32']), how=rng.choice(HOW), at=rng.choice([0, 0, 1, 2, 3, 5, 8, 13]),
               value=rng.choice(['nan', 'inf', '-inf', 'huge']), grad=rng.random() < .5,
               scheme=rng.choice(['euler', 'midpoint', 'rk4', 'hypereuler', 'hyperrk4', 'alf']),
               entry=rng.choice(['odeint', 'problem', 'neuralode', 'adjoint', 'interp']), keep=rng.randrange(1, 100))
    if kind == 'sde':
        scn['scheme'] = rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'])
        scn['entry'] = rng.choice(['odeint', 'neuralode'])
    elif kind in ('control', 'depth', 'augment', 'cnf', 'hutch', 'order2', 'energy', 'gal'):
        scn['scheme'] = rng.choice(['euler', 'midpoint', 'rk4'])
        scn['entry'] = rng.choice(['neuralode', 'adjoint', 'interp']) if kind == 'order2' else rng.choice(['neuralode', 'adjoint'])
        if kind == 'energy':
            scn['model'] = rng.choice(['HNN', 'GNF', 'LNN'])
            if scn['model'] == 'LNN':  # solves a linear system per member, which torch refuses for non-finite ones
                scn['how'], scn['value'] = rng.choice(['subset', 'permute', 'extend', 'replace']), 'huge'
    elif kind == 'dict':
        scn['entry'] = 'odeint'
    elif kind == 'ms':
        scn['scheme'] = rng.choice(['zero', 'backward'])
        scn['n'], scn['iters'], scn['fine'] = rng.choice([3, 4, 6]), rng.choice([0, 1, 2, 5]), rng.choice([2, 3])
        scn['guess'] = rng.random() < .4
        scn['grad'] = scn['grad'] and scn['scheme'] == 'zero'
    if scn['scheme'] == 'alf':
        scn['entry'] = rng.choice(['odeint', 'problem'])
    return scn


class Members(nn.Module):
    """A field acting on each member alone, which fails for some members from one evaluation on."""
    def __init__(self, env, scn, inner, axis=0):
        super().__init__()
        self.inner, self.axis = inner, axis
        self.env, self.n, self.bad, self.at, self.value = env, 0, None, 0, scn['value']

    def spoil(self, out):
        k = self.n
        self.n += 1
        self.env.work()
        if self.bad is None or k < self.at:
            return out
        self.env.fault('member-' + self.value)
        v = 1e12 if self.value == 'huge' else float(self.value)
        axis = self.axis % out.dim()
        m = torch.zeros(out.shape[axis], dtype=torch.bool)
        m[self.bad] = True
        m = m.reshape([-1 if d == axis else 1 for d in range(out.dim())])
        return torch.where(m, out * 0 + v, out)


class Timed(Members):
    def forward(self, t, x, args={}):
        return self.spoil(self.inner(t, x))


class Untimed(Members):
    def forward(self, x):
        return self.spoil(self.inner(x))


class Elementwise(nn.Module):
    """x' = -a x + b sin(3 x + t): every operation acts on single numbers."""
    def __init__(self, seed, dtype, time=True):
        super().__init__()
        r = random.Random(f'el/{seed}')
        self.a = nn.Parameter(torch.tensor(r.uniform(.2, 1.5), dtype=dtype))
        self.b = nn.Parameter(torch.tensor(r.uniform(-1, 1), dtype=dtype))
        self.time = time

    def forward(self, t, x):
        return -self.a * x + self.b * torch.sin(3 * x + (t if self.time else 0.))


class Energy(nn.Module):
    """A scalar of each member, convex enough to be a Lagrangian."""
    def __init__(self, dim, seed, dtype):
        super().__init__()
        self.net = TimeFree(dim, seed, dtype, out=1)

    def forward(self, x):
        return .1 * self.net(x) + (x ** 2).sum(-1, keepdim=True)


class Body(nn.Module):
    """A Galerkin layer between plain ones."""
    def __init__(self, dim, seed, dtype):
        super().__init__()
        from torchdyn.nn import DepthCat, GalConv2d, GalLinear
        seq = [DepthCat(1), GalLinear(dim, dim)]
        if seed % 3 == 0:  # the state read as an image of one row
            seq = [nn.Unflatten(1, (1, 1, dim)), DepthCat(1), GalConv2d(1, 1, 3, padding=1), nn.Flatten()]
        self.seq = nn.Sequential(*seq).to(dtype)
        with torch.no_grad():
            for k, p in enumerate(self.seq.parameters()):
                p.copy_(draw(p.numel(), 1, f'{seed}/{k}', dtype, -.3, .3).reshape(p.shape))

    def forward(self, x):
        return torch.tanh(self.seq(x))


def pair_solver(ode):
    class PairEuler(ode.SolverTemplate):
        def __init__(self):
            super().__init__(order=1)
            self.stepping_class = 'fixed'

        def step(self, f, x, t, dt, k1=None, args=None):
            return None, {'u': x['u'] + dt * f(t, x['u'] + x['w']), 'w': x['w'] + dt * x['u']}, None
    return PairEuler()


class FixedNoise:
    """The trace noise of each member."""
    def __init__(self, rows):
        self.rows = rows

    def sample(self, shape=()):
        return self.rows


class Paths:
    """A Brownian path per member."""
    def __init__(self, c, dt):
        self.c, self.dt = c, dt

    def W(self, t):
        return torch.sin(self.c * t) * .4 + torch.cos(2.3 * self.c * t) * .2

    def __call__(self, a, b):
        return (self.W(float(b)) - self.W(float(a))).to(self.dt)


class Case:
    """Solves the sub-batch `rows` of a table of members; `bad` members fail."""
    def __init__(self, env, scn):
        self.env, self.scn, self.dt = env, scn, DT[scn['dtype']]
        n = scn['batch'] + 4
        d = scn['dim']
        self.x = draw(n, d, f'm{scn["seed"]}', self.dt)
        self.v = draw(n, d, f'v{scn["seed"]}', self.dt)
        self.c = draw(n, d, f'c{scn["seed"]}', torch.float64, .5, 4.)
        self.w = draw(n, 64, f'w{scn["seed"]}', self.dt)
        self.g = draw(n, 40, f'g{scn["seed"]}', self.dt)
        self.t = torch.tensor(list(reversed(scn['ts'])) if scn['rev'] else scn['ts'], dtype=self.dt)

    def solve(self, rows, poison=(), fault=None):
        """-> trajectories [member, time, ...], gradients [member, ...] or None"""
        scn, dt, k, d = self.scn, self.dt, self.scn['kind'], self.scn['dim']
        x = self.x[rows].clone()
        v = {'huge': 1e12}.get(scn['value']) or float(scn['value'])
        for p in poison:
            self.env.fault('poisoned-' + scn['value'])
            x[p] = v
        f, out = self.run(rows, x, fault)
        x = x.requires_grad_(scn['grad'])
        sol = out(x)
        g = None
        if scn['grad']:
            # weights belong to members
            w = self.w[rows][:, :sol[0].numel()] if sol[0].numel() <= 64 else None
            if w is None:
                w = self.w[rows].repeat(1, sol[0].numel() // 64 + 1)[:, :sol[0].numel()]
            loss = (torch.stack(list(sol)).reshape(len(rows), -1) * w).sum()
            g = torch.autograd.grad(loss, x)[0].detach()
        return [s.detach() for s in sol], g

    def run(self, rows, x, fault):
        from torchdyn.core import NeuralODE, NeuralSDE, ODEProblem
        from torchdyn.core.defunc import SDEFunc
        from torchdyn.models import CNF, GNF, HNN, LNN, hutch_trace
        from torchdyn.nn import Augmenter, DataControl, DepthCat
        from torchdyn.numerics import odeint, sdeint
        from torchdyn.numerics.odeint import odeint_mshooting
        from torchdyn.numerics.solvers import hyper, ode
        scn, dt, k, d, seed = self.scn, self.dt, self.scn['kind'], self.scn['dim'], self.scn['seed']
        s, e, ts = scn['scheme'], scn['entry'], self.t
        axis = 0
        if k in ('ode', 'sde'):
            inner = Elementwise(seed, dt, k == 'ode')
        elif k == 'net':
            inner = Net(d, seed, dt)
        elif k in ('cnf', 'hutch', 'ms'):
            inner = TimeFree(d, seed, dt)
        elif k == 'control':
            inner = TimeFree(2 * d, seed, dt, out=d)
        elif k == 'depth':
            inner = TimeFree(d + 1, seed, dt, out=d)
        elif k == 'augment':
            inner = TimeFree(d + 2, seed, dt)
        elif k == 'order2':
            inner = TimeFree(2 * d, seed, dt, out=d)
        elif k == 'energy':
            inner = {'HNN': HNN, 'GNF': GNF, 'LNN': LNN}[scn['model']](Energy(2 * d, seed, dt))
        elif k == 'gal':
            inner = Body(d, seed, dt)
        elif k == 'dict':
            inner = Net(d, seed, dt)
        f = (Timed if k in ('ode', 'net', 'dict') else Untimed)(self.env, scn, inner)
        if fault is not None:
            f.bad, f.at = fault, scn['at']

        def by_member(sol):
            return [sol[:, i] for i in range(sol.shape[1])]
        if k == 'sde':
            paths = Paths(self.c[rows], dt)

            def drift(t, y):
                return f.spoil(inner(t, y))

            def diffusion(t, y):
                return .3 + .2 * torch.sin(y + t)
            typ = 'ito' if s in ('euler', 'milstein_ito') else 'stratonovich'
            if e == 'odeint':
                sde = SDEFunc(f=drift, g=diffusion, noise_type='diagonal', sde_type=typ)
                return f, lambda y: by_member(sdeint(sde, y, ts, s, paths)[1])
            m = NeuralSDE(drift, diffusion, solver=s, sde_type=typ, noise_type='diagonal', bm=paths)
            return f, lambda y: by_member(m(y, ts)[1])
        if k == 'ms':
            f.axis = -2  # members within shooting points
            solver = (ode.MSZero if s == 'zero' else ode.MSBackward)('euler', 'rk4')
            grid = torch.linspace(0, 1, scn['n'], dtype=dt)
            B0 = None
            if scn['guess']:
                B0 = torch.stack([self.x[rows] + self.v[rows] * .3 * j for j in range(scn['n'])])

            def call(t, y, args={}):
                return f(y)
            return f, lambda y: by_member(odeint_mshooting(call, y, grid, solver, B0=B0, fine_steps=scn['fine'],
                                                           maxiter=scn['iters'])[1])
        if s.startswith('hyper'):
            solver = dict(hypereuler=hyper.HyperEuler, hyperrk4=hyper.HyperRungeKutta4)[s](
                lambda t, y: .1 * torch.sin(y + t), dtype=dt)
        elif seed % 2:
            solver = ode.str_to_solver(s, dt)
        else:
            solver = s
        if k == 'dict':
            def both(y):
                sol = odeint(f, {'u': y, 'w': .5 * y}, ts, pair_solver(ode))[1]
                return torch.cat([sol['u'], sol['w']], -1)
            return f, lambda y: by_member(both(y))
        if e == 'odeint':
            run = (lambda y: odeint(f, y, ts, solver)[1])
        else:
            vf = f
            if k == 'control':
                vf = nn.Sequential(DataControl(), f)
            elif k == 'depth':
                vf = nn.Sequential(DepthCat(1), f)
            elif k == 'cnf':
                vf = CNF(f)
            elif k == 'hutch':
                vf = CNF(f, trace_estimator=hutch_trace, noise_dist=FixedNoise(self.v[rows]))
            sens = dict(adjoint='adjoint', interp='interpolated_adjoint').get(e, 'autograd')
            # (the adjoint of a batch with adaptive steps shares them: only fixed steps separate the members)
            kw = dict(sensitivity=sens, solver_adjoint='rk4' if sens != 'autograd' else None)
            if k == 'order2':
                kw['order'] = 2
            m = (ODEProblem if e == 'problem' else NeuralODE)(vf, solver, **kw)
            run = (lambda y: m(y, ts)[1])
        if s == 'alf' or k in ('order2', 'energy'):
            return f, lambda y: by_member(run(torch.cat([y, self.v[rows]], 1)))
        if k == 'augment':
            aug = Augmenter(augment_dims=2, order=['first', 'last'][seed % 2],
                            augment_func=None if seed // 2 % 2 else TimeFree(d, seed + 1, dt, out=2))
            return f, lambda y: by_member(run(aug(y)))
        if k in ('cnf', 'hutch'):
            return f, lambda y: by_member(run(torch.cat([torch.zeros_like(y[:, :1]), y], 1)))
        return f, lambda y: by_member(run(y))


def execute(env, scn):
    r = random.Random(f'p15/{scn["seed"]}')
    B, how = scn['batch'], scn['how']
    case = Case(env, scn)
    rows = list(range(B))
    base, grads = case.solve(rows)
    good = sorted(r.sample(rows, max(1, B - 1 - scn['keep'] % B)))  # members that must not notice
    bad = [k for k in rows if k not in good]
    eps, exact = EPS[scn['dtype']], False
    if how == 'poison' and bad:
        other = list(rows)
        got, gg = case.solve(other, poison=bad)
        exact = True
    elif how == 'fault' and bad:
        other = list(rows)
        got, gg = case.solve(other, fault=bad)
        exact = True
    elif how == 'subset' or how in ('poison', 'fault'):
        other = good
        got, gg = case.solve(other)
    elif how == 'permute':
        other = list(rows)
        r.shuffle(other)
        got, gg = case.solve(other)
    elif how == 'extend':
        other = list(rows) + [B, B + 1]
        r.shuffle(other)
        got, gg = case.solve(other)
    else:  # other members take the places of some
        other = [k if k in good else B + k % 4 for k in rows]
        got, gg = case.solve(other)
        exact = True
    env.fault(how)
    need(len(base) == B and len(got) == len(other), 'shape', f'{len(base)} and {len(got)} members')
    elementwise = scn['kind'] in ('ode', 'sde')
    for i, m in enumerate(other):
        if m not in good:
            continue
        for name, a, b in [('trajectory', base[m], got[i])] + ([('gradient', grads[m], gg[i])] if grads is not None else []):
            need(a.shape == b.shape, 'shape', f'{name} of member {m}: {tuple(a.shape)} and {tuple(b.shape)}')
            need(bool(torch.isfinite(b).all()), 'not-contained', f'{scn["kind"]} {scn["scheme"]} {scn["entry"]}: the {name} of '
                 f'member {m} became non-finite ({how}, others {bad})')
            d = (a - b).abs().max().item()
            tol = (0. if exact and elementwise else 200 * eps) * (1 + a.abs().max().item())
            if tol:
                env.metric(name, d / tol)
            if d > tol:
                raise Violation('not-alone', f'{scn["kind"]} {scn["scheme"]} {scn["entry"]}: the {name} of member {m} changes by '
                                f'{d:.3g} (allowed {tol:.3g}) with what the other members are ({how}, {other})')
    env.simtime += 2 * abs(scn['ts'][-1] - scn['ts'][0])
    env.ev(scn['kind'], scn['scheme'], how, env.T(torch.cat([v.flatten() for v in base])))
    env.sig(scn['kind'], scn['scheme'], scn['entry'], how, scn['grad'], scn['at'] if how == 'fault' else None,
            scn['value'] if how in ('fault', 'poison') else None, B, scn['rev'])
    env.nontrivial = True
    env.probe('members compared', len(good))
    env.probe('gradients compared', len(good) if grads is not None else 0)
