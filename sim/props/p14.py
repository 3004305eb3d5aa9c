"""P14: deterministic solves draw no randomness; stochastic parts replay from the generators' states."""
import random

import numpy as np
import torch
import torch.nn as nn

from ..core import SimFault, Violation
from ..grids import draw_ts
from ..nets import Net, TimeFree, draw
from ..worlds import DT, need, same

COUNT = dict(quick=2200, thorough=40000)
CHUNK = 10
RULE = ('one run = a history of deterministic solves, gradients, searches and event handling interleaved with stochastic '
        'trace estimates, random systems, random events and dataset generation by clients sharing the process-wide random '
        'generators; the simulator owns the generators: it captures their states between operations, restores them at a drawn '
        'point and replays, reschedules, drops and aborts the deterministic operations, and reruns the history from other '
        'seeds; non-trivial when deterministic and stochastic operations are mixed or an operation is aborted; distinct '
        'by operations, their order and the restore point')
REAL = ['odeint, odeint_hybrid, odeint_mshooting, sdeint, root_find, ImplicitEuler, hypersolvers', 'NeuralODE, NeuralSDE, '
        'MultipleShootingLayer, adjoint and interpolated-adjoint gradients', 'CNF, hutch_trace, HNN, GNF, GalLinear',
        'ToyDataset, random systems, StochasticEventCallback', 'torch, numpy and python global generators']
STUB = ['field networks spoilt at drawn calls', 'fields drawing from the generators', 'fault injection', 'Brownian path']
ASSUMPTIONS = ['fields, callbacks and noise distributions of the user draw from the global generators, if at all',
               'single-threaded use of the generators']
DET = ['odeint', 'odeint', 'interp', 'ieuler', 'hybrid', 'ms', 'mslayer', 'sde', 'nsde', 'node', 'node', 'traj', 'grad', 'grad',
       'integral', 'root', 'hyper', 'exact', 'energy', 'gal', 'control', 'alf']
STO = ['hutch', 'hutch', 'hutch_traj', 'hutch_grad', 'data', 'data', 'data', 'system', 'drawing', 'drawing', 'events', 'sphere']
SHRINK = {'ops': ('list', 1), 'order': ('list', 0)}


def generate(rng, i):
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        det = rng.random() < .5
        ops.append(draw_op(rng, rng.choice(DET if det else STO), det))
    det = [k for k, o in enumerate(ops) if o['det']]
    order = list(range(len(ops)))
    # another schedule: the deterministic operations move, repeat or vanish, the stochastic ones keep their order
    sched = [k for k in order if not ops[k]['det']]
    for k in det:
        for _ in range(rng.choice([0, 1, 1, 2])):
            sched.insert(rng.randrange(len(sched) + 1), k)
    return dict(ops=ops, restore=rng.randrange(len(ops)), fresh=rng.random() < .5, order=sched, seed=rng.randrange(2 ** 31),
                other=rng.randrange(2 ** 31), gauss=rng.random() < .5)


def draw_op(rng, op, det):
    o = dict(op=op, det=det, xseed=rng.randrange(10 ** 6), batch=rng.choice([1, 2, 3, 5, 17]), dim=rng.choice([2, 2, 4]),
             dtype=rng.choice(['f32', 'f64']), solver=rng.choice(['dopri5', 'tsit5', 'rk4', 'euler', 'midpoint']),
             sens=rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']), abort=None,
             ts=draw_ts(rng, n=rng.choice([2, 3, 4]), span=rng.choice([.3, 1.]), near=False), v=rng.randrange(10 ** 6))
    if det and rng.random() < .25 or op in ('drawing', 'hutch', 'hutch_grad') and rng.random() < .2:
        o['abort'] = rng.choice([rng.randrange(4), rng.randrange(40)])
    if det and o['abort'] is None and rng.random() < .3:  # transient or lasting bad evaluations
        o['poison'] = dict(at=rng.choice([rng.randrange(6), rng.randrange(6), rng.randrange(60)]), len=rng.choice([1, 1, 2, 10, 10 ** 6]),
                           q=rng.choice(['nan', 'nan', 'inf', '1e6', '0']))
        if o['poison']['q'] == '1e6':  # a lastingly stiff field is only slow
            o['poison']['len'] = min(o['poison']['len'], 2)
    if op == 'data':
        o['kind'] = rng.choice(['moons', 'moons', 'spirals', 'spirals', 'spheres', 'spheres', 'gaussians', 'gaussians',
                                'gaussians_spiral', 'gaussians_spiral', 'diffeqml'])
        o['n'] = rng.choice([2, 6, 20, 40])
        o['noise'] = rng.choice([1e-2, .1, 1.])
    if op == 'system':
        o['kind'] = rng.choice(['LTISystem', 'FourierSystem', 'StiffFourierSystem', 'CoupledFourierSystem', 'MatMulSystem',
                                'MatMulBoundedSystem'])
    return o


# ---- the generators, owned by the simulator
def capture():
    return torch.get_rng_state(), np.random.get_state(), random.getstate()


def restore(s):
    torch.set_rng_state(s[0])
    np.random.set_state(s[1])
    random.setstate(s[2])


def seed_all(n, gauss):
    torch.manual_seed(n)
    np.random.seed(n % 2 ** 32)
    random.seed(n)
    if gauss:  # leave a cached normal deviate in each generator
        torch.randn(1)
        np.random.randn()
        random.gauss(0, 1)


def moved(a, b):
    """Names of the generators whose states differ."""
    out = []
    if not torch.equal(a[0], b[0]):
        out.append('torch')
    if not all(np.array_equal(p, q) for p, q in zip(a[1], b[1])):
        out.append('numpy')
    if a[2] != b[2]:
        out.append('python')
    return out


class Party:
    """The objects a client owns; `hit` counts field evaluations and injects its fault."""
    def __init__(self, env):
        self.env, self.n, self.abort, self.poison, self.cache = env, 0, None, None, {}

    def hit(self, *a):
        self.env.work()
        k = self.n
        self.n += 1
        if self.abort is not None and k == self.abort:
            self.env.fault('abort')
            raise SimFault(f'evaluation {k}')
        if k > 1000:
            raise SimFault('the user loses patience')
        p = self.poison
        if p and p['at'] <= k < p['at'] + p['len']:
            self.env.fault('bad-value')
            return float(p['q'])

    def bad(self, y):
        """`y` as a party returns it: evaluated, spoilt or not at all."""
        q = self.hit()
        return y if q is None else y * q

    def get(self, key, make):
        if key not in self.cache:
            s = capture()  # building modules may draw initial weights
            self.cache[key] = make()
            restore(s)
        return self.cache[key]


class Energy(nn.Module):
    def __init__(self, P, dim, seed, dt):
        super().__init__()
        self.net, self.P = TimeFree(dim, seed, dt, out=1), P

    def forward(self, x):
        return self.P.bad(self.net(x))


def run_op(P, o):
    """Performs one operation; everything it returns is observable by the user."""
    from torchdyn.core import MultipleShootingLayer, NeuralODE, NeuralSDE
    from torchdyn import datasets
    from torchdyn.datasets import static_datasets
    from torchdyn.models import CNF, GNF, HNN, LNN, hutch_trace
    from torchdyn.models.cnf import autograd_trace
    from torchdyn.nn import DataControl, DepthCat, GalLinear
    from torchdyn.numerics import odeint, odeint_mshooting
    from torchdyn.numerics.odeint import odeint_hybrid
    from torchdyn.numerics import sdeint, systems
    from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
    from torchdyn.numerics.solvers.root import root_find
    from torchdyn.numerics.utils import EventCallback, StochasticEventCallback
    k, dt, d = o['op'], DT[o['dtype']], o['dim']
    x = draw(o['batch'], d, o['xseed'], dt)
    ts = torch.tensor(o['ts'], dtype=dt)
    key = (k, d, o['dtype'], o['solver'], o['sens'])
    v = o['v']

    def net(**kw):
        return Net(d, 7, dt, hit=P.hit, **kw)

    def node(make, integral=None, **kw):
        return NeuralODE(make(), solver=o['solver'], sensitivity=o['sens'] if integral is None else 'autograd', atol=1e-4, rtol=1e-4,
                         atol_adjoint=1e-4, rtol_adjoint=1e-4, integral_loss=integral, **kw)

    class Body(nn.Module):
        def __init__(self, m):
            super().__init__()
            self.m = m

        def forward(self, t, x, args={}):
            return P.bad(self.m(x))

    if k == 'odeint':
        f = P.get(key, net)
        kw = dict(return_all_eval=True) if v % 3 == 0 and o['solver'] in ('dopri5', 'tsit5') else {}
        if v % 2:
            ts = ts.flip(0)
        atol = rtol = 1e-4
        how = v // 6 % 6
        if how == 0:  # at rest: every norm of the step size heuristics is zero
            x, f = x * 0, lambda t, y: P.bad(y * 0)
        elif how == 1:  # steps below the resolution of time
            atol, rtol = 1e-14, 0. if v % 5 else 1e-14
            f = lambda t, y: P.bad(torch.sign(torch.sin(40. * t)) * torch.ones_like(y))
        elif how == 2:
            kw['save_at'] = ts[1:] if v % 4 else ts.tolist()[:1]
        elif how == 3:
            kw['seminorm'] = (True, 1)
        elif how == 4:
            ts = list(ts.split(1))
            kw['verbose'] = True
            if v % 2:  # lists of times are forward in time
                ts = ts[::-1]
        return odeint(f, x, ts, o['solver'], atol=atol, rtol=rtol, **kw)
    if k == 'interp':
        return odeint(P.get(key, net), x, ts, 'dopri5', atol=1e-3, rtol=1e-3, interpolator='4th')
    if k == 'alf':
        f = P.get(key, lambda: (lambda t, x: P.bad(torch.cat([torch.sin(x[..., d // 2:]), -x[..., :d // 2]], -1))))
        return odeint(f, x, ts, 'alf')
    if k == 'ieuler':
        f = P.get(key, lambda: (lambda t, x: P.bad(-x + .1 * torch.sin(x))))
        return odeint(f, x[:2], ts, 'ieuler')
    if k in ('hybrid', 'events'):
        base = EventCallback if k == 'hybrid' else StochasticEventCallback

        class Cb(base):
            def check_event(self, t, y):
                return bool(y[:, 0].max() > 1.) if k == 'hybrid' else bool(t - self.t0 > self.s[0])

            def jump_map(self, t, y):
                if k == 'events':
                    self.initialize(y)
                    self.t0 = float(t)
                    return y + .1 * torch.randn_like(y)
                return -.5 * y
        s = capture()
        cb = Cb()
        restore(s)
        if k == 'events':
            cb.t0 = float(ts[0])
            cb.initialize(x)

        def f(t, y):
            return P.bad(.5 * torch.cos(y) + .7)
        kw = dict(atol=1e-3, rtol=1e-3)
        cbs = [cb]
        if k == 'hybrid':
            if v % 3 == 0:
                x = x + 2.  # an event holds from the start
            if v % 5 == 0:
                kw['event_tol'] = 1e-9
            if v % 7 == 0:
                kw['priority'] = 'flow'
            if v % 2:
                cbs = [cb, Cb()]
        return odeint_hybrid(f, x, ts, 6, ['dopri5', 'tsit5'][v // 2 % 2], cbs, **kw)[:2]
    if k in ('ms', 'mslayer'):
        f = P.get(key, lambda: (lambda t, x: P.bad(torch.sin(2 * x) * .5)) if k == 'ms' else net(time=False))
        grid = torch.linspace(0, 1, 3 + v % 4, dtype=dt)
        name = 'mszero' if v % 2 else 'msbackward'
        if k == 'ms':
            with torch.no_grad():
                return odeint_mshooting(f, x, grid, name, fine_steps=2, maxiter=1 + v % 4)
        return P.get(key + (name,), lambda: MultipleShootingLayer(f, name))(x.requires_grad_(True), grid)
    if k in ('sde', 'nsde'):
        def bm(a, b):
            return torch.sin(3. * b) - torch.sin(3. * a) + .3 * (b - a)

        class Part(nn.Module):
            def __init__(self, c):
                super().__init__()
                self.c = c

            def forward(self, t, y):
                return P.bad(torch.sin(y) * self.c)
        m = P.get(key, lambda: NeuralSDE(Part(.4), Part(.2), solver='euler', sde_type='ito', noise_type='diagonal', bm=bm))
        if k == 'nsde':
            return m(x, ts)
        return sdeint(m.defunc, x, ts, ['euler', 'milstein_ito'][v % 2], bm)
    if k in ('node', 'traj', 'grad', 'integral'):
        def learn():  # with parameters which are not used or not trained
            n = net(unused=v % 3 == 0)
            n.b.requires_grad_(v % 4 != 0)
            return n
        key += (v % 3, v % 4)
        m = P.get(key, lambda: node(learn, (lambda t, y: (y ** 2).sum(1)) if k == 'integral' else None))
        m.train(v % 5 != 0)
        if k == 'integral':
            x = torch.cat([torch.zeros(len(x), 1, dtype=dt), x], 1)
        if k == 'traj':
            return m.trajectory(x, ts)
        x.requires_grad_(True)
        te, sol = m(x, ts)
        if k == 'node':
            return te, sol
        return [sol, *torch.autograd.grad((sol ** 2).sum(), [x] + [p for p in m.parameters() if p.requires_grad], allow_unused=True)]
    if k == 'root':
        A = torch.eye(d, dtype=dt) * 1.5 + .1

        how = v // 24 % 6

        def g(z):
            if how == 0:  # flat at the start
                y = z ** 2 + .3
            elif how == 1:  # one flat component
                y = torch.cat([z[..., :1] ** 2 - 1., (z @ A)[..., 1:]], -1)
            elif how == 2:  # rank one
                y = (z @ A).sum(-1, keepdim=True).expand_as(z) + .2
            elif how == 3:  # kinks, no root
                y = z.abs() + .5 + torch.relu(z)
            else:
                y = z @ A + .1 * torch.sin(z)
            return P.bad(y)
        if how < 4 and v % 2:
            x = x * 0
        return root_find(g, x * .2, alpha=[.5, 1.][v % 2], method=['broyden', 'broyden_fast'][v // 2 % 2],
                         search_method=['none', 'naive', 'armijo'][v // 4 % 3], maxiters=20)[0]
    if k == 'hyper':
        f = P.get(key, net)
        hn = P.get(key + ('hyper',), lambda: Net(d, 9, dt, hit=P.hit))
        return odeint(f, x, ts, [HyperEuler, HyperMidpoint, HyperRungeKutta4][v % 3](hn, dt))
    if k in ('exact', 'hutch', 'hutch_traj', 'hutch_grad'):
        class Dist:  # the user's distribution, drawing from the global generator
            def __init__(self):
                self.d = torch.distributions.MultivariateNormal(torch.zeros(d, dtype=dt), torch.eye(d, dtype=dt))

            def sample(self, shape):
                if v % 5 == 0:
                    return torch.tensor(np.random.randn(*shape, d)).to(dt)
                return self.d.sample(torch.Size(shape))
        body = lambda: CNF(TimeFree(d, 5, dt, hit=P.hit), autograd_trace) if k == 'exact' else \
            CNF(TimeFree(d, 5, dt, hit=P.hit), hutch_trace, Dist())
        m = P.get(key + (v % 5,), lambda: NeuralODE(body(), solver=o['solver'], sensitivity=o['sens'], atol=1e-3, rtol=1e-3,
                                                   atol_adjoint=1e-3, rtol_adjoint=1e-3))
        x = torch.cat([torch.zeros(len(x), 1, dtype=dt), x], 1)
        if k == 'hutch_traj':
            return m.trajectory(x, ts)
        x.requires_grad_(True)
        te, sol = m(x, ts)
        if k != 'hutch_grad':
            return te, sol
        s = capture()
        try:
            g = torch.autograd.grad((sol ** 2).sum(), [x] + list(m.parameters()), allow_unused=True)
        finally:
            w = moved(s, capture())
            need(not w, 'generator-moved', f'the gradients of a solve changed the state of the generators {w}')
        return [sol, *g]
    if k == 'energy':
        m = P.get(key + (v % 5,), lambda: node(lambda: [HNN, GNF, HNN, GNF, LNN][v % 5](Energy(P, d, 3, dt))))
        return m((x[:2] if v % 5 == 4 else x).requires_grad_(True), ts)
    if k == 'gal':
        def make():
            torch.manual_seed(1)
            return node(lambda: Body(nn.Sequential(DepthCat(), GalLinear(d, d), nn.Tanh())))
        return P.get(key, make)(x.float(), ts.float())
    if k == 'control':
        m = P.get(key, lambda: node(lambda: Body(nn.Sequential(DataControl(), TimeFree(2 * d, 5, dt, out=d)))))
        return m(x, ts)
    if k == 'drawing':  # a field with its own noise: the solver must neither draw, reseed nor rewind in between
        drawn = []
        s = capture()

        def noisy(t, y, args={}):
            P.hit()
            drawn.append((y.shape, y.dtype))
            return -y + .01 * torch.randn(y.shape, dtype=y.dtype) + .01 * np.random.rand()
        solver = o['solver'] if o['solver'] in ('rk4', 'euler', 'midpoint') else ['dopri5', 'alf'][v % 2]
        try:
            if v % 3 == 0:
                sol = NeuralODE(FieldOf(noisy), solver=solver, sensitivity='autograd', atol=.5, rtol=.5)(x, ts)
            else:
                sol = odeint(noisy, x, ts, solver, atol=.5, rtol=.5)
        finally:
            end = capture()
            restore(s)
            for shape, dtype in drawn:
                torch.randn(shape, dtype=dtype)
                np.random.rand()
            w = moved(capture(), end)
            restore(end)
            need(not w, 'generator-moved', f'after {len(drawn)} draws of a noisy field the generators {w} are not where these draws '
                 'leave them: the solver drew, reseeded or rewound')
        return sol
    if k == 'data':
        kw = dict(noise=o['noise'])
        if o['kind'] == 'spheres':
            kw['dim'] = d
        if o['kind'].startswith('gauss'):
            kw['n_gaussians'] = 1 + v % 4
        g = P.get('toys', datasets.ToyDataset)
        fn = None
        if v % 4 == 0:
            fn = getattr(static_datasets, 'generate_' + dict(spheres='concentric_spheres').get(o['kind'], o['kind']))
        X, y = fn(n_samples=o['n'], **kw) if fn else g.generate(n_samples=o['n'], dataset_type=o['kind'], **kw)
        return [X] if y is None else [X, y]
    if k == 'sphere':
        return [torch.stack([static_datasets.randnsphere(d, .5 + v % 3) for _ in range(3)])]
    if k == 'system':
        c = getattr(systems, o['kind'])
        m = c(dim=d)
        if v % 2:
            m.randomize_parameters()
        ws = [p for p in m.parameters()] + [getattr(m, n) for n in ('A', 'phi', 'w') if hasattr(m, n)]
        return ws
    raise AssertionError(k)


class FieldOf(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, t, x, args={}):
        return self.f(t, x)


def flat(out):
    if isinstance(out, torch.Tensor):
        return [out.detach().clone()]
    if out is None:
        return ['none']
    if isinstance(out, (list, tuple)):
        return [q for p in out for q in flat(p)]
    return [out]


def one(P, o, faults=True):
    P.n, P.abort, P.poison = 0, o['abort'] if faults else None, o.get('poison') if faults else None
    try:
        return flat(run_op(P, o))
    except SimFault:
        P.env.probe('aborted operations')
        return ['aborted']
    except RuntimeError:  # no step can succeed, no factorisation exists
        if not (o['op'] == 'odeint' or o.get('poison')):
            raise
        P.env.probe('impossible operations')
        return ['aborted']


def name(o):
    return o['op'] + (f' ({o["kind"]})' if 'kind' in o else '')


def differ(a, b, o, when):
    """Two draws of one stochastic operation are different samples, in (nearly) every row."""
    if a == ['aborted'] or b == ['aborted'] or not a or not isinstance(a[0], torch.Tensor):
        return
    k = o['op']
    if k == 'data' or k == 'sphere':
        A, B = a[0], b[0]
        need(A.shape == B.shape, 'draws', f'{name(o)}: shapes {A.shape} and {B.shape}')
        f = (A == B).all(1).double().mean().item()
        need(f <= .25, 'draws', f'{name(o)}: {100 * f:.0f} % of the samples of two draws are equal ({when})')
        return
    if k == 'events':
        return  # no event needs to have happened
    if k == 'system':
        need(not same(a, b), 'draws', f'{name(o)}: two random systems are equal ({when})')
        return
    A, B = (a[1], b[1]) if k in ('hutch', 'drawing') and len(a) > 1 else (a[0], b[0])
    if A.shape != B.shape:
        return
    A, B = A[-1], B[-1]
    if k.startswith('hutch'):
        A, B = A[:, :1], B[:, :1]
        f = (A == B).all(1).double().mean().item()
        need(f <= .25, 'draws', f'{name(o)}: {100 * f:.0f} % of the trace estimates of two solves with different noise '
             f'are equal ({when})')
        return
    need(not same(A, B), 'draws', f'{name(o)}: equal results from different draws ({when})')


def execute(env, scn):
    ops = scn['ops']
    P = Party(env)
    seed_all(scn['seed'], scn['gauss'])
    caps, outs = [], []
    for n, o in enumerate(ops):
        before = capture()
        caps.append(before)
        out = one(P, o)
        after = capture()
        w = moved(before, after)
        if o['det']:
            need(not w, 'generator-moved', f'op {n}: deterministic {name(o)} changed the state of the generators {w}'
                 + (' (aborted)' if out == ['aborted'] else ''))
        elif out != ['aborted'] and o['op'] != 'events':
            need(w, 'private-randomness', f'op {n}: stochastic {name(o)} left all global generators where they were')
        outs.append(out)
        env.sig(o['op'], o.get('kind'), o['solver'], o['abort'], o['batch'])
        env.ev(n, o['op'], [env.T(v) for v in out], env.T(after[0]))
        env.probe('deterministic operations' if o['det'] else 'stochastic operations')
        env.simtime += 1.
    final = capture()
    kinds = {o['det'] for o in ops}
    env.nontrivial = env.nontrivial or len(kinds) > 1

    def check(n, out, what):
        need(same(outs[n], out), 'replay', lambda: f'op {n}, {name(ops[n])}: {what}, the result differs: '
             f'{short(outs[n])} / {short(out)}')

    # restore at a point of the history and replay what follows
    k = min(scn['restore'], len(ops) - 1)
    env.sig('restore', k, scn['fresh'])
    Q = Party(env) if scn['fresh'] else P
    restore(caps[k])
    for n in range(k, len(ops)):
        check(n, one(Q, ops[n]), f'replayed from the generator states captured before op {k} on '
              f'{"fresh" if scn["fresh"] else "the same"} objects')
    w = moved(final, capture())
    need(not w, 'replay', f'the replayed history leaves the generators {w} elsewhere')
    env.probe('histories replayed')

    # the same seeds under another schedule of the deterministic operations
    env.sig('order', *scn['order'])
    seed_all(scn['seed'], scn['gauss'])
    R = Party(env)
    for j in scn['order']:
        if j >= len(ops):
            continue
        check(j, one(R, ops[j]), 'with other deterministic operations around it')
    env.probe('schedules compared')

    # other seeds: deterministic results stay, stochastic ones change
    seed_all(scn['other'], not scn['gauss'])
    for n, o in enumerate(ops):
        out = one(P, o)
        if o['det']:
            check(n, out, 'under other generator states')
        else:
            differ(outs[n], out, o, 'other seeds')
            again = one(P, o)
            differ(out, again, o, 'one after the other')
    env.probe('seeds compared')


def short(out):
    v = [v for v in out if isinstance(v, torch.Tensor)]
    return [t.flatten()[:4].tolist() for t in v[:3]] if v else out
