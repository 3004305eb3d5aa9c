"""P07: gradients are the true derivative for any loss, history and sensitivity method."""
import math

import torch
import torch.nn as nn

from ..core import SimFault, Violation
from ..grids import draw_ts
from ..nets import Net, TimeFree, draw
from ..worlds import DT, need

COUNT = dict(quick=900, thorough=30000)
CHUNK = 6
RULE = ('one run = a history of forward, no-gradient and backward passes (each possibly failing at a drawn evaluation and '
        'repeated, or disturbed by transient non-finite values) on one model; every gradient increment is compared with '
        'reverse-mode differentiation of an independent fine float64 integration of the same field; non-trivial when '
        'passes interleaved, a backward pass failed, or several points had weights; distinct by field, sensitivity, '
        'solver, grid shape and schedule')
REAL = ['ODEProblem/NeuralODE/MultipleShootingProblem/MultipleShootingLayer (autograd, adjoint, interpolated adjoint)', 'adaptive and rk4 solvers, '
        'dense interpolation', 'DataControl, DepthCat, GalLinear and its bases, CNF, DEFunc (higher order, integral loss)', 'torch autograd engine',
        'torchcde splines']
STUB = ['learnable field with fault injection', 'trace-noise distribution', 'loss weights (cotangents)',
        'reference integrator and hand-written field formulas']
ASSUMPTIONS = ['gradients with respect to t_span are not claimed', 'integral losses are claimed on forward spans and full grids',
               'interpolated adjoint accuracy is that of a natural cubic spline through the internal steps']
KINDS = ['net', 'net', 'timefree', 'control', 'depthcat', 'cnf', 'hutch', 'order2', 'stateless', 'optim', 'tied',
         'galerkin']
BASES = ['fourier', 'polynomial', 'chebychev', 'vanilla', 'multiquad', 'gauss', 'vanilla-adaptive', 'multiquad-adaptive',
         'gauss-adaptive']
MS = ('zero', 'backward')
SHRINK = {'fwd': ('list', 1), 'ops': ('list', 1), 'unused': ('choice', [False]), 'integral': ('choice', [False]), 'frozen': ('choice', [False]),
          'field': ('choice', ['net'])}


def generate(rng, i):
    field = rng.choice(KINDS)
    sens = rng.choice(['autograd', 'adjoint', 'adjoint', 'interpolated_adjoint', 'interpolated_adjoint'])
    solver = rng.choice(['dopri5', 'dopri5', 'tsit5', 'rk4'])
    dtype = 'f32' if rng.random() < .15 else 'f64'
    neural = field in ('control', 'depthcat', 'galerkin', 'cnf', 'hutch', 'order2') or rng.random() < .4
    integral = rng.random() < .25 and field in ('net', 'timefree', 'tied', 'control', 'order2', 'depthcat', 'galerkin')
    if integral and sens == 'autograd':
        neural = True
    if rng.random() < .12:
        solver, field, neural, integral = rng.choice(['zero', 'backward']), 'timefree', False, False
    fwd = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        if solver == 'rk4' or (sens == 'interpolated_adjoint' and rng.random() < .5):
            n = rng.choice([9, 9, 9, 13, 13, 13, 31])
            ts = draw_ts(rng, n=n, span=rng.choice([.4, .8]), near=False)
            # fixed-step accuracy needs bounded gaps
            ts = [ts[0] + (ts[-1] - ts[0]) * (k + .3 * math.sin(3. * k)) / (n - 1 + .3 * math.sin(3. * (n - 1)))
                  for k in range(n)]
            ts = [round(v, 6) for v in ts]
        else:
            ts = draw_ts(rng, n=rng.choice([2, 2, 3, 4, 5]), span=rng.choice([.3, .8, 1.5]), near=False)
        if solver in MS:
            n, t0, h = rng.choice([2, 3, 5, 7]), rng.choice([0., -.5, 1.]), rng.choice([.05, .125, .2])
            ts = [t0 + h * k for k in range(n)]
        n = len(ts)
        keep = sorted(rng.sample(range(n), rng.randrange(1, n + 1))) if solver == 'rk4' and not integral and rng.random() < .5 else None
        style = rng.choice(['all', 'last', 'sparse', 'first+last', 'one'])
        fwd.append(dict(ts=ts, rev=not integral and rng.random() < .35, batch=rng.choice([1, 2, 3, 3, 4, 5]),
                        xseed=rng.randrange(10 ** 6), keep=keep, style=style, pick=rng.random(),
                        xgrad=rng.random() < .85, cseed=rng.randrange(10 ** 6)))
    ops = []
    pend = []
    for k in range(len(fwd)):
        ops.append(dict(op='F', k=k))
        pend.append(k)
        if rng.random() < .35:
            ops.append(dict(op='N', k=rng.randrange(len(fwd)), traj=rng.random() < .3, xseed=rng.randrange(10 ** 6)))
        while pend and rng.random() < .35:
            ops.append(back(rng, pend.pop(rng.randrange(len(pend)))))
    rng.shuffle(pend)
    for k in pend:
        ops.append(back(rng, k))
        if rng.random() < .3:
            ops.append(dict(op='N', k=rng.randrange(len(fwd)), traj=rng.random() < .3, xseed=rng.randrange(10 ** 6)))
    # a trajectory at rest while its adjoint moves: the backward solve cannot take its steps from the state
    rest = 0.
    if sens != 'autograd' and solver not in MS and field in ('net', 'timefree', 'tied') and not integral and rng.random() < .4:
        rest, dtype = rng.choice([1., 2., 2.5]), 'f64'
    return dict(implicit=rng.choice(['autograd', 'adjoint']) if rng.random() < .015 else None, rest=rest, field=field, sens=sens, solver=solver, dtype=dtype, neural=neural, integral=integral, fwd=fwd, ops=ops,
                tol=rng.choice([1e-5, 1e-6, 1e-7]) if dtype == 'f64' else 1e-4, seed=rng.randrange(10 ** 6),
                unused=rng.random() < .3, frozen=rng.random() < .15,
                interp=sens == 'autograd' and solver == 'dopri5' and rng.random() < .3,
                adj=rng.choice(['dopri5', 'tsit5'] + [None] * (not rest)) if sens != 'autograd' else None)


def back(rng, k):
    o = dict(op='B', k=k, how=rng.choice(['backward', 'grad', 'twice']), fault=None)
    r = rng.random()
    if r < .3:
        o['fault'] = dict(kind='raise', at=rng.choice([0, 1, 2, 5, 9, 14, 25, 40]))
    elif r < .45:
        o['fault'] = dict(kind=rng.choice(['nan', 'inf']), at=rng.choice([9, 11, 14, 17, 25, 40]))
    return o


class Hook:
    def __init__(self, env):
        self.env, self.n, self.plan, self.fired = env, 0, None, False

    def arm(self, plan):
        self.n, self.plan, self.fired = 0, plan, False

    def __call__(self, out):
        self.env.work()
        k = self.n
        self.n += 1
        if self.plan is not None and k == self.plan['at']:
            self.fired = True
            self.env.fault('field-' + self.plan['kind'])
            if self.plan['kind'] == 'raise':
                raise SimFault(f'evaluation {k}')
            return out * float(self.plan['kind'])
        return out


class Spy(nn.Module):
    """The user's field, through which faults are injected."""
    def __init__(self, inner, hook, timed):
        super().__init__()
        self.inner, self.hook = inner, hook
        if timed:
            self.forward = self._timed
        # signature detection looks at `forward`

    def _timed(self, t, x, args={}):
        return self.hook(self.inner(t, x))

    def forward(self, x):
        return self.hook(self.inner(x))


class Stateless(nn.Module):
    def __init__(self, dim, seed, dtype):
        super().__init__()
        n = Net(dim, seed, dtype)
        self.b, self.C = n.b, n.C

    def forward(self, t, x, args={}):
        return (torch.tanh(t * self.b) @ self.C)[None].expand(x.shape[0], -1) * 1.


class Tied(nn.Module):
    """Two layers sharing one parameter, one of them through a transpose."""
    def __init__(self, dim, seed, dtype):
        super().__init__()
        n = Net(dim, seed, dtype)
        self.A = n.A
        self.alias = self.A
        self.b = n.b

    def forward(self, t, x, args={}):
        return torch.tanh(x @ self.A + t * self.b) @ self.alias.t()


def build(env, scn):
    from torchdyn.core import MultipleShootingLayer, MultipleShootingProblem, NeuralODE, ODEProblem
    from torchdyn.models import CNF
    from torchdyn.models.cnf import hutch_trace
    from torchdyn.nn import DataControl, DepthCat
    dt, k, seed = DT[scn['dtype']], scn['field'], scn['seed']
    hook = Hook(env)
    opt, net, noises = (), None, []
    if k == 'net':
        net = Net(2, seed, dt, unused=scn['unused'])
        vf = Spy(net, hook, True)
    elif k == 'timefree':
        net = TimeFree(2, seed, dt, unused=scn['unused'])
        vf = Spy(net, hook, False)
    elif k == 'tied':
        net = Tied(2, seed, dt)
        vf = Spy(net, hook, True)
    elif k == 'stateless':
        net = Stateless(2, seed, dt)
        vf = Spy(net, hook, True)
    elif k == 'control':
        net = TimeFree(4, seed, dt, out=2, unused=scn['unused'])
        vf = Spy(nn.Sequential(DataControl(), net), hook, False)
    elif k == 'depthcat':
        net = TimeFree(3, seed, dt, out=2)
        vf = Spy(nn.Sequential(DepthCat(1), net), hook, False)
    elif k == 'galerkin':
        net = galerkin(seed, dt)
        seq = [DepthCat(1), net, nn.Tanh()]
        if seed // 50 % 3 == 0:  # a state read as an image of one pixel
            seq = [nn.Unflatten(1, (2, 1, 1))] + seq + [nn.Flatten()]
        vf = Spy(nn.Sequential(*seq), hook, False)
    elif k == 'order2':
        net = TimeFree(4, seed, dt, out=2)
        vf = Spy(net, hook, False)
    elif k in ('cnf', 'hutch'):
        net = TimeFree(2, seed, dt)

        class Dist:
            def sample(s, shape):
                noises.append(draw(shape[0], 2, seed + len(noises), dt, .4, 1.6))
                return noises[-1]
        vf = Spy(CNF(net, trace_estimator=hutch_trace, noise_dist=Dist()) if k == 'hutch' else CNF(net), hook, False)
    else:
        net = Net(2, seed, dt)
        opt = list(net.parameters())

        def fn(t, x, args={}):
            return hook(torch.tanh(x @ opt[0] + t * opt[1]) @ opt[2])
        vf = fn
    if scn.get('rest'):
        with torch.no_grad():
            net.b.zero_()
            for w in {id(w): w for w in (net.A, getattr(net, 'C', net.A))}.values():
                w.mul_(scn['rest'] if k != 'tied' else min(scn['rest'], 1.5))
    kw = dict(solver=scn['solver'], atol=scn['tol'], rtol=scn['tol'], sensitivity=scn['sens'],
              atol_adjoint=scn['tol'], rtol_adjoint=scn['tol'], solver_adjoint=scn['adj'],
              interpolator='4th' if scn['interp'] else None, integral_loss=iloss if scn['integral'] else None,
              optimizable_params=opt)
    if scn['solver'] in MS:
        cls = MultipleShootingLayer if seed % 2 else MultipleShootingProblem
        m = cls(vf, scn['solver'], sensitivity=scn['sens'], maxiter=8, fine_steps=9, solver_adjoint=scn['adj'],
                atol_adjoint=scn['tol'], rtol_adjoint=scn['tol'])
    elif scn['neural']:
        m = NeuralODE(vf, order=2 if k == 'order2' else 1, **kw)
    else:
        m = ODEProblem(vf, **kw)
    return m, net, hook, noises


def galerkin(seed, dt):
    from torchdyn.nn import GalConv2d, GalLinear, galerkin as G
    name, deg = BASES[seed % len(BASES)], 2 + seed // 9 % 4
    cls = dict(fourier=G.Fourier, polynomial=G.Polynomial, chebychev=G.Chebychev, vanilla=G.VanillaRBF,
               multiquad=G.MultiquadRBF, gauss=G.GaussianRBF)[name.split('-')[0]]
    basis = cls(deg, adaptive=True, centers=.3) if 'adaptive' in name else cls(deg)
    net = (GalConv2d(2, 2, 1, expfunc=basis) if seed // 50 % 3 == 0 else GalLinear(2, 2, expfunc=basis)).to(dt)
    with torch.no_grad():
        c = .6 / (1.6 ** torch.arange(deg) if name in ('polynomial', 'chebychev') else 1. + torch.arange(deg))
        net.coeffs.copy_(draw(net.coeffs.numel(), 1, f'gal/{seed}', dt).reshape(net.coeffs.shape) * c.to(dt)[None, :, None])
        net.dilation.fill_(.07)
        net.shift.fill_(1.1)
    return net


def expansion(scn, p, t):
    """Weights of a Galerkin layer at depth t, from the definition of its basis."""
    name, c = BASES[scn['seed'] % len(BASES)], p['coeffs']
    deg = c.shape[1]
    s, n = t * p['dilation'] + p['shift'], torch.linspace(0, deg, deg, dtype=torch.float64)
    if name == 'fourier':
        basis = [torch.cos(s * n), torch.sin(s * n)]
    elif name == 'polynomial':
        basis = [s ** n]
    elif name == 'chebychev':
        T = [torch.ones_like(s), s]
        while len(T) < deg:
            T.append(2 * s * T[-1] - T[-2])
        basis = [torch.cat(T)]
    else:
        center, scale = p.get('expfunc.centers', torch.zeros((), dtype=torch.float64)), p.get('expfunc.eps_scales', 2.)
        dist = (s - center).square().sum().sqrt()
        z = dist * (n - (center if name == 'gauss-adaptive' else 0.)) / scale
        basis = [{'vanilla': z, 'multiquad': 1 + (1 + z ** 2).sqrt(), 'gauss': torch.exp(-z ** 2)}[name.split('-')[0]]]
    return sum(torch.einsum('mn,n->m', c[:, :, i], b) for i, b in enumerate(basis))


def iloss(t, x):
    return .3 * (x ** 2).sum(1) + .1 * torch.sin(x[:, 0])


def formula(scn, params, x0, noise):
    """The same field, written out, as a function of (t, x)."""
    k = scn['field']
    p = dict(params)
    if k in ('net', 'optim'):
        return lambda t, x: torch.tanh(x @ p['A'] + t * p['b']) @ p['C']
    if k == 'timefree':
        return lambda t, x: torch.tanh(x @ p['A'] + p['b']) @ p['C']
    if k == 'tied':
        return lambda t, x: torch.tanh(x @ p['A'] + t * p['b']) @ p['A'].t()
    if k == 'stateless':
        return lambda t, x: (torch.tanh(t * p['b']) @ p['C'])[None].expand(x.shape[0], -1)
    if k == 'control':
        c = x0.detach()
        return lambda t, x: torch.tanh(torch.cat([x, c], 1) @ p['A'] + p['b']) @ p['C']
    if k == 'depthcat':
        return lambda t, x: torch.tanh(x @ p['A'][:2] + t * p['A'][2] + p['b']) @ p['C']
    if k == 'galerkin':
        def gal(t, x):
            w = expansion(scn, p, t)
            return torch.tanh(x @ w[:4].reshape(2, 2).t() + w[4:6])
        return gal
    if k == 'order2':
        return lambda t, x: torch.cat([x[:, 2:], torch.tanh(x @ p['A'] + p['b']) @ p['C']], 1)

    def cnf(t, x):
        h = torch.tanh(x[:, 1:] @ p['A'] + p['b'])
        if k == 'cnf':
            tr = (1 - h ** 2) @ (p['A'] * p['C'].t()).sum(0)
        else:
            tr = ((noise @ p['A']) * (1 - h ** 2) * (noise @ p['C'].t())).sum(1)
        return torch.cat([-tr[:, None], h @ p['C']], 1)
    return cnf


def reference(scn, net, x, ts, idx, cots, noise, integral_weight):
    """Gradients of sum_i <cots_i, x(t_i)> (+ integral loss) from a fine RK4 solve in float64."""
    params = {n: p.detach().double().clone().requires_grad_(True) for n, p in net.named_parameters() if n != 'alias'}
    x0 = x.detach().double().clone().requires_grad_(True)
    f0 = formula(scn, params, x0, None if noise is None else noise.double())

    def f(t, z):
        if not scn['integral']:
            return f0(t, z)
        return torch.cat([iloss(t, z[:, 1:])[:, None], f0(t, z[:, 1:])], 1)
    z = torch.cat([torch.zeros_like(x0[:, :1]), x0], 1) if scn['integral'] else x0
    states = [z]
    for a, b in zip(ts, ts[1:]):
        m = max(1, math.ceil(abs(b - a) / (.01 if scn.get('rest') else .04)))
        h = (b - a) / m
        for j in range(m):
            t = torch.tensor(a + j * h, dtype=torch.float64)
            k1 = f(t, z)
            k2 = f(t + h / 2, z + h / 2 * k1)
            k3 = f(t + h / 2, z + h / 2 * k2)
            k4 = f(t + h, z + h * k3)
            z = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        states.append(z)
    s = 1 if scn['integral'] else 0
    loss = sum((states[i][:, s:] * c.double()).sum() for i, c in zip(idx, cots))
    if scn['integral']:
        loss = loss + integral_weight * states[-1][:, 0].sum()
    names = list(params)
    g = torch.autograd.grad(loss, [x0] + [params[n] for n in names], allow_unused=True)
    z0 = lambda v, like: torch.zeros_like(like) if v is None else v  # noqa
    return z0(g[0], x0), {n: z0(v, params[n]) for n, v in zip(names, g[1:])}, [st.detach()[:, s:] for st in states]


def cotangents(fw, rows, batch, dim, dt):
    c = draw(rows * batch, dim, fw['cseed'], dt).reshape(rows, batch, dim)
    keep = torch.zeros(rows, dtype=torch.bool)
    st, one = fw['style'], int(fw['pick'] * rows)
    if st == 'all':
        keep[:] = True
    elif st == 'last':
        keep[-1] = True
    elif st == 'one':
        keep[one] = True
    elif st == 'first+last':
        keep[0] = keep[-1] = True
    else:
        keep[one::2] = True
    return c * keep[:, None, None]


def implicit(env, scn):
    """Gradients of a linear field solved by implicit Euler, whose discrete solution has a closed form."""
    from torchdyn.core import NeuralODE, ODEProblem
    net = nn.Linear(2, 2, bias=False).double()
    with torch.no_grad():
        net.weight.copy_(draw(2, 2, scn['seed'], torch.float64, -.8, .8))
    fw = scn['fwd'][0]
    n, h = len(fw['ts']), .05
    x = draw(fw['batch'], 2, fw['xseed'], torch.float64).requires_grad_(True)
    cls = NeuralODE if scn['seed'] % 2 else ODEProblem
    sol = cls(net, 'ieuler', sensitivity=scn['implicit'])(x, torch.linspace(0, h * (n - 1), n, dtype=torch.float64))[1]
    c = draw(fw['batch'], 2, fw['cseed'], torch.float64)
    A = net.weight.detach().clone().requires_grad_(True)
    y = x.detach().clone().requires_grad_(True)
    z = y
    for _ in range(n - 1):
        z = torch.linalg.solve(torch.eye(2, dtype=torch.float64) - h * A, z.t()).t()
    want = torch.autograd.grad((z * c).sum(), [y, A])
    env.nontrivial = True
    env.probe('implicit-' + scn['implicit'])
    env.sig('implicit', scn['implicit'], n)
    need((sol[-1].detach() - z.detach()).abs().max() < 1e-5, 'values', 'implicit Euler solution differs from its closed form')
    try:
        got = torch.autograd.grad((sol[-1] * c).sum(), [x, net.weight], allow_unused=True)
    except RuntimeError as e:
        need(scn['implicit'] != 'adjoint' or 'second time' not in str(e), 'gradient', 'implicit-euler-as-adjoint-solver raises '
             + str(e)[:60])
        raise
    lost = [n for n, g in zip(('initial state', 'weight'), got) if g is None or not g.abs().max() > 0]
    need(len(lost) < 2 or scn['implicit'] != 'autograd', 'gradient', 'implicit-euler-autograd-disconnected: no gradient reaches the '
         'initial state or the parameters')
    for name, g, w in zip(('initial state', 'weight'), got, want):
        tol = (1e-4 if scn['implicit'] == 'autograd' else .4 * h * n) * (1 + w.abs().max().item())
        need(g is not None and (g - w).abs().max().item() <= tol, 'gradient', f'implicit Euler: gradient of {name}')


def execute(env, scn):
    if scn.get('implicit'):
        return implicit(env, scn)
    dt = DT[scn['dtype']]
    model, net, hook, noises = build(env, scn)
    named = {n: p for n, p in net.named_parameters() if n != 'alias'}
    if scn['frozen']:
        frozen = sorted(named)[scn['seed'] % len(named)]
        named.pop(frozen).requires_grad_(False)
    for n, p in named.items():
        p.grad = None
    live = {}
    k = scn['field']
    sdim = 3 if k in ('cnf', 'hutch') else (4 if k == 'order2' else 2)
    aug = scn['integral'] and scn['sens'] == 'autograd'

    def start(fw, xseed):
        x = draw(fw['batch'], sdim, xseed, dt) * (1e-9 if scn.get('rest') else 1.)
        if k in ('cnf', 'hutch'):
            x[:, 0] = 0.
        if aug:
            x = torch.cat([torch.zeros_like(x[:, :1]), x], 1)
        ts = list(reversed(fw['ts'])) if fw['rev'] else fw['ts']
        return x, ts, torch.tensor(ts, dtype=dt)

    for o in scn['ops']:
        fw = scn['fwd'][o['k']] if o['k'] < len(scn['fwd']) else None
        if fw is None:
            continue
        if o['op'] == 'N':
            x, ts, t = start(fw, o['xseed'])
            with torch.no_grad():
                if o.get('traj') and scn['neural']:
                    model.trajectory(x, t)
                else:
                    model(x, t)
            env.nontrivial = True
            env.probe('interleaved-solve')
            continue
        if o['op'] == 'F':
            x, ts, t = start(fw, fw['xseed'])
            x.requires_grad_(fw['xgrad'])
            kw = dict(save_at=[ts[i] for i in fw['keep']]) if fw['keep'] else {}
            te, sol = model(x, t, **kw)
            live[o['k']] = (x, ts, te, sol, noises[-1] if noises else None)
            env.simtime += abs(ts[-1] - ts[0])
            continue
        if o['k'] not in live:
            continue
        x, ts, te, sol, noise = live.pop(o['k'])
        idx = fw['keep'] or list(range(len(ts)))
        if not sol.requires_grad:  # nothing depends on a parameter when only the given initial state is saved
            need(not fw['xgrad'] and idx == [0], 'no-gradient', 'the solution does not require gradients')
            continue
        rows = len(idx)
        dim = sdim
        cot = cotangents(fw, rows, fw['batch'], dim, dt)
        xs = x.detach()[:, 1:] if aug else x.detach()
        amp = backtrack(net, ts, fw['rev']) if scn.get('rest') else 1.
        gx, gp, states = reference(scn, net, xs, ts, idx, list(cot), noise, 1.)
        # returned rows: interpolated adjoint returns every internal point; find the requested ones by time
        pos = []
        for i in idx:
            j = (te.detach() - torch.tensor(ts[i], dtype=dt)).abs().argmin().item()
            pos.append(j)
        need(len(set(pos)) == rows, 'missing-times', f'{te.tolist()} for {[ts[i] for i in idx]}')
        full = torch.zeros_like(sol)
        for c, j in zip(cot, pos):
            full[j, :, 1 if aug else 0:] = c
        if aug:
            full[pos[-1] if idx[-1] == len(ts) - 1 else -1, :, 0] += 1.
        if o['fault'] and scn['sens'] != 'autograd':
            before = {n: None if p.grad is None else p.grad.clone() for n, p in named.items()}
            hook.arm(o['fault'])
            failed = None
            try:
                got = torch.autograd.grad(sol, ([x] if fw['xgrad'] else []) + list(named.values()), full,
                                          retain_graph=True, allow_unused=True)
            except SimFault as e:
                failed = e
            except RuntimeError as e:
                if o['fault']['kind'] == 'raise' or 'underflow' not in str(e):
                    raise
                failed = e
            fired = hook.fired
            hook.arm(None)
            need(fired or failed is None, 'spurious-failure', str(failed))
            if failed is not None:
                env.probe('failed-backward')
            if fired and failed is None and o['fault']['kind'] == 'raise':
                raise Violation('swallowed', 'an exception of the field during the backward pass did not reach the caller')
            after = {n: None if p.grad is None else p.grad.clone() for n, p in named.items()}
            for n in named:
                a, b = before[n], after[n]
                need((a is None and b is None) or (a is not None and b is not None and torch.equal(a, b)),
                     'grad-modified', f'autograd.grad changed the accumulated gradient of {n}')
            if failed is None and (not fired or scn['solver'] != 'rk4' or scn['adj']):
                compare(env, scn, ts[0], te, named, got, fw['xgrad'], gx, gp, aug, 'disturbed backward' if fired else 'backward', 1., amp)
        if o['how'] == 'grad':
            got = torch.autograd.grad(sol, ([x] if fw['xgrad'] else []) + list(named.values()), full, allow_unused=True)
            compare(env, scn, ts[0], te, named, got, fw['xgrad'], gx, gp, aug, 'grad', 1., amp)
        else:
            times = 2 if o['how'] == 'twice' else 1
            before = {n: torch.zeros_like(p) if p.grad is None else p.grad.clone() for n, p in named.items()}
            for j in range(times):
                (sol * full).sum().backward(retain_graph=j + 1 < times)
            got = [x.grad / times] if fw['xgrad'] else []
            got += [((torch.zeros_like(p) if p.grad is None else p.grad) - before[n]) / times for n, p in named.items()]
            big = max([v.abs().max().item() for v in before.values()] + [1.])
            compare(env, scn, ts[0], te, named, got, fw['xgrad'], gx, gp, aug, o['how'], big, amp)
        if scn['ops'].index(o) and len(scn['fwd']) > 1 or fw['style'] != 'last':
            env.nontrivial = True
    env.ev(k, scn['sens'], scn['solver'])
    env.sig(k, scn['sens'], scn['solver'], scn['adj'], [(o['op'], o['k'], str(o.get('fault'))) for o in scn['ops']],
            [(len(f['ts']), f['rev'], f['style'], f['keep']) for f in scn['fwd']])


def backtrack(net, ts, rev):
    """How much retracing the flow backwards over the longest gap enlarges an error of the state at rest."""
    M = (net.A @ getattr(net, 'C', net.A.t())).detach().double()
    gap = max(abs(b - a) for a, b in zip(ts, ts[1:]))
    return max(1., *[torch.linalg.matrix_norm(torch.linalg.matrix_exp(-M * gap * k / 8 * (-1 if rev else 1)), 2).item() for k in range(9)])


def compare(env, scn, t0, te, named, got, xgrad, gx, gp, aug, where, big=1., amp=1.):
    got = list(got)
    scale = 1 + max(v.abs().max().item() for v in [gx] + list(gp.values()))
    h = (te[1:] - te[:-1]).abs().max().item() if len(te) > 1 else 1.
    base = dict(f64=1e-14, f32=3e-5)[scn['dtype']] * (1 + big)
    if scn['solver'] == 'rk4' or scn['solver'] in MS:
        base += 1e-5 if scn['solver'] == 'rk4' else 1e-5 + 30 * scn['tol']
        if scn['solver'] == 'rk4' and scn['sens'] == 'adjoint':  # one backward step between saved times
            base += .5 * max(h, abs(te[0].item() - t0)) ** 5
    else:
        # autograd differentiates the discretisation, whose steps were chosen for the state alone
        base += (30 if scn.get('rest') else 120 if scn['sens'] == 'autograd' else 60) * scn["tol"] / (1 if scn["dtype"] == "f64" or scn["sens"] == "autograd" else 3)
    if scn.get('rest'):
        base *= 3 * amp
    if scn['interp']:
        base += 1e-3
    if scn['sens'] == 'interpolated_adjoint':
        base += (.1 if scn['field'] == 'galerkin' else .02) * h * h  # weights that vary in depth bend the trajectory more
    pairs = []
    if xgrad:
        g = got.pop(0)
        need(g is not None, 'no-gradient', f'{where}: none for the initial state')
        pairs.append(('x', g[:, 1:] if aug else g, gx))
    for (n, p), g in zip(named.items(), got):
        pairs.append((n, torch.zeros_like(p) if g is None else g, gp[n]))
    for n, g, r in pairs:
        need(g.shape == r.shape, 'shape', f'{where}: gradient of {n} is {tuple(g.shape)}')
        e = (g.double() - r).abs().max().item()
        e = e if e == e else float('inf')
        m = e / (base * scale)
        env.metric(f'rest-{scn["sens"]}', m) if scn.get('rest') else env.metric(f'{scn["sens"]}-{"rk4" if scn["solver"] == "rk4" else "adaptive"}{"-interp" if scn["interp"] else ""}-'
                   f'{scn["dtype"]}', m)
        if not m <= 1:
            raise Violation('gradient', f'{where} {scn["field"]} {scn["sens"]} {scn["solver"]}: gradient of {n} off by '
                                        f'{e:.3g} (allowed {base * scale:.3g}): {g.flatten()[:4].tolist()} instead of '
                                        f'{r.flatten()[:4].tolist()}')
