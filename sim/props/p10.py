"""P10: per-solve conditioning belongs to its own solve for any call history."""
import random

import torch
import torch.nn as nn

from ..core import SimFault, Violation
from ..grids import draw_ts
from ..nets import draw
from ..worlds import DT, need, same

COUNT = dict(quick=2000, thorough=40000)
CHUNK = 10
RULE = ('one run = a history of forward, no-gradient, trajectory, default-span and backward calls (some aborted by a fault '
        'in the field or in the noise source, some after a parameter update, a counter reset or a change of mode) with changing batch sizes '
        'on one or two models sharing a field; the conditioning every single evaluation sees is recorded and each result '
        'is compared bitwise with a fresh model replaying the same noise; non-trivial when at least two solves '
        'share the modules; distinct by kind, sensitivity and history')
REAL = ['NeuralODE, NeuralSDE, DEFunc, DEFuncBase, SDEFunc', 'CNF, hutch_trace, autograd_trace', 'DataControl, DepthCat, '
        'GalLinear', 'odeint, sdeint, adjoint and interpolated-adjoint backward passes']
STUB = ['learnable field around the real conditioning modules (spied)', 'noise distribution', 'Brownian path',
        'loss weights', 'fault injection']
ASSUMPTIONS = ['solves on shared stateful modules do not overlap (overlapping ones are claimed for stateless fields only)']
KINDS = ['control', 'control', 'depth', 'both', 'gal', 'hutch', 'hutch', 'hutch_control', 'exact_control', 'integral_control',
         'integral_hutch_control', 'sde', 'sde', 'timefree']
SHRINK = {'ops': ('list', 1), 'two': ('choice', [False]), 'interp': ('choice', [False])}


def generate(rng, i):
    kind = rng.choice(KINDS)
    two = rng.random() < .35 and kind != 'sde'
    sens = ['autograd', 'adjoint', 'interpolated_adjoint']
    if kind.startswith('integral'):
        sens = ['autograd']
    cfgs = []
    for _ in range(2 if two else 1):
        s = rng.choice(['dopri5', 'tsit5', 'rk4', 'euler', 'midpoint'])
        cfgs.append(dict(solver=s, sens=rng.choice(sens), interp=s == 'dopri5' and rng.random() < .4,
                         adj=rng.choice([None, 'dopri5', 'rk4']), t_eval=rng.random() < .7))
    ops, pend = [], []
    for _ in range(rng.choice([2, 3, 4, 5, 6])):
        r = rng.random()
        if pend and r < .25:
            k = pend.pop(rng.randrange(len(pend)))
            ops.append(dict(op='B', of=k, abort=rng.randrange(12) if rng.random() < .25 else None))
            if ops[-1]['abort'] is not None:
                pend.append(k)
        elif r < .32:
            ops.append(dict(op='reset') if rng.random() < .6 else dict(op='mode', train=rng.random() < .3))
        elif r < .4:
            ops.append(dict(op='update', seed=rng.randrange(10 ** 6)))
            pend = []
        else:
            how = rng.choice(['F', 'F', 'F', 'N', 'T' if kind != 'sde' else 'F', 'D'])
            ab = None
            if rng.random() < .25:
                ab = ['noise', 0] if 'hutch' in kind and rng.random() < .3 else ['field', rng.randrange(25)]
            ops.append(dict(op=how, m=rng.randrange(len(cfgs)), xseed=rng.randrange(10 ** 6), batch=rng.choice([1, 1, 2, 3, 5]),
                            ts=draw_ts(rng, n=rng.choice([2, 3, 4]), span=rng.choice([.3, 1., 2.]), near=False),
                            rev=rng.random() < .25, abort=ab))
            if how in ('F', 'D') and ab is None:
                pend.append(len(ops) - 1)
    return dict(kind=kind, cfgs=cfgs, two=two, ops=ops, eval=rng.random() < .2, seed=rng.randrange(10 ** 6), dim=rng.choice([1, 2, 3]),
                dtype='f32' if kind == 'gal' else rng.choice(['f32', 'f64']), sde=rng.choice(['euler', 'milstein_ito']))


class H:
    """What the current solve should be conditioned on, and what its evaluations saw."""
    def __init__(self, env):
        self.env = env
        self.bad, self.started, self.done, self.samples = [], 0, 0, []
        self.control = self.noise = self.t = self.abort = None
        self.neval = 0
        self.replay = None

    def begin(self, control, noise, abort=None):
        self.control, self.noise, self.abort = control, noise, abort
        self.neval, self.samples = 0, []

    def eval(self, t):
        self.env.work()
        self.started += 1
        self.neval += 1
        self.t = t
        if self.abort and self.abort[0] == 'field' and self.abort[1] == self.neval - 1:
            self.env.fault('field-raise')
            raise SimFault('field')

    def saw(self, what, ok, detail):
        if not ok:
            self.bad.append((what, f'evaluation {self.neval}: {detail() if callable(detail) else detail}'))


def modules(h, scn):
    """Spied conditioning modules and the field built from them."""
    from torchdyn.models import CNF
    from torchdyn.models.cnf import autograd_trace, hutch_trace
    from torchdyn.nn import DataControl, DepthCat, GalLinear
    d, dt, k = scn['dim'], DT[scn['dtype']], scn['kind']
    r = random.Random(f'p10/{scn["seed"]}')

    def P(*s):
        n = 1
        for v in s:
            n *= v
        return torch.tensor([r.uniform(-.7, .7) for _ in range(n)], dtype=dt).reshape(s)

    class SpyDepth(DepthCat):
        def forward(self, x):
            out = super().forward(x)
            want = torch.as_tensor(h.t).detach().reshape(-1)[0].to(out.dtype)
            got = out.detach()[:, -1]
            h.saw('depth-variable', out.shape[1] == x.shape[1] + 1 and bool((got == want).all()),
                  f'depth {got.tolist()} while the evaluation is at t = {want.item()!r}')
            return out

    class SpyControl(DataControl):
        def forward(self, x):
            out = super().forward(x)
            got = out.detach()[:, x.shape[1]:]
            h.saw('data-control', got.shape == h.control.shape and bool((got == h.control).all()),
                  lambda: f'control {got.tolist()} instead of the initial condition {h.control.tolist()}')
            return out

    class Lin(nn.Module):
        def __init__(self, i, o):
            super().__init__()
            self.w, self.c = nn.Parameter(P(i, 4)), nn.Parameter(P(4, o))

        def forward(self, x):
            return torch.tanh(x @ self.w) @ self.c

    class Dist:
        def sample(self, shape):
            if h.abort and h.abort[0] == 'noise':
                h.env.fault('noise-raise')
                raise SimFault('noise')
            if h.replay is not None:
                z = h.replay.clone()
            else:
                h.env.probe('noise draws')
                z = torch.where(torch.rand(tuple(shape) + (d,), dtype=torch.float64, generator=h.gen) < .5, -1., 1.).to(dt)
            h.samples.append(z.clone())
            if h.noise is None:
                h.noise = z.clone()
            return z

    def est(x_out, x_in, noise=None, **kw):
        h.saw('trace-noise', noise is not None and h.noise is not None and same(noise, h.noise),
              f'noise {None if noise is None else noise.tolist()} instead of {None if h.noise is None else h.noise.tolist()}')
        return hutch_trace(x_out, x_in, noise=noise, **kw)

    class Outer(nn.Module):
        def __init__(self, body):
            super().__init__()
            self.body = body

        def forward(self, t, x, args={}):
            h.eval(t)
            out = self.body(x)
            h.done += 1
            return out

    class OuterTimeFree(nn.Module):
        def __init__(self, body):
            super().__init__()
            self.body = body

        def forward(self, x):
            h.eval(None)
            out = self.body(x)
            h.done += 1
            return out
    h.gen = torch.Generator()
    h.gen.manual_seed(scn['seed'])
    if k == 'control' or k == 'integral_control':
        return Outer(nn.Sequential(SpyControl(), Lin(2 * d, d)))
    if k == 'timefree':
        return OuterTimeFree(nn.Sequential(SpyControl(), Lin(2 * d, d)))
    if k == 'depth':
        return Outer(nn.Sequential(SpyDepth(), Lin(d + 1, 3), SpyDepth(), Lin(4, d)))
    if k == 'both':
        return Outer(nn.Sequential(SpyDepth(), Lin(d + 1, d), SpyControl(), SpyDepth(), Lin(2 * d + 1, d)))
    if k == 'gal':
        g1, g2 = GalLinear(d, 3), GalLinear(3, d)
        for g in (g1, g2):
            g.coeffs.data = P(*g.coeffs.shape) * .5
        return Outer(nn.Sequential(SpyDepth(), g1, nn.Tanh(), SpyDepth(), g2))
    if k == 'hutch':
        return Outer(CNF(nn.Sequential(SpyDepth(), Lin(d + 1, d)), est, Dist()))
    if k in ('hutch_control', 'integral_hutch_control'):
        return Outer(CNF(nn.Sequential(SpyDepth(), SpyControl(), Lin(2 * d + 1, d)), est, Dist()))
    if k == 'exact_control':
        return Outer(CNF(nn.Sequential(SpyControl(), Lin(2 * d, d)), autograd_trace))

    class SDEPart(nn.Module):
        def __init__(self, body, scale):
            super().__init__()
            self.body, self.scale = body, scale

        def forward(self, t, x):
            h.eval(t)
            out = self.body(x) * self.scale
            h.done += 1
            return out
    return (SDEPart(nn.Sequential(SpyControl(), Lin(2 * d, d)), 1.), SDEPart(nn.Sequential(SpyControl(), Lin(2 * d, d)), .5))


def excess(scn):
    """(columns before the dynamics' state, columns the initial condition needs in front)."""
    k = scn['kind']
    return dict(hutch=1, hutch_control=1, exact_control=1, integral_control=1, integral_hutch_control=2).get(k, 0)


def path(a, b):
    """A smooth deterministic driving path (elementwise the same for all components)."""
    return torch.sin(3. * b) - torch.sin(3. * a) + .3 * (b - a)


def build(h, scn):
    from torchdyn.core import NeuralODE, NeuralSDE
    field = modules(h, scn)
    if scn['kind'] == 'sde':
        return [NeuralSDE(*field, solver=scn['sde'], sde_type='ito', noise_type='diagonal', bm=path)], nn.ModuleList(field)
    loss = (lambda t, x: (x ** 2).sum(1)) if scn['kind'].startswith('integral') else None
    ms = []
    for c in scn['cfgs']:
        ms.append(NeuralODE(field, solver=c['solver'], sensitivity=c['sens'], atol=1e-4, rtol=1e-4, atol_adjoint=1e-4,
                            rtol_adjoint=1e-4, solver_adjoint=c['adj'], integral_loss=loss, return_t_eval=c['t_eval'],
                            interpolator='4th' if c['interp'] else None))
    return ms, field


def counters(scn, m):
    """The evaluation counters of a model, as a user reads and resets them."""
    if scn['kind'] == 'sde':
        return [m.defunc]
    out = [m.vf]
    if scn['kind'] == 'timefree':
        out.append(m.vf.vf)
    return out


def inputs(scn, op):
    d, dt = scn['dim'], DT[scn['dtype']]
    x = draw(op['batch'], d, op['xseed'], dt)
    x = torch.cat([torch.zeros(op['batch'], excess(scn), dtype=dt), x], 1)
    if op['op'] == 'D':
        return x, None
    ts = torch.tensor(op['ts'], dtype=dt)
    return x, (ts.flip(0) if op['rev'] else ts)


def solve(scn, m, op, x, ts):
    """-> (times or None, solution)"""
    if op['op'] == 'T':
        return None, m.trajectory(x, ts)
    ctx = torch.no_grad() if op['op'] == 'N' else torch.enable_grad()
    with ctx:
        out = m(x) if op['op'] == 'D' else m(x, ts)
    return out if isinstance(out, tuple) else (None, out)


def execute(env, scn):
    h = H(env)
    models, holder = build(h, scn)
    base = {id(m): (0, 0) for m in models}
    params = list(holder.parameters())
    ex = excess(scn)
    pend = {}
    nsolve = 0
    env.sig(scn['kind'], str(scn['cfgs']))
    hutch = 'hutch' in scn['kind']
    # a model's own counters see its own evaluations only
    own = {id(m): [0, 0] for m in models}

    def check_counts(when):
        for j, m in enumerate(models):
            for c in counters(scn, m):
                if scn['two'] and c is not m.vf:
                    continue  # the inner wrapper of a time-free field is made per model too, but counts once per call
                lo, hi = own[id(m)][0], own[id(m)][1]
                need(lo <= c.nfe <= hi, 'evaluation-counter',
                     f'{when}: model {j} made {hi} evaluations ({hi - lo} of them aborted) but its counter says {c.nfe}')

    def tally(m, s0, d0):
        own[id(m)][0] += h.done - d0
        own[id(m)][1] += h.started - s0

    def fresh(noise):
        h2 = H(env)
        ms, hold = build(h2, scn)
        with torch.no_grad():
            for p, q in zip(hold.parameters(), params):
                p.copy_(q)
        h2.replay = noise
        return h2, ms, list(hold.parameters())

    if scn.get('eval'):
        for m in models:
            m.eval()
    for n, op in enumerate(scn['ops']):
        o = op['op']
        if o == 'reset':
            for m in models:
                for c in counters(scn, m):
                    c.nfe = 0
                own[id(m)] = [0, 0]
            continue
        if o == 'mode':  # evaluation and training mode mean the same here
            for m in models:
                m.train(op['train'])
            continue
        if o == 'update':
            with torch.no_grad():
                for j, p in enumerate(params):
                    p.add_(.05 * torch.sin(torch.arange(p.numel(), dtype=p.dtype) + j + op['seed']).reshape(p.shape))
            pend.clear()
            env.probe('parameter updates')
            continue
        s0, d0 = h.started, h.done
        if o == 'B':
            if op['of'] not in pend:
                continue
            f, m, x, sol, noise, control, cot = pend[op['of']]
            h.begin(control, noise, ['field', op['abort']] if op['abort'] is not None else None)
            try:
                got = torch.autograd.grad(sol, [x] + params, cot, retain_graph=True, allow_unused=True)
            except SimFault:
                got = None
                env.probe('backward passes aborted')
            tally(m, s0, d0)
            nbad(h, n, 'backward')
            need(not h.samples, 'trace-noise', f'op {n}: a backward pass drew new trace noise')
            check_counts(f'op {n}')
            if got is None:
                continue
            del pend[op['of']]
            env.probe('backward passes')
            h2, ms, ps = fresh(noise)
            x2 = x.detach().clone().requires_grad_(True)
            h2.begin(control, None)
            _, sol2 = solve(scn, ms[f['m']], f, x2, inputs(scn, f)[1])
            want = torch.autograd.grad(sol2, [x2] + ps, cot, allow_unused=True)
            need(same(list(got), list(want)), 'gradient-history',
                 f'op {n}: gradients of solve {op["of"]} differ from those of a fresh model')
            continue
        m = models[op['m']]
        x, ts = inputs(scn, op)
        control = x[:, ex:].clone()
        if o in ('F', 'D'):
            x.requires_grad_(True)
        h.begin(control, None, op['abort'])
        try:
            te, sol = solve(scn, m, op, x, ts)
        except SimFault:
            tally(m, s0, d0)
            nbad(h, n, o)
            check_counts(f'op {n}')
            env.probe('solves aborted')
            continue
        tally(m, s0, d0)
        nsolve += 1
        env.simtime += 1. if ts is None else float((ts[-1] - ts[0]).abs())
        env.ev(n, o, h.neval, env.T(sol))
        env.sig(o, op['batch'], h.neval)
        nbad(h, n, o)
        if hutch:
            need(len(h.samples) == 1, 'trace-noise', f'op {n}: one solve drew trace noise {len(h.samples)} times')
        check_counts(f'op {n}')
        grid = torch.linspace(0, 1, 2) if ts is None else ts
        need(te is None or (len(te) == len(grid) and torch.allclose(te.to(grid), grid, atol=1e-5))
             or scn['kind'] != 'sde' and scn['cfgs'][op['m']]['sens'] == 'interpolated_adjoint', 'times',
             f'op {n}: returned times {te} for requested {grid.tolist()}')
        noise = h.noise
        h2, ms, _ = fresh(noise)
        h2.begin(control, None)
        te2, sol2 = solve(scn, ms[op['m']], op, x.detach().clone().requires_grad_(x.requires_grad), ts)
        nbad(h2, n, o + ' (fresh)')
        need(same(sol, sol2) and (te is None or same(te, te2)), 'result-history',
             lambda: f'op {n} ({o}): the result differs from that of a fresh model by '
             f'{(sol - sol2).abs().max().item() if sol.shape == sol2.shape else (sol.shape, sol2.shape)}')
        if o in ('F', 'D') and sol.requires_grad:
            r = random.Random(f'cot/{op["xseed"]}')
            cot = torch.tensor([r.uniform(-1, 1) for _ in range(sol.numel())], dtype=sol.dtype).reshape(sol.shape)
            pend[n] = (op, m, x, sol, noise, control, cot)
    if nsolve > 1:
        env.nontrivial = True


def nbad(h, n, what):
    if h.bad:
        w, det = h.bad[0]
        raise Violation(w, f'op {n} ({what}): {det}')
