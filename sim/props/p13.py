"""P13: parallel-in-time solves recover the serial fine solution from any initial guess."""
import random

import torch
import torch.nn as nn

from ..core import SimFault, Violation
from ..nets import draw
from ..worlds import DT, need, same

COUNT = dict(quick=3500, thorough=60000)
CHUNK = 20
RULE = ('one run = a history of 1-3 parallel-in-time solves on shared solver and model objects, each started from a guess '
        'corrupted by the simulator (noise of any size, constants, swapped or stale points, exact solution) with a drawn '
        'iteration budget, some aborted by a fault in a drawn field evaluation and repeated; the points that must be exact '
        'are compared with the serial fine solution; non-trivial when the guess was corrupted or a solve was aborted; '
        'distinct by method, grid, corruption and budget')
REAL = ['odeint_mshooting, MSZero, MSBackward, MultipleShootingProblem, MultipleShootingLayer', '_fixed_odeint and the '
        'explicit solvers used as coarse and fine methods']
STUB = ['autonomous vector field with fault injection', 'initial guesses']
ASSUMPTIONS = ['equally spaced requested times and time-invariant fields, as documented', 'gradients are claimed for fields that do not overflow on the guess']
SHRINK = {'problems': ('list', 1)}
CORR = ['none', 'none', 'noise', 'huge', 'zeros', 'const', 'swap', 'stale', 'one', 'exact', 'tail']


def generate(rng, i):
    probs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([2, 2, 3, 4, 5, 6, 8])
        probs.append(dict(n=n, maxiter=rng.choice([0, 1, 2, n - 2, n - 1, n, n + 1, 2 * n, 30]), T=rng.choice([.2, .5, 1., 1.5]),
                          t0=rng.choice([0., 0., -1., 2.]), rev=rng.random() < .3, corr=rng.choice(CORR),
                          batch=rng.choice([1, 2, 3]), xseed=rng.randrange(10 ** 6), abort=rng.randrange(200) if
                          rng.random() < .25 else None, nograd=rng.random() < .4, at=rng.random(),
                          fine=rng.choice([2, 2, 3, 5]), grads=rng.random() < .5))
    return dict(entry=rng.choice(['func', 'func', 'layer', 'problem']), method=rng.choice(['mszero', 'mszero', 'mszero', 'msbackward', 'msbackward', 'ieuler']),
                objects=rng.choice(['str', 'obj']), coarse=rng.choice(['euler', 'midpoint', 'rk4']),
                fine=rng.choice(['rk4', 'midpoint', 'euler']), field=rng.choice(['linear', 'sin', 'net', 'cubic', 'const']),
                dim=rng.choice([1, 2, 3]), dtype=rng.choice(['f64', 'f64', 'f32']), problems=probs,
                seed=rng.randrange(10 ** 6))


class Field(nn.Module):
    def __init__(self, env, scn):
        super().__init__()
        r = random.Random(f'ms/{scn["seed"]}')
        d, dt = scn['dim'], DT[scn['dtype']]
        self.A = nn.Parameter(torch.tensor([[r.uniform(-.8, .8) for _ in range(d)] for _ in range(d)], dtype=dt))
        self.B = nn.Parameter(torch.tensor([[r.uniform(-.8, .8) for _ in range(d)] for _ in range(d)], dtype=dt))
        self.env, self.kind, self.n, self.abort = env, scn['field'], 0, None

    def forward(self, t, x, args={}):
        self.env.work()
        k = self.n
        self.n += 1
        if self.abort is not None and k == self.abort:
            self.env.fault('field-raise')
            raise SimFault('field')
        if self.kind == 'linear':
            return x @ self.A
        if self.kind == 'sin':
            return torch.sin(2 * x) @ self.A
        if self.kind == 'net':
            return torch.tanh(x @ self.A) @ self.B
        if self.kind == 'cubic':  # contracting, but explosive for corrupted states
            return -.3 * x ** 3 + .5 * x @ self.A
        return x * 0 + self.A[0]


def serial(f, x, ts, p, scn):
    """Fine solver applied from point to point."""
    from torchdyn.numerics import odeint
    sub = torch.linspace(0, float(ts[1] - ts[0]), p['fine'], dtype=x.dtype)
    out = [x]
    for _ in range(p['n'] - 1):
        out.append(odeint(f, out[-1], sub, scn['fine'])[1][-1])
    return torch.stack(out)


def implicit_euler(f, x, ts):
    out = [x]
    for h in (ts[1:] - ts[:-1]).tolist():
        y = out[-1]
        for _ in range(200):
            y = out[-1] + h * f(0., y)
        out.append(y)
    return torch.stack(out)


def guess(p, x, ref, scn, prev):
    """A finite guess; None lets the solver compute its own."""
    r = random.Random(f'guess/{p["xseed"]}')
    c, n = p['corr'], p['n']
    if c == 'huge' and scn['method'] == 'ieuler':  # a search by descent has a limited range
        c = 'noise'
    noise = torch.tensor([r.uniform(-1, 1) for _ in range(ref.numel())], dtype=x.dtype).reshape(ref.shape)
    if c == 'none':
        return None
    if c == 'noise':
        B = noise * 2
    elif c == 'huge':
        B = noise * 10. ** r.choice([2, 3, 5, 8])
    elif c == 'zeros':
        B = torch.zeros_like(ref)
    elif c == 'const':
        B = x.detach().expand_as(ref).clone()
    elif c == 'swap':
        B = ref[torch.randperm(n, generator=torch.Generator().manual_seed(p['xseed']))].clone()
    elif c == 'stale' and prev is not None and prev.shape == ref.shape:
        B = prev.clone()
    elif c == 'one':
        B = ref.clone()
        B[r.randrange(n)] += 3.
    elif c == 'tail':
        B = ref.clone()
        k = r.randrange(n)
        B[k:] = noise[k:] * 5
    elif c == 'exact':
        B = ref.clone()
    else:
        B = ref + noise
    if r.random() < .5:  # the first point of a guess may be as wrong as any other
        B[0] = x
    return B.detach()


def gradients(env, n, p, scn, f, x, ts, B, tol):
    """Where the whole result is the serial solution, so is its derivative."""
    r = random.Random(f'cot/{p["xseed"]}')
    cot = torch.tensor([r.uniform(-1, 1) for _ in range(B.numel())], dtype=B.dtype).reshape(B.shape)
    ps = [x] + list(f.parameters())
    got = torch.autograd.grad(B, ps, cot, allow_unused=True)
    want = torch.autograd.grad(serial(f, x, ts, p, scn), ps, cot, allow_unused=True)
    for k, (a, b) in enumerate(zip(got, want)):
        need((a is None) == (b is None) or (a if b is None else b).abs().max() == 0, 'serial-gradient', f'problem {n}: {a} for {b}')
        if a is None or b is None:
            continue
        err = (a - b).abs().max().item()
        lim = 100 * tol * max(1., b.abs().max().item())
        env.metric('gradient error / tolerance', err / lim)
        need(err <= lim, 'serial-gradient', f'problem {n}: gradient {k} is {a.tolist()}, of the serial solution {b.tolist()} '
             f'(guess {p["corr"]}, {p["maxiter"]} iterations, {p["n"]} points)')
    env.probe('gradients compared')


def execute(env, scn):
    from torchdyn.core import MultipleShootingLayer
    from torchdyn.core.problems import MultipleShootingProblem
    from torchdyn.numerics import odeint_mshooting
    from torchdyn.numerics.solvers.ode import MSBackward, MSZero, ParallelImplicitEuler
    torch.manual_seed(scn['seed'])
    f = Field(env, scn)
    dt = DT[scn['dtype']]
    if scn['objects'] == 'str':
        scn = dict(scn, fine='rk4')  # the documented defaults
        solver = scn['method']
    elif scn['method'] == 'ieuler':
        solver = ParallelImplicitEuler(scn['coarse'], scn['fine'])
    else:
        solver = dict(mszero=MSZero, msbackward=MSBackward)[scn['method']](scn['coarse'], scn['fine'])
    cls = dict(layer=MultipleShootingLayer, problem=MultipleShootingProblem).get(scn['entry'])
    model = cls(f, solver) if cls else None
    prev = None
    for n, p in enumerate(scn['problems']):
        x = draw(p['batch'], scn['dim'], p['xseed'], dt, -1., 1.)
        ts = p['t0'] + torch.linspace(0, p['T'], p['n'], dtype=dt)
        if p['rev']:
            ts = ts.flip(0)
        if p['rev'] and scn['field'] == 'cubic':
            x = x * .5
        f.abort = None
        implicit = scn['method'] == 'ieuler'
        if implicit:
            # below this step the equations have one solution and the search for it no other place to stop at
            a, b = (torch.linalg.matrix_norm(v.detach().double(), 2).item() for v in (f.A, f.B))
            lip = dict(linear=a, sin=2 * a, net=a * b, const=0.).get(scn['field'], 99)
            if not abs(float(ts[1] - ts[0])) * lip <= .5:
                env.probe('skipped: implicit step not contracting')
                continue
        with torch.no_grad():
            ref = implicit_euler(f, x, ts) if implicit else serial(f, x, ts, p, scn)
        if not torch.isfinite(ref).all() or ref.abs().max() > 1e3:
            env.probe('skipped: serial solution not moderate')
            continue
        B0 = guess(p, x, ref, scn, prev)
        B0_in = None if B0 is None else B0.clone()
        x.requires_grad_(not p['nograd'])
        x_in, ts_in = x.detach().clone(), ts.clone()

        def solve():
            with torch.set_grad_enabled(not p['nograd']):
                if model is None:
                    return odeint_mshooting(f, x, ts, solver, B0, fine_steps=p['fine'], maxiter=p['maxiter'])
                model.fine_steps, model.maxiter = p['fine'], p['maxiter']
                return model(x, ts, B0) if n % 2 == 0 else model.odeint(x, ts, B0)
        if p['abort'] is not None:
            f.n, f.abort = 0, p['abort']
            try:
                solve()
            except SimFault:
                env.probe('aborted and repeated')
            f.abort = None
        te, B = solve()
        env.simtime += p['T']
        env.ev(n, env.T(B))
        env.sig(scn['method'], scn['entry'], scn['field'], p['n'], p['maxiter'], p['corr'], p['fine'], p['rev'], p['abort'])
        if p['corr'] not in ('none', 'exact'):
            env.fault('guess-' + p['corr'])
        need(te.shape == ts_in.shape and torch.allclose(te.to(dt), ts_in, atol=1e-6), 'points', f'times {te} for {ts_in}')
        need(B.shape == ref.shape, 'points', f'problem {n}: result of shape {tuple(B.shape)} for {p["n"]} requested times '
             f'(maxiter {p["maxiter"]})')
        need(same(x, x_in) and same(ts, ts_in) and (B0 is None or same(B0, B0_in)), 'input-modified', f'problem {n}')
        if not p['nograd']:
            need(B0 is None or not B0.requires_grad, 'input-modified', f'problem {n}: the guess was marked as requiring gradients')
        graph, B = B, B.detach()
        scale = max(1., ref.abs().max().item())
        if B0 is not None:
            scale = max(scale, 1e-3 * min(1e3, B0.abs().max().item()))
        tol = (1e-11 if scn['dtype'] == 'f64' else 1e-4) * scale
        k = min(p['maxiter'], p['n'] - 1)
        if implicit:
            tol, k = 2e-4 * scale, p['n'] - 1  # the accuracy of the search
        err = (B - ref).abs().flatten(1).max(1).values
        need(err[0].item() == 0., 'first-point', f'problem {n}: first point off by {err[0].item():.3g} (guess {p["corr"]})')
        worst = err[:k + 1].max().item()
        env.metric('error / tolerance', worst / tol)
        need(worst <= tol, 'serial-prefix', f'problem {n}: after {p["maxiter"]} iterations from guess "{p["corr"]}" the first '
             f'{k + 1} of {p["n"]} points are off by {err[:k + 1].tolist()}')
        if k == p['n'] - 1:
            env.probe('whole result exact')
        if p['corr'] == 'exact':
            worst = err.max().item()
            env.metric('fixed point error / tolerance', worst / tol)
            need(worst <= tol, 'fixed-point', f'problem {n}: exact solution changed by {err.tolist()} in {p["maxiter"]} iterations')
            env.probe('fixed points')
        if k == p['n'] - 1 and not implicit and not p['nograd'] and p['grads'] and scn['field'] != 'cubic':
            gradients(env, n, p, scn, f, x, ts, graph, tol)
        prev = ref
        if n:
            env.nontrivial = True
