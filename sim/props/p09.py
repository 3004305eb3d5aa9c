"""P09: SDE solves consume each noise increment once and follow their scheme exactly."""
import math
import random

import numpy
import torch

from ..core import SimFault, Violation
from ..grids import draw_ts
from ..nets import draw
from ..worlds import DT, EPS, need, same
from .p04 import Path as SmoothPath

COUNT = dict(quick=4500, thorough=110000)
RULE = ('one run = a history of 1-4 stochastic solves (sequential, nested in one another\'s drift, aborted by faults and '
        'repeated) that share one noise path, which is also queried by others in any order; queries are recorded and the '
        'trajectories compared with a float64 model of the named scheme driven by the same increments; non-trivial when '
        'the path was shared, a fault fired or a refusal was required; distinct by scheme, grid, path kind and history')
REAL = ['sdeint, _fixed_sdeint', 'EulerMaruyama, EulerHeun, Milstein solvers', 'SDEFunc, SDEProblem, NeuralSDE',
        'torchsde.BrownianInterval (some runs)']
STUB = ['smooth simulated noise path with result caching', 'drift and diffusion with fault injection and nested solves']
ASSUMPTIONS = ['diagonal, additive and scalar noise', 'a Brownian interval may return different values to a different '
               'instance; only the same instance is compared with itself']
SCHEMES = ['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich']
TYPE = dict(euler='ito', eulerHeun='stratonovich', milstein_ito='ito', milstein_stratonovich='stratonovich')
SHRINK = {'solves': ('list', 1), 'batch': ('int', 1), 'path': ('choice', ['smooth'])}


class Mod(torch.nn.Module):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def forward(self, t, x):
        return self.fn(t, x)


class TimeFree(Mod):
    def forward(self, x):
        return self.fn(None, x)


FORMS = ['function', 'function', 'module', 'timefree', 'timefree-module']


def form(rng):
    return dict(ff=rng.choice(FORMS), gf=rng.choice(FORMS), lst=rng.random() < .15, own=rng.random() < .2, bare=rng.random() < .2)


def shaped(how, fn, timefree):
    """The ways users write drift and diffusion."""
    if how.startswith('timefree') and timefree:
        return TimeFree(fn) if how == 'timefree-module' else lambda x: fn(None, x)
    return Mod(fn) if how.endswith('module') else fn


def generate(rng, i):
    if rng.random() < .12:
        return dict(mode='refuse', scheme=rng.choice(SCHEMES), entry=rng.choice(['sdeint', 'neuralsde', 'object']),
                    sde_type=rng.choice(['ito', 'stratonovich', 'Ito', 'backward', None]),
                    noise_type=rng.choice(['diagonal', 'scalar', 'additive', 'general', 'weird', None]),
                    dtype='f64', xseed=rng.randrange(10 ** 6))
    base = draw_ts(rng, n=rng.choice([3, 5, 8, 12]), span=rng.choice([.5, 1., 2.]), near=False)
    solves = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        n = rng.randrange(2, len(base) + 1)
        ts = sorted(rng.sample(base, n))
        solves.append(dict(scheme=rng.choice(SCHEMES), ts=ts, xseed=rng.randrange(10 ** 6),
                           entry=rng.choice(['sdeint', 'sdeint', 'neuralsde', 'object', 'duck', 'problem']),
                           fault=rng.choice([None, None, None, 'drift', 'diffusion', 'noise']), at=rng.choice([0, 1, 2, 4, 7]),
                           nest=rng.choice([-1, -1, -1, 0, 1, 3]), noise=rng.choice(['diagonal', 'diagonal', 'additive', 'scalar']),
                           field=rng.choice(['both', 'time', 'state', 'zero']), nograd=rng.random() < .3,
                           save=rng.random() < .25, **form(rng),
                           others=[[rng.random(), rng.random()] for _ in range(rng.choice([0, 0, 2, 5]))]))
    return dict(mode='solve', solves=solves, base=base, dtype=rng.choice(['f64', 'f64', 'f32']), batch=rng.choice([1, 2, 4]),
                path=rng.choice(['smooth', 'smooth', 'cached', 'interval']), xseed=rng.randrange(10 ** 6))


class Noise:
    """The noise path all solves share; records every query with the value given out."""
    def __init__(self, env, scn, dt):
        self.env, self.kind, self.dt = env, scn['path'], dt
        self.fault_at = None
        self.cache, self.queries, self.given = {}, [], []
        b = scn['base']
        if self.kind == 'interval':
            import torchsde
            self.bi = torchsde.BrownianInterval(t0=b[0], t1=b[-1], size=(scn['batch'], 2), dtype=dt,
                                                entropy=scn['xseed'] % 1000003)
        else:
            self.p = SmoothPath(env, (scn['batch'], 2), scn['xseed'], dt)

    def value(self, a, b):
        if self.kind == 'interval':
            return self.bi(a, b)
        key = (float(a), float(b))
        if key not in self.cache:
            v = (self.p.W(key[1]) - self.p.W(key[0])).to(self.dt)
            if self.kind != 'cached':
                return v
            self.cache[key] = (v, v.clone())
        return self.cache[key][0]

    def __call__(self, a, b):
        self.env.work()
        if self.fault_at is not None:
            self.fault_at -= 1
            if self.fault_at < 0:
                self.fault_at = None
                self.env.fault('noise-path')
                raise SimFault('noise')
        v = self.value(a, b)
        self.queries.append((float(a), float(b), v.detach().double().clone()))
        if self.kind == 'interval':
            self.given.append(self.queries[-1])
        return v


def drift(kind, w):
    if kind == 'zero':
        return lambda t, x: torch.zeros_like(x)
    if kind == 'time':
        return lambda t, x: torch.cos(3 * t) * torch.ones_like(x)
    if kind == 'state':
        return lambda t, x: torch.sin(x) - .5 * x
    return lambda t, x: torch.cos(t) - x


def diffusion(kind, noise):
    if noise == 'additive':
        return lambda t, x: .4 + .2 * torch.sin(2 * t) * torch.ones_like(x)
    if kind == 'zero':
        return lambda t, x: torch.ones_like(x)
    return lambda t, x: .3 + .2 * torch.sin(x + t if kind != 'state' else x)


def reference(scheme, f, g, x, ts, dW):
    """The named schemes in float64, written out."""
    x = x.double()
    out = [x]
    for a, b, w in zip(ts, ts[1:], dW):
        t, t1 = torch.tensor(a, dtype=torch.float64), torch.tensor(b, dtype=torch.float64)
        h = b - a
        F, G = f(t, x), g(t, x)
        if scheme == 'euler':
            x = x + F * h + G * w
        elif scheme == 'eulerHeun':
            x = x + F * h + .5 * (G + g(t1, x + G * w)) * w
        else:
            s = math.sqrt(h)
            v = w * w - h if scheme == 'milstein_ito' else w * w
            x = x + F * h + G * w + (g(t, x + F * h + G * s) - G) / (2 * s) * v
        out.append(x)
    return torch.stack(out)


def refuse(env, scn):
    from torchdyn.core import NeuralSDE
    from torchdyn.core.defunc import SDEFunc
    from torchdyn.numerics.sdeint import sdeint
    from torchdyn.numerics.solvers.sde import SDE_SOLVER_DICT
    dt = DT[scn['dtype']]
    s = scn['scheme']
    calls = []

    def f(t, x):
        calls.append('drift')
        return -x

    def g(t, x):
        calls.append('diffusion')
        return torch.ones_like(x)

    def bm(a, b):
        calls.append('noise')
        return torch.ones(2, 2, dtype=dt) * float(b - a)
    x, t = draw(2, 2, scn['xseed'], dt), torch.linspace(0, 1, 3, dtype=dt)
    right = scn['sde_type'] == TYPE[s] and scn['noise_type'] in ('diagonal', 'scalar', 'additive', 'general')
    env.nontrivial = True
    env.fault('declared-types')
    try:
        if scn['entry'] == 'neuralsde':
            NeuralSDE(f, g, solver=s, sde_type=scn['sde_type'], noise_type=scn['noise_type'], bm=bm)(x, t)
        else:
            sde = SDEFunc(f=f, g=g, sde_type=scn['sde_type'], noise_type=scn['noise_type'])
            solver = SDE_SOLVER_DICT[s](sde, bm, dt) if scn['entry'] == 'object' else s
            sdeint(sde, x, t, solver, bm)
        ok = True
    except Exception as e:
        ok = False
        if right:
            raise Violation('refused', f'{s} refused {scn["sde_type"]}/{scn["noise_type"]}: {e}')
    if ok and not right:
        raise Violation('not-refused', f'{s} accepted an equation declared {scn["sde_type"]}/{scn["noise_type"]}')
    env.ev(s, right)
    env.sig('refuse', s, scn['entry'], scn['sde_type'], scn['noise_type'])


def execute(env, scn):
    if scn['mode'] == 'refuse':
        return refuse(env, scn)
    from torchdyn.core import NeuralSDE, SDEProblem
    from torchdyn.core.defunc import SDEFunc
    from torchdyn.numerics.sdeint import sdeint
    from torchdyn.numerics.solvers.sde import SDE_SOLVER_DICT
    dt, eps = DT[scn['dtype']], EPS[scn['dtype']]
    noise = Noise(env, scn, dt)
    lo, hi = scn['base'][0], scn['base'][-1]
    sigs = []

    def solve(d):
        so = scn['solves'][d]
        s, ts = so['scheme'], [t for t in so['ts']]
        f0, g0 = drift(so['field'], 1.), diffusion(so['field'], so['noise'])
        fault = [so['fault'], so['at']]
        nest = [so['nest'] if d + 1 < len(scn['solves']) else -1]
        nested = [False]

        def hit(who):
            env.work()
            if fault[0] == who:
                fault[1] -= 1
                if fault[1] < 0:
                    fault[0] = None
                    env.fault(who)
                    raise SimFault(who)

        def f(t, x):
            hit('drift')
            if nest[0] >= 0:
                nest[0] -= 1
                if nest[0] < 0:
                    env.fault('nested-solve')
                    nested[0] = True
                    keep, noise.queries = noise.queries, []
                    fa, noise.fault_at = noise.fault_at, None
                    solve(d + 1)
                    noise.queries, noise.fault_at = keep, fa
            return f0(t, x)

        def g(t, x):
            hit('diffusion')
            return g0(t, x)
        x = draw(scn['batch'], 2, so['xseed'], dt)
        t = torch.tensor(ts, dtype=dt)
        x_in, t_in = x.clone(), t.clone()
        kw = {}
        if so['save']:
            kw['save_at'] = t[-1:]

        fu = shaped(so['ff'], f, so['field'] in ('state', 'zero'))
        gu = shaped(so['gf'], g, so['noise'] != 'additive' and so['field'] in ('state', 'zero'))
        span = [v.reshape(1) for v in t] if so['lst'] else t
        if so['entry'] == 'neuralsde':
            m = NeuralSDE(fu, gu, solver=s, sde_type=TYPE[s], noise_type=so['noise'], bm=noise, return_t_eval=not so['bare'],
                          **(dict(t_span=span) if so['own'] else {}))

            def call():
                out = m(x, **kw) if so['own'] else m(x, span, **kw)
                return (t[-1:] if so['save'] else t, out) if so['bare'] else out
        elif so['entry'] == 'problem':
            m = SDEProblem(SDEFunc(f=fu, g=gu, sde_type=TYPE[s], noise_type=so['noise']), s)

            def call():
                return (m if so['own'] else m.sdeint)(x, span, noise, **kw)
        elif so['entry'] == 'duck':
            class Duck:
                sde_type, noise_type = TYPE[s], so['noise']

                def f(self, t, x):
                    return f(t, x)

                def g(self, t, x):
                    return g(t, x)

            def call():
                return sdeint(Duck(), x, span, s, noise, **kw)
        else:
            sde = SDEFunc(f=fu, g=gu, sde_type=TYPE[s], noise_type=so['noise'])
            solver = SDE_SOLVER_DICT[s](sde, noise, dt) if so['entry'] == 'object' else s

            def call():
                return sdeint(sde, x, span, solver, noise, **kw)
        for a, b in so['others']:  # other users of the path
            a, b = sorted((lo + a * (hi - lo), lo + b * (hi - lo)))
            if b > a:
                noise.value(a, b)
                env.probe('foreign-query')
        rngs = (torch.get_rng_state(), random.getstate(), numpy.random.get_state()[1].copy())
        for attempt in range(3):
            if so['fault'] == 'noise' and attempt == 0:
                noise.fault_at = so['at']
            noise.queries = []
            n0 = nested[0]
            try:
                with torch.set_grad_enabled(not so['nograd']):
                    te, sol = call()
                break
            except SimFault:
                continue
        noise.fault_at = None
        if noise.kind != 'interval':
            now = (torch.get_rng_state(), random.getstate(), numpy.random.get_state()[1])
            need(torch.equal(rngs[0], now[0]) and rngs[1] == now[1] and (rngs[2] == now[2]).all(), 'randomness',
                 f'{s}: a solve on a given path drew from a global generator')
        need(same(x, x_in) and same(t, t_in), 'input-modified', f'{s}: the solve modified its inputs')
        q = noise.queries
        # ---- contiguous and exact cover of the span, one interval per grid step
        tf = t.double().tolist()
        ulp = 4 * eps * len(tf) * (max(map(abs, tf)) + 1e-3)
        k = 0
        need(q and q[0][0] == tf[0], 'noise-cover', f'{s}: first query {q[:1]} for a span from {tf[0]}')
        prev = None
        incs = []
        for a, b, v in q:
            if prev is not None and (a, b) == prev:
                continue
            need(prev is None or a == prev[1], 'noise-cover', f'{s}: interval ({a}, {b}) queried after {prev}')
            need(k + 1 < len(tf) and abs(a - tf[k]) <= ulp and abs(b - tf[k + 1]) <= ulp, 'noise-cover',
                 f'{s}: interval ({a}, {b}) queried, grid {tf}')
            prev = (a, b)
            incs.append(v)
            k += 1
        need(k == len(tf) - 1, 'noise-cover', f'{s}: {k} intervals queried on a grid of {len(tf)} points')
        if noise.kind != 'interval':
            # the increments between the grid points, whatever was handed out
            incs = [noise.p.W(b) - noise.p.W(a) for a, b in zip(tf, tf[1:])]
        ref = reference(s, f0, g0, x_in, tf, incs)
        if so['save']:
            ref = ref[-1:]
        h = min(b - a for a, b in zip(tf, tf[1:]))
        tol = 6 * eps * len(tf) * (ref.abs().max().item() + 1 + max(map(abs, tf)) * 10) * (1 + .1 / math.sqrt(h))
        need(sol.shape == ref.shape, 'shape', f'{s}: {tuple(sol.shape)}')
        e = (sol.detach().double() - ref).abs().max().item()
        env.metric(f'{s}-{scn["dtype"]}', e / tol)
        if not e <= tol:
            raise Violation('scheme', f'{s} on {tf}: {e:.3g} off its scheme (allowed {tol:.3g})')
        need(te.shape[0] == len(ref), 'times', f'{te.tolist()}')
        env.simtime += ts[-1] - ts[0]
        env.ev(s, env.T(sol), len(q))
        sigs.append((s, so['entry'], so['fault'], len(ts), n0))
        return nested[0]
    d = 0
    done = set()
    while d < len(scn['solves']):
        d += 2 if solve(d) else 1
    for key, (v, v0) in noise.cache.items():
        need(torch.equal(v, v0), 'path-modified', f'the increment handed out for {key} was modified in place')
    for a, b, v in noise.given:  # what the path gave out it still gives out
        e = (noise.bi(a, b).double() - v).abs().max().item()
        need(e <= 1e-4 if scn['dtype'] == 'f32' else e <= 1e-10, 'path-modified', f'W({b}) - W({a}) changed by {e:.3g}')
    if len(scn['solves']) > 1:
        env.nontrivial = True
    env.sig(scn['path'], sigs)
