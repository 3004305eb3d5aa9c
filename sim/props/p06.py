"""P06: concurrent, nested and earlier solves on shared solver objects do not affect a solve."""
import torch

from ..core import SimFault, Violation
from ..grids import draw_ts
from ..nets import Net, draw
from ..threads import Baton, count_lines
from ..worlds import DT, make_world, need, same

COUNT = dict(quick=2400, thorough=60000)
CHUNK = 10
RULE = ('one run = 2-6 solves on shared solver, interpolator and problem objects: in 2-4 threads under a seeded baton '
        'schedule with switch points at every executed line of the code under test, nested inside field, event or drift '
        'callbacks of one another, or one after the other with mixed shapes and precisions; each result compared bitwise '
        'with the same solve run alone on fresh objects; non-trivial when threads were switched inside a solve, a nested '
        'solve ran, or a history had several solves; distinct by kind, entries and the switch sequence')
REAL = ['all solver classes, interpolators, ODE/SDE/hybrid/multiple-shooting drivers, ODEProblem, NeuralODE, NeuralSDE, '
        'sensitivity backward passes, root finding', 'Python threads', 'torch autograd']
STUB = ['thread scheduler (baton)', 'stateless vector fields, event callbacks, noise paths', 'nested-call injection']
ASSUMPTIONS = ['threads switch between source lines of torchdyn, not inside one line or inside torch kernels',
               'solves running at the same time have one precision; fields are stateless']
FAM = {'adaptive': ['odeint', 'odeint', 'odeint-interp', 'hybrid', 'problem', 'adjoint', 'interp_adjoint', 'neuralode',
                    'trajectory'],
       'fixed': ['odeint', 'odeint', 'problem', 'adjoint', 'interp_adjoint', 'neuralode', 'trajectory'],
       'ms': ['ms', 'ms', 'msproblem'], 'sde': ['sde', 'neuralsde'], 'root': ['root'], 'hyper': ['odeint'],
       'alf': ['odeint'], 'ieuler': ['odeint'],
       'string': ['odeint', 'odeint-interp', 'hybrid', 'ms', 'root', 'neuralode', 'sde']}
PARAM = ('problem', 'adjoint', 'interp_adjoint', 'neuralode', 'trajectory', 'msproblem')
SHRINK = {'jobs': ('list', 1), 'preempts': ('list', 0), 'quantum': ('choice', [0]),
          'jobs.0': ('list', 1), 'jobs.1': ('list', 1), 'jobs.2': ('list', 1)}


def simplify(scn):
    """Threads may only be dropped together with the preemptions naming them."""
    import json
    for i in range(len(scn['jobs'])):
        if len(scn['jobs']) > 2:
            s = json.loads(json.dumps(scn))
            del s['jobs'][i]
            s['preempts'] = [dict(p, th=p['th'] - (p['th'] > i), to=p['to'] - (p['to'] > i))
                             for p in s['preempts'] if i not in (p['th'], p['to'])]
            yield s
    if scn['quantum']:
        s = json.loads(json.dumps(scn))
        s['quantum'] = scn['quantum'] * 3
        if s['quantum'] < 5000:
            yield s


def generate(rng, i):
    kind = rng.choice(['threads', 'threads', 'threads', 'nested', 'history'])
    fam = rng.choice(['adaptive'] * 5 + ['fixed'] * 2 + ['string', 'string', 'ms', 'sde', 'root', 'hyper', 'alf', 'ieuler'])
    mixed = kind == 'history' and rng.random() < .7
    dtype = rng.choice(['f32', 'f64'])
    scheme = dict(adaptive=['dopri5', 'dopri5', 'tsit5'], fixed=['euler', 'midpoint', 'rk4', 'rk4'],
                  ms=['zero', 'backward'], sde=['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich'],
                  root=['broyden', 'broyden_fast'], hyper=['hypereuler', 'hypermidpoint', 'hyperrk4'], alf=['alf'],
                  ieuler=['ieuler'], string=['dopri5', 'rk4', 'tsit5'])[fam]

    def job():
        e = rng.choice(FAM[fam])
        if mixed and e in PARAM:
            e = FAM[fam][0]
        ts = draw_ts(rng, n=rng.choice([2, 3, 4]), span=rng.choice([.3, 1., 2.]), near=False)
        free = e not in PARAM and e not in ('trajectory', 'msproblem')  # no parameters of a fixed shape
        rank = rng.choice([0, 0, 0, 1, 2]) if fam in ('adaptive', 'fixed', 'string', 'hyper', 'alf') and e.startswith('odeint') else 0
        return dict(entry=e, ts=ts, batch=rng.choice([1, 2, 3]), dim=rng.choice([2, 2, 1, 3, 4]) if free else 2, rank=rank, xseed=rng.randrange(10 ** 6),
                    dtype=rng.choice(['f32', 'f64']) if mixed else dtype, tol=rng.choice([1e-2, 1e-3, 1e-4, 1e-5]),
                    rev=rng.random() < .3, nograd=rng.random() < .25,
                    w=round(rng.uniform(.5, 3.), 2), fail=rng.choice([-1, -1, -1, -1, rng.randrange(12)]))
    like = rng.random() < .25  # the solves start from one and the same tensor
    if like:
        proto, job_ = job(), job

        def job():
            j = dict(job_(), **{k: proto[k] for k in ('batch', 'dim', 'rank', 'xseed')})
            if j['entry'] != proto['entry']:
                j['rank'], j['dim'] = 0, 2
            if rng.random() < .7:
                j['ts'], j['rev'] = proto['ts'], proto['rev']
            return j
    if kind == 'threads':
        n = rng.choice([2, 2, 2, 3, 4])
        jobs = [[job() for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
    else:
        jobs = [[job() for _ in range(rng.choice([2, 2, 3]) if kind == 'nested' else rng.choice([2, 3, 4, 6]))]]
    preempts, quantum = [], 0
    if kind == 'threads':
        if rng.random() < .5:
            quantum = rng.choice([1, 2, 3, 5, 7, 11, 17, 40, 100, 300])
        for _ in range(rng.choice([0, 2, 4, 8, 16]) if quantum else rng.choice([1, 2, 3, 5, 10, 20])):
            th = rng.randrange(n)
            to = (th + rng.randrange(1, n)) % n
            preempts.append(dict(th=th, to=to, at=rng.randrange(1, 90) if rng.random() < .4 else -1, frac=rng.random()))
    return dict(like=like, kind=kind, fam=fam, scheme=rng.choice(scheme), mixed=mixed, jobs=jobs, preempts=preempts, quantum=quantum,
                sdtype=dtype if rng.random() < .5 else 'f64', seed=rng.randrange(10 ** 6),
                after=rng.choice(['keep', 'scribble']),
                nest=[rng.randrange(1, 40) for _ in range(3)], nested_in_check=rng.random() < .3, integral=rng.random() < .2)


class Shared:
    """Solver, interpolator and problem objects that all solves of one scenario share."""
    def __init__(self, scn, alone=False):
        from torchdyn.core import MultipleShootingProblem, NeuralODE, NeuralSDE, ODEProblem
        from torchdyn.core.defunc import SDEFunc
        from torchdyn.numerics.interpolators import FourthOrder
        from torchdyn.numerics.solvers import hyper, ode
        s, fam, dt = scn['scheme'], scn['fam'], DT[scn['sdtype']]
        jobs = [j for js in scn['jobs'] for j in js]
        pdt = DT[jobs[0]['dtype']]
        self.fam, self.scn = fam, scn
        self.solver = self.interp = None
        self.ms, self.root, self.sdes = 'zero', 'broyden', 'euler'
        cls = dict(ode.SOLVER_DICT)
        if fam in ('adaptive', 'fixed', 'alf', 'ieuler'):
            self.solver, self.interp = cls[s](dt), FourthOrder(dt)
        elif fam == 'hyper':
            def hn(t, x):
                return .1 * torch.sin(x + t)
            self.solver = {'hypereuler': hyper.HyperEuler, 'hypermidpoint': hyper.HyperMidpoint,
                           'hyperrk4': hyper.HyperRungeKutta4}[s](hn, dtype=dt)
        elif fam == 'string':
            # named objects are made by each solve; alone they are built here, without the name look-up
            self.solver, self.interp = s, '4th'
            self.by_name = not alone
        elif fam == 'ms':
            self.ms = ode.MS_SOLVER_DICT[s]()
        elif fam == 'sde':
            self.sdes = s
        elif fam == 'root':
            self.root = s
        self.alone = alone
        self.tensors = {}

        def il(t, x):
            return .1 * (x ** 2).sum(1)
        sol = self.solver
        if fam in ('adaptive', 'fixed') or (fam == 'string' and not scn['mixed']):
            if fam == 'string' and alone:
                sol = cls[s](torch.float64)
            kw = dict(solver=sol, atol=1e-3, rtol=1e-3)
            ad = dict(kw, atol_adjoint=1e-3, rtol_adjoint=1e-3, integral_loss=il if scn['integral'] else None)
            net = lambda k: Net(2, scn['seed'] + k, pdt)  # noqa
            self.models = dict(problem=ODEProblem(net(0), interpolator=self.interp if scn['seed'] % 2 else None, **kw),
                               adjoint=ODEProblem(net(1), sensitivity='adjoint', **ad),
                               interp_adjoint=ODEProblem(net(2), sensitivity='interpolated_adjoint', **ad),
                               neuralode=NeuralODE(net(3), **kw))
            self.models['trajectory'] = self.models['neuralode']
        elif fam == 'ms':
            self.models = dict(msproblem=MultipleShootingProblem(Net(2, scn['seed'], pdt), self.ms, maxiter=2, fine_steps=3))

        def f(t, x):
            return torch.cos(t) - x

        def g(t, x):
            return .2 + .1 * torch.sin(x)
        st = 'ito' if self.sdes in ('euler', 'milstein_ito') else 'stratonovich'
        self.sde = SDEFunc(f=f, g=g, noise_type='diagonal', sde_type=st)
        self.nsde = NeuralSDE(f, g, solver=self.sdes, sde_type=st, noise_type='diagonal')

    def tensor(self, make, *key):
        """Solves told to start alike are given the very same tensors."""
        if not self.scn.get('like'):
            return make()
        if key not in self.tensors:
            self.tensors[key] = make()
        return self.tensors[key]

    def run(self, env, job, hook):
        """One solve; returns nested tensors, or the injected failure's name."""
        from torchdyn.numerics.odeint import odeint, odeint_hybrid, odeint_mshooting
        from torchdyn.numerics.sdeint import sdeint
        from torchdyn.numerics.solvers import ode
        from torchdyn.numerics.solvers.root import root_find
        from torchdyn.numerics.utils import EventCallback
        dt, e, w = DT[job['dtype']], job['entry'], job['w']
        def start():
            x = draw(job['batch'], job['dim'], job['xseed'], dt)
            return torch.stack([x * .5 ** k for k in range(1 + job['rank'])], 1) if job.get('rank') else x
        x = self.tensor(start, job['batch'], job['dim'], job['xseed'], job['dtype'], job.get('rank'))
        ts = list(reversed(job['ts'])) if job['rev'] and e in ('odeint', 'odeint-interp', 'problem', 'adjoint', 'neuralode',
                                                               'trajectory') else job['ts']
        t = self.tensor(lambda: torch.tensor(ts, dtype=dt), job['dtype'], *ts)
        n = [0]

        def tick():
            env.work()
            k = n[0]
            n[0] += 1
            if k == job['fail']:
                raise SimFault(f'call {k}')
            hook(k)

        def field(t, x, args=None):
            tick()
            if self.scn['fam'] == 'alf':
                return torch.sin(w * x) + torch.cos(t)
            return w * torch.cos(t + x) - torch.flip(x, [-1])
        solver, interp = self.solver, self.interp if e == 'odeint-interp' else None
        if self.fam == 'string' and self.alone and isinstance(solver, str):
            from torchdyn.numerics.interpolators import FourthOrder
            solver = ode.SOLVER_DICT[solver](dt)
            interp = FourthOrder(dt) if interp else None
        try:
            if e in ('odeint', 'odeint-interp'):
                if self.fam == 'alf':
                    x = torch.cat([x, .5 * x], -1)
                fixed = self.fam in ('fixed', 'hyper', 'alf', 'ieuler') or self.scn['scheme'] == 'rk4'
                kw = {} if fixed else dict(atol=job['tol'], rtol=job['tol'])
                with torch.set_grad_enabled(not job['nograd'] or self.fam == 'ieuler'):
                    return [v.detach() for v in odeint(field, x, t, solver, interpolator=interp, **kw)]
            if e == 'hybrid':
                if self.fam == 'string' and self.scn['scheme'] == 'rk4':
                    solver = 'dopri5'

                class Cb(EventCallback):
                    def check_event(s, t, x):
                        if self.scn['nested_in_check']:
                            tick()
                        return bool(x[0, 0] < .4)

                    def jump_map(s, t, x):
                        return x + torch.tensor([[1.5, -.2, .3, -.4]], dtype=dt)[:, :x.shape[1]]
                return odeint_hybrid(field, x + 1, t, 3, solver, [Cb()], atol=job['tol'], rtol=job['tol'], event_tol=1e-2)
            if e == 'ms':
                tt = torch.linspace(0, 1, len(ts) + 1, dtype=dt)
                ms = ode.MS_SOLVER_DICT[self.ms]() if isinstance(self.ms, str) and self.alone else self.ms
                return odeint_mshooting(field, x, tt, ms, fine_steps=3, maxiter=2)[1].detach()
            if e in ('sde', 'neuralsde'):
                def bm(a, b):
                    tick()
                    return .3 * (torch.sin(5 * b) - torch.sin(5 * a)) * torch.ones_like(x)
                if e == 'sde':
                    return sdeint(self.sde, x, t, self.sdes, bm)
                # the noise path is an attribute of the model: give each solve its own through the problem
                from torchdyn.core.problems import SDEProblem
                return SDEProblem.forward(self.nsde, x, t, bm)
            if e == 'root':
                def res(z):
                    tick()
                    return z ** 3 + 2 * z - w - .1 * torch.flip(z, [-1])
                z, log = root_find(res, x, method=self.root, alpha=.5, maxiters=8,
                                   search_method=['naive', 'none'][job['xseed'] % 2])
                return z, log.data['z'], log.data['geval'], torch.tensor(float(log.data['iteration']))
            m = self.models[e]
            if e == 'msproblem':
                return m(x, torch.linspace(0, 1, len(ts) + 1, dtype=dt))[1].detach()
            if e == 'trajectory':
                hook(0)
                return m.trajectory(x, t).detach()
            ps = list(m.parameters())
            with torch.set_grad_enabled(not job['nograd']):
                x = x.detach().requires_grad_(True)
                hook(0)
                te, sol = m(x, t)
                hook(1)
                out = [te.detach(), sol.detach()]
                if not job['nograd']:
                    out += list(torch.autograd.grad((sol ** 2).sum(), [x] + ps, allow_unused=True))
                return out
        except SimFault as exc:
            return str(exc)


def scribble(o):
    if isinstance(o, torch.Tensor):
        if o.is_floating_point():
            o.detach().fill_(float('nan'))
    elif isinstance(o, (list, tuple)):
        for v in o:
            scribble(v)


def execute(env, scn):
    kind, jobs = scn['kind'], scn['jobs']
    idle = lambda k: None  # noqa
    # every solve alone on fresh objects
    want, lines = [], []
    for js in jobs:
        want.append([])
        tot = 0
        for job in js:
            fresh = Shared(scn, alone=True)
            if kind == 'threads':
                r, n = count_lines(env, lambda: fresh.run(env, job, idle))
                tot += n
            else:
                r = fresh.run(env, job, idle)
            want[-1].append(r)
            env.simtime += 2 * abs(job['ts'][-1] - job['ts'][0])
        lines.append(tot)
    sh = Shared(scn)

    def check(job, got, want, where):
        if isinstance(got, str) or isinstance(want, str):
            need(got == want, 'result', f'{where} {job["entry"]}: {got!r:.200} instead of {want!r:.200}')
            return
        got, want = list(got) if isinstance(got, tuple) else got, list(want) if isinstance(want, tuple) else want
        need(same(got, want), 'result', lambda: f'{where}: {job["entry"]} ({scn["fam"]} {scn["scheme"]}) differs from the '
                                                f'same solve run alone on fresh objects')
    kept = []

    def after(job, got, want):
        """A result belongs to its caller: later solves do not change it, and changing it does not change them."""
        if scn['after'] == 'keep':
            kept.append((job, got, want))
        else:
            scribble(got)
    if kind == 'threads':
        env.nontrivial = True
        preempts = [dict(p, at=p['at'] if p['at'] > 0 else int(p['frac'] * lines[p['th']])) for p in scn['preempts']]

        def body(js):
            return [sh.run(env, job, idle) for job in js]
        bt = Baton(env, [lambda js=js: body(js) for js in jobs], preempts, scn['quantum'])
        results = bt.run()
        for i, (st, r) in enumerate(results):
            if st == 'exc':
                raise r
            for j, (job, g) in enumerate(zip(jobs[i], r)):
                check(job, g, want[i][j], f'thread {i} of {len(jobs)} ({len(bt.switches)} switches)')
        env.probe('switches', len(bt.switches))
        env.sig(kind, [[j['entry'] for j in js] for js in jobs], bt.switches)
        env.ev(kind, len(bt.switches), str(bt.switches[:50]))
        if bt.switches:
            env.faults['preemption'] += len(bt.switches)
    elif kind == 'nested':
        js = jobs[0]

        def start(d):
            """Run solve d, which starts solve d+1 inside its nest[d]-th callback."""
            done = []

            def hook(k):
                if d + 1 < len(js) and not done and (k == scn['nest'][d] % 12 or js[d]['entry'] in PARAM):
                    done.append(1)
                    env.fault('nested-solve')
                    with torch.enable_grad():
                        start(d + 1)
            got = sh.run(env, js[d], hook)
            check(js[d], got, want[0][d], f'nesting depth {d}')
            after(js[d], got, want[0][d])
        start(0)
        env.sig(kind, [j['entry'] for j in js], tuple(scn['nest']))
    else:
        for d, job in enumerate(jobs[0]):
            got = sh.run(env, job, idle)
            check(job, got, want[0][d], f'solve {d} of a history {[(j["entry"], j["dtype"]) for j in jobs[0][:d]]}')
            after(job, got, want[0][d])
        if len(jobs[0]) > 1:
            env.nontrivial = True
            env.probe('history')
        env.sig(kind, [(j['entry'], j['dtype'], j['batch'], j['dim'], j['rank']) for j in jobs[0]])
    for job, got, w in kept:
        check(job, got, w, 'looked at again after later solves')
    env.ev(kind, scn['fam'], scn['scheme'])
