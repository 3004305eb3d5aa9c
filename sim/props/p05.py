"""P05: a failure in any callback aborts cleanly and leaves everything reusable."""
import torch

from ..core import SimFault, SimInterrupt, Violation
from ..grids import draw_ts
from ..nets import Net, TimeFree, draw
from ..worlds import DT, make_world, need, same

COUNT = dict(quick=3500, thorough=50000)
CHUNK = 10
RULE = ('one run = a history of 2-4 problems on one set of shared objects (model, solver, interpolator, callbacks), in '
        'which drawn problems are aborted by an exception of a drawn class raised at a drawn call of a drawn user '
        'callback; every surviving problem is compared bitwise with freshly built objects; non-trivial when an injected '
        'exception was raised; distinct by kind, party, exception class and call index')
REAL = ['odeint (adaptive, fixed), odeint_hybrid, odeint_mshooting, sdeint, root_find', 'ODEProblem, NeuralODE, CNF',
        'adjoint and interpolated-adjoint backward passes', 'implicit Euler', 'torch autograd engine']
STUB = ['every user callback (field, drift, diffusion, noise path, event check, jump map, integral loss, residual, '
        'solver and interpolator subclasses, trace-noise distribution) with exception injection']
ASSUMPTIONS = ['one exception at a time; exceptions come from user callbacks, not from torch itself']
KINDS = ['adaptive', 'adaptive', 'fixed', 'hybrid', 'hybrid', 'sde', 'ms', 'control', 'adjoint', 'adjoint', 'interp_adjoint',
         'root', 'root', 'cnf', 'ieuler', 'neuralsde', 'layer', 'integral', 'depth', 'energy', 'fixed_adjoint', 'symplectic', 'trajectory',
         'second_order', 'wrapped', 'wrapped']
EXC = ['SimFault', 'SimInterrupt', 'StopIteration', 'AttributeError', 'KeyError', 'IndexError', 'ValueError', 'TypeError',
       'RuntimeError', 'MemoryError', 'AssertionError', 'KeyboardInterrupt', 'GeneratorExit', 'FloatingPointError',
       'NotImplementedError', 'RecursionError', 'OSError', 'SystemExit', 'StopAsyncIteration', 'ZeroDivisionError']
SHRINK = {'problems': ('list', 1), 'exc': ('choice', ['SimFault']), 'unused': ('choice', [False])}


def exc_class(name):
    import builtins
    return dict(SimFault=SimFault, SimInterrupt=SimInterrupt).get(name) or getattr(builtins, name)


def generate(rng, i):
    kind = rng.choice(KINDS)
    problems = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ts = draw_ts(rng, n=rng.choice([2, 3, 4]), near=False)
        problems.append(dict(xseed=rng.randrange(10 ** 6), batch=rng.choice([1, 2, 3]), ts=ts,
                             dtype=rng.choice(['f32', 'f64']), rev=rng.random() < .3,
                             fault=rng.random() < .75, party=rng.random(), at=rng.choice([0., rng.random(), rng.random(),
                                                                                           .9999]),
                             early=rng.choice([None, None, rng.randrange(1, 5)])))
    if not any(p['fault'] for p in problems):
        problems[0]['fault'] = True
    return dict(kind=kind, problems=problems, exc=rng.choice(rng.choice([EXC, EXC[7:9]])), seed=rng.randrange(10 ** 6),
                solver=rng.choice(['dopri5', 'tsit5']), fixed=rng.choice(['euler', 'midpoint', 'rk4']),
                sde=rng.choice(['euler', 'eulerHeun', 'milstein_ito', 'milstein_stratonovich']),
                ms=rng.choice(['zero', 'backward']), interp=rng.random() < .5, integral=rng.random() < .4,
                unused=rng.random() < .3, search=rng.choice(['naive', 'none', 'armijo']), nograd=rng.random() < .3, adj_solver=rng.choice([None, 'dopri5', 'rk4']),
                world=dict(kind=rng.choice(['decay', 'rotation', 'drivendecay']), dim=2, a=round(rng.uniform(.5, 2), 2)))


class Parties:
    """Counts every callback call, raises the planned exception, and notes calls made after it."""
    def __init__(self, env):
        self.env = env
        self.reset()

    def reset(self, plan=None):
        self.counts, self.plan, self.raised, self.late = {}, plan, None, []

    def hit(self, party, *a):
        self.env.work()
        n = self.counts.get(party, 0)
        self.counts[party] = n + 1
        if self.raised is not None:
            self.late.append(party)
        if self.plan and self.plan[0] == party and self.plan[1] == n and self.raised is None:
            self.raised = self.plan[2](f'injected into {party} call {n}')
            self.env.fault(f'{party}:{type(self.raised).__name__}')
            raise self.raised


class Bundle:
    """One set of user-visible objects for the scenario's kind, and how a problem is run on it."""
    def __init__(self, env, scn):
        from torchdyn.core import NeuralODE, ODEProblem
        from torchdyn.core.defunc import SDEFunc
        from torchdyn.models import CNF
        from torchdyn.models.cnf import hutch_trace
        from torchdyn.nn import DataControl
        from torchdyn.numerics import odeint as O  # noqa
        from torchdyn.numerics.interpolators import FourthOrder
        from torchdyn.numerics.solvers import ode
        from torchdyn.numerics.utils import EventCallback
        self.scn, self.P, self.params = scn, Parties(env), []
        P, k = self.P, scn['kind']
        # models have the precision of the first problem, functional solves mix precisions
        self.mdt = DT[scn['problems'][0]['dtype']]
        w = make_world(scn['world'])

        def spy(base):
            class S(base):
                def step(self, *a, **kw):
                    P.hit('solver')
                    return super().step(*a, **kw)
            return S

        def field(t, x, args=None):
            P.hit('field')
            if k == 'ms':  # shapes differ: shooting steps carry an extra dimension
                return torch.sin(2 * x) + torch.cos(t) * torch.flip(x, [-1])
            return w.f(t, x)
        self.field = field
        adaptive = {'dopri5': ode.DormandPrince45, 'tsit5': ode.Tsitouras45}[scn['solver']]
        if k == 'adaptive':
            self.solver = spy(adaptive)()

            class I(FourthOrder):
                def fit(self, *a, **kw):
                    P.hit('interp.fit')
                    return super().fit(*a, **kw)

                def evaluate(self, *a, **kw):
                    P.hit('interp.evaluate')
                    return super().evaluate(*a, **kw)
            self.interp = I(torch.float32) if scn['interp'] else None
        elif k == 'fixed':
            self.solver = spy(ode.SOLVER_DICT[scn['fixed']])()
        elif k == 'ieuler':
            self.solver = ode.ImplicitEuler()
        elif k == 'hybrid':
            self.solver = spy(adaptive)()

            class Cb(EventCallback):
                def check_event(self, t, x):
                    P.hit('check')
                    return bool((x[:, 0].abs() < self.thr).any())

                def jump_map(self, t, x):
                    P.hit('jump')
                    return torch.cat([x[:, :1] + 1., x[:, 1:]], 1)
            c1, c2 = Cb(), Cb()
            c1.thr, c2.thr = .3, .15
            self.cbs = [c1, c2]
        elif k == 'sde':
            def f(t, x):
                P.hit('drift')
                return w.f(t, x)

            def g(t, x):
                P.hit('diffusion')
                return .2 + .1 * torch.sin(x)
            self.sde = SDEFunc(f=f, g=g, noise_type='diagonal', sde_type='ito' if scn['sde'] in (
                'euler', 'milstein_ito') else 'stratonovich')
        elif k == 'ms':
            from torchdyn.numerics.solvers.ode import str_to_ms_solver
            self.solver = str_to_ms_solver(scn['ms'])
        elif k == 'control':
            class Inner(torch.nn.Module):
                def __init__(s):
                    super().__init__()
                    s.dc, s.net = DataControl(), TimeFree(4, scn['seed'], self.mdt, out=2)

                def forward(s, t, x, args={}):
                    P.hit('field')
                    return s.net(s.dc(x))
            self.model = NeuralODE(Inner(), spy(adaptive)(), atol=1e-3, rtol=1e-3,
                                   interpolator='4th' if scn['interp'] else None)
        elif k in ('adjoint', 'interp_adjoint'):
            def iloss(t, x):
                P.hit('integral-loss')
                return .1 * (x ** 2).sum(1)
            net = Net(2, scn['seed'], self.mdt, unused=scn['unused'], hit=P.hit)
            self.model = ODEProblem(net, spy(adaptive)(), atol=1e-4, rtol=1e-4, atol_adjoint=1e-4, rtol_adjoint=1e-4,
                                    sensitivity='adjoint' if k == 'adjoint' else 'interpolated_adjoint',
                                    solver_adjoint=scn['adj_solver'] if k == 'adjoint' and scn['adj_solver'] != 'rk4'
                                    else None, integral_loss=iloss if scn['integral'] else None)
        elif k == 'cnf':
            class Dist:
                def sample(s, shape):
                    P.hit('noise')
                    return draw(shape[0], 2, scn['seed'], self.mdt, .5, 1.5)
            inner = TimeFree(2, scn['seed'], self.mdt, hit=P.hit)
            self.model = NeuralODE(CNF(inner, trace_estimator=hutch_trace, noise_dist=Dist()), scn['fixed'])
        elif k in ('neuralsde', 'layer', 'integral', 'depth', 'energy', 'fixed_adjoint', 'trajectory', 'second_order', 'wrapped'):
            self.model = self.build(scn, spy(adaptive), spy(ode.SOLVER_DICT[scn['fixed']]))
        elif k == 'symplectic':
            self.solver = spy(adaptive if scn['interp'] else ode.SOLVER_DICT[scn['fixed']])()
            field.order = 2
        if hasattr(self, 'model'):
            self.params = list(self.model.parameters())
            for j, p in enumerate(self.params):
                p.grad = torch.full_like(p, .125 * (j + 1))

    def build(self, scn, adaptive, fixed):
        """Models with conditioning modules, integral losses, energies, noise paths."""
        from torchdyn.core import MultipleShootingLayer, NeuralODE, NeuralSDE, ODEProblem
        from torchdyn.models import GNF, HNN
        from torchdyn.nn import Chebychev, DataControl, DepthCat, Fourier, GalLinear
        P, k, mdt, seed = self.P, scn['kind'], self.mdt, scn['seed']

        class Wide(torch.nn.Module):
            """A field reading its conditioning modules."""
            def __init__(s, cond, width, party):
                super().__init__()
                s.cond, s.net, s.party = cond, TimeFree(width, seed, mdt, out=2), party

            def forward(s, t, x, args={}):
                P.hit(s.party)
                return s.net(s.cond(x))

        def iloss(t, x):
            P.hit('integral-loss')
            return .1 * (x ** 2).sum(1)
        if k == 'neuralsde':
            def g(t, x):
                P.hit('diffusion')
                return .2 + .1 * torch.sin(x)

            def bm(a, b):
                P.hit('noise-path')
                return .3 * (torch.sin(5 * b) - torch.sin(5 * a))
            return NeuralSDE(Wide(DataControl(), 4, 'drift'), g, solver=scn['sde'], noise_type='diagonal', bm=bm,
                             sde_type='ito' if scn['sde'] in ('euler', 'milstein_ito') else 'stratonovich')
        if k == 'layer':
            return MultipleShootingLayer(Net(2, seed, mdt, hit=P.hit, time=False), scn['ms'], maxiter=2, fine_steps=3)
        if k == 'integral':
            return NeuralODE(Wide(torch.nn.Identity(), 2, 'field'), fixed(), integral_loss=iloss)
        if k == 'depth':
            sens = ['autograd', 'adjoint', 'interpolated_adjoint'][seed % 3]
            field = Wide(DepthCat(1), 3, 'field')
            if seed % 2:  # weights expanded in the depth
                field.net = GalLinear(2, 2, expfunc=[Fourier(3), Chebychev(3)][seed // 6 % 2]).to(mdt)
                with torch.no_grad():
                    field.net.coeffs.copy_(draw(field.net.coeffs.numel(), 1, seed, mdt, -.4, .4).reshape(field.net.coeffs.shape))
            return NeuralODE(field, fixed(), sensitivity=sens)
        if k == 'energy':
            net = TimeFree(2, seed, mdt, hit=P.hit, out=1)
            return NeuralODE(HNN(net) if scn['interp'] else GNF(net), fixed())
        if k == 'fixed_adjoint':
            return ODEProblem(Net(2, seed, mdt, unused=scn['unused'], hit=P.hit), fixed(), sensitivity='adjoint' if
                              scn['interp'] else 'interpolated_adjoint', integral_loss=iloss if scn['integral'] else None)
        if k == 'wrapped':  # fields that are not modules of (t, x)
            inner = TimeFree(2, seed, mdt, hit=P.hit)
            form, sens = seed % 4, ['autograd', 'adjoint', 'interpolated_adjoint'][seed // 4 % 3]
            fld = [lambda t, x, args={}: inner(x), lambda x: inner(x), torch.nn.Sequential(inner), inner][form]
            return [NeuralODE, ODEProblem][seed // 12 % 2](fld, adaptive() if scn['interp'] else fixed(), sensitivity=sens,
                                                           optimizable_params=tuple(inner.parameters()) if form < 2 else ())
        if k == 'second_order':
            class Acc(torch.nn.Module):
                def __init__(s):
                    super().__init__()
                    s.net = TimeFree(2, seed, mdt, out=1)

                def forward(s, t, x, args={}):
                    P.hit('field')
                    return s.net(x)
            return NeuralODE(Acc(), adaptive(), order=2, sensitivity='adjoint' if scn['integral'] else 'autograd')
        return NeuralODE(Wide(DataControl(), 4, 'field'), adaptive(), return_t_eval=scn['interp'])

    def run(self, p):
        """Solve problem p; returns nested tensors (values, gradients of inputs and parameters)."""
        from torchdyn.numerics.odeint import odeint, odeint_hybrid, odeint_mshooting, odeint_symplectic
        from torchdyn.numerics.sdeint import sdeint
        from torchdyn.numerics.solvers.root import root_find
        scn, k, P = self.scn, self.scn['kind'], self.P
        dt = self.mdt if hasattr(self, 'model') else DT[p['dtype']]
        ts = list(reversed(p['ts'])) if p['rev'] and k not in ('hybrid', 'sde', 'ms', 'interp_adjoint', 'neuralsde', 'layer') else p['ts']
        t = torch.tensor(ts, dtype=dt)
        x = draw(p['batch'], 2, p['xseed'], dt)
        self.inputs = (x, t, x.clone(), t.clone())
        # other ways to give the span: a list of its points
        span = [v.reshape(1) for v in t] if p['xseed'] % 5 == 0 and not (ts[1] < ts[0]) else t
        talk = p['xseed'] % 3 == 0
        if k == 'adaptive':
            return odeint(self.field, x, span, self.solver, atol=1e-4, rtol=1e-4, interpolator=self.interp,
                          verbose=talk, return_all_eval=p['xseed'] % 4 == 0)
        if k in ('fixed', 'ieuler'):
            return odeint(self.field, x, span, self.solver, verbose=talk)
        if k == 'symplectic':
            return odeint_symplectic(self.field, x, span, self.solver, verbose=talk)
        if k == 'hybrid':
            return odeint_hybrid(self.field, x, t, 4, self.solver, self.cbs, atol=1e-3, rtol=1e-3, event_tol=1e-3,
                                 priority='flow' if scn['seed'] % 4 == 0 else 'jump')
        if k == 'sde':
            def bm(a, b):
                P.hit('noise-path')
                return .3 * (torch.sin(5 * b) - torch.sin(5 * a)) * torch.ones_like(x)
            return sdeint(self.sde, x, t, scn['sde'], bm)
        if k == 'ms':
            n = len(ts) + 1
            return odeint_mshooting(self.field, x, torch.linspace(0, 1, n, dtype=dt), self.solver, fine_steps=3,
                                    maxiter=2)[1].detach()
        if k == 'root':
            def g(z):
                P.hit('residual')
                return z ** 3 + 2 * z - 1 - .1 * torch.flip(z, [-1])
            z, log = root_find(g, x, method='broyden' if scn['interp'] else 'broyden_fast', alpha=.5, maxiters=8,
                               search_method=scn.get('search') or ('naive' if scn['integral'] else 'none'))
            return z, log.data['z'], log.data['geval'], log.data['iteration']
        if k == 'cnf':
            x = torch.cat([torch.zeros_like(x[:, :1]), x], 1)
            return self.model(x, t)
        if k == 'control':
            x = x.requires_grad_(True)
            te, sol = self.model(x, t)
            gr = torch.autograd.grad((sol[-1] ** 2).sum(), [x] + self.params, allow_unused=True)
            return te, sol, list(gr)
        if k == 'integral':
            x = torch.cat([torch.zeros_like(x[:, :1]), x], 1)
        if k == 'layer':
            t = torch.linspace(0, 1, len(ts) + 1, dtype=dt)
        x = x.requires_grad_(True)
        if k == 'trajectory':
            sol = self.model.trajectory(x, t)
            te = t if scn['interp'] else self.model(x, t)
        elif k == 'fixed_adjoint':
            te, sol = self.model(x, t, save_at=t[len(ts) // 2:])
        else:
            te, sol = self.model(x, t)
        (sol ** 2).sum().backward()
        return te, sol, x.grad, [q.grad.clone() if q.grad is not None else None for q in self.params]


def snapshot(b):
    return [p.detach().clone() for p in b.params], [None if p.grad is None else p.grad.clone() for p in b.params]


def restore_grads(b, grads):
    for p, g in zip(b.params, grads):
        p.grad = None if g is None else g.clone()


def execute(env, scn):
    from torchdyn.numerics.odeint import odeint  # noqa
    shared = Bundle(env, scn)
    E = exc_class(scn['exc'])
    mode = not (scn['nograd'] and scn['kind'] in ('adaptive', 'fixed', 'hybrid', 'sde', 'cnf'))
    label = []
    for j, p in enumerate(scn['problems']):
        torch.set_grad_enabled(mode)
        fresh = Bundle(env, scn)
        _, g0 = snapshot(shared)
        restore_grads(fresh, g0)
        want = fresh.run(p)
        counts = dict(sorted(fresh.P.counts.items()))
        if p['fault']:
            party = sorted(counts)[int(p['party'] * len(counts))]
            at = int(p['at'] * counts[party]) if p.get('early') is None else min(p['early'], counts[party] - 1)
            before = snapshot(shared)
            rng0 = torch.get_rng_state()
            shared.P.reset((party, at, E))
            try:
                shared.run(p)
                got = None
            except BaseException as e:  # noqa: the injected class may be anything
                got = e
            exc = shared.P.raised
            if exc is None:
                if got is not None:
                    raise got
                raise Violation('history', f'call {at} of {party} happens with fresh objects but not with used ones')
            torch_mode = torch.is_grad_enabled()
            torch.set_grad_enabled(True)
            where = f'{scn["kind"]}: {E.__name__} in {party} call {at} of {counts[party]}'
            need(got is not None, 'swallowed', where)
            need(got is exc, 'replaced', f'{where}: caller got {type(got).__name__}: {got}')
            need(not shared.P.late, 'called-after-failure', f'{where}: then called {shared.P.late[:5]}')
            need(torch_mode == mode, 'grad-mode', f'{where}: grad mode was {mode}, now {torch_mode}')
            after = snapshot(shared)
            need(same(before[0], after[0]), 'parameters-changed', where)
            need(same(before[1], after[1]), 'gradients-changed', where)
            x, t, x0, t0 = shared.inputs
            need(same(x.detach(), x0) and same(t, t0) and x.grad is None, 'inputs-changed', where)
            need(torch.equal(rng0, torch.get_rng_state()), 'rng', where)
            label.append((party, at, E.__name__))
            env.ev('aborted', where)
            del got, exc
        torch.set_grad_enabled(mode)
        shared.P.reset()
        out = shared.run(p)
        torch.set_grad_enabled(True)
        need(same(detach(out), detach(want)), 'not-reusable',
             f'{scn["kind"]}: problem {j} on objects used before {label} differs from fresh objects')
        need(dict(sorted(shared.P.counts.items())) == counts, 'not-reusable',
             f'{scn["kind"]}: callback counts {shared.P.counts} on used objects, {counts} on fresh ones')
        env.simtime += abs(p['ts'][-1] - p['ts'][0]) * 3
    env.ev(scn['kind'], env.T(flat(out)))
    env.sig(scn['kind'], str(label))


def detach(o):
    if isinstance(o, torch.Tensor):
        return o.detach()
    if isinstance(o, (list, tuple)):
        return [detach(v) for v in o]
    return o


def flat(o):
    while isinstance(o, (list, tuple)):
        o = o[0]
    return o
