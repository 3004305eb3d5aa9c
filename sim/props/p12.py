"""P12: root search terminates within budget and never claims convergence falsely."""
import random

import torch

from ..core import SimFault, Violation
from ..worlds import DT, need, same

COUNT = dict(quick=3500, thorough=60000)
CHUNK = 20
RULE = ('one run = a history of root searches (one after the other, nested inside one another\'s residual, aborted and '
        'repeated) of simulated residuals whose evaluations are perturbed, replaced by non-finite or frozen values, or '
        'raise at drawn calls; iteration budget, claims of convergence, logged iterate, convergence and independence are '
        'checked; non-trivial when a fault fired or searches were nested or repeated; distinct by residual, method, '
        'line search, budget and faults')
REAL = ['root_find, Broyden (both updates), line searches, TerminationCondition, RootLogger', 'torch jacobian and pinverse']
STUB = ['residual function with fault injection and nested searches']
ASSUMPTIONS = ['residuals on states [batch, dim]', 'a residual whose first Jacobian is not finite may be refused with a '
               'linear-algebra error', 'convergence is claimed for step factors in [0.3, 1], residuals within 10 % of linear, '
               'and perturbations up to 5 % of the residual']
SHRINK = {'searches': ('list', 1)}


def generate(rng, i):
    searches = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['good', 'good', 'good', 'mixed', 'stuck', 'wild', 'linear'])
        fm = rng.choice(['none', 'none', 'perturb', 'perturb', 'nonfinite', 'raise', 'freeze', 'nested'])
        faults = []
        if fm != 'none':
            for _ in range(rng.choice([1, 1, 2, 3])):
                faults.append(dict(kind=fm if fm != 'nonfinite' else rng.choice(['nan', 'inf', '-inf']),
                                   at=rng.choice([rng.randrange(8), rng.randrange(30)]), len=rng.choice([1, 1, 2, 400 if
                                                  fm in ('nonfinite', 'freeze') else 1]), mag=rng.uniform(-.05, .05)))
        searches.append(dict(kind=kind, dim=rng.choice([1, 1, 2, 3]), batch=rng.choice([1, 1, 2, 4]),
                             seed=rng.randrange(10 ** 6), dtype=rng.choice(['f64', 'f64', 'f32']),
                             method=rng.choice(['broyden', 'broyden_fast']), search=rng.choice(['none', 'naive', 'armijo']),
                             alpha=rng.choice([.1, .3, .5, 1., 1.]), maxiters=rng.choice([0, 1, 2, 5, 20, 200, 200, 200]),
                             f_tol=rng.choice([1e-1, 1e-2, 1e-4]), f_rtol=rng.choice([1., .5, 1e-1, 1e-3]),
                             x_tol=rng.choice([1., 1e-1, 1e-2, 1e-4]), x_rtol=rng.choice([1., 1e-1, 1e-2]),
                             scales=[rng.choice([1., 1., 1e-3, 10.]) for _ in range(4)], faults=faults,
                             default_args=rng.random() < .1, off=rng.choice([.05, .3])))
    return dict(searches=searches)


class Residual:
    """A residual party: evaluates, records, perturbs, fails, or runs another search."""
    def __init__(self, env, s, nested=None, faults=True):
        self.env, self.s, self.nested, self.n = env, s, nested, 0
        self.rec = []
        r = random.Random(f'root/{s["seed"]}')
        d, self.dt = s['dim'], DT[s['dtype']]
        A = [[r.uniform(-.25, .25) for _ in range(d)] for _ in range(d)]
        for k in range(d):
            A[k][k] += r.choice([1., -1.]) * r.uniform(1., 2.)
        self.A = torch.tensor(A, dtype=self.dt)
        self.c = torch.tensor([r.uniform(-1, 1) for _ in range(d)], dtype=self.dt)
        off = torch.tensor([[r.uniform(-1, 1) for _ in range(d)] for _ in range(s['batch'])], dtype=self.dt) * s['off']
        if s['kind'] == 'mixed':
            off = off * torch.tensor(s['scales'][:s['batch']], dtype=self.dt)[:, None]
        self.root = self.c
        self.z0 = (self.c + off).clone()
        self.bad = {}
        if faults:
            for fl in s['faults']:
                for k in range(fl['at'], fl['at'] + fl['len']):
                    self.bad.setdefault(k, fl)

    def pure(self, z):
        k, y = self.s['kind'], z - self.root
        if k == 'linear':
            return y @ self.A.T
        if k == 'stuck':  # no root: residual bounded away from zero
            return y @ self.A.T * .1 + 1. + y ** 2
        if k == 'wild':
            return torch.sin(5 * y) * 3 + y ** 3 + .2
        return y @ self.A.T + .05 * torch.sin(y) + .02 * y ** 2

    def __call__(self, z):
        self.env.work()
        k = self.n
        self.n += 1
        out = self.pure(z)
        fl = self.bad.get(k)
        if fl is not None:
            self.env.fault('residual-' + fl['kind'])
            kind = fl['kind']
            if kind == 'raise':
                raise SimFault(f'residual call {k}')
            if kind == 'perturb':
                out = out * (1 + fl['mag'])
            elif kind == 'freeze':
                out = out * 0 + .5
            elif kind == 'nested':
                if self.nested is not None:
                    self.nested()
            else:
                out = out + float(kind)
        self.rec.append((z.detach().clone(), out.detach().clone()))
        return out


def call(s, g, maxiters=None, verbose=True):
    from torchdyn.numerics.solvers.root import root_find
    if s['default_args']:
        kw = dict(verbose=verbose)
        if maxiters is not None:
            kw['maxiters'] = maxiters
        return root_find(g, g.z0.clone(), **kw)
    return root_find(g, g.z0.clone(), alpha=s['alpha'], f_tol=s['f_tol'], f_rtol=s['f_rtol'], x_tol=s['x_tol'],
                     x_rtol=s['x_rtol'], maxiters=s['maxiters'] if maxiters is None else maxiters, method=s['method'],
                     search_method=s['search'], verbose=verbose)


def args(s):
    if s['default_args']:
        return dict(s, alpha=.1, f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1, maxiters=100, method='broyden', search='naive')
    return s


def outcome(env, s, nested=None, faults=True, maxiters=None, verbose=True):
    """-> ('ok', z, log data) | ('refused', ..) | ('aborted', ..), residual"""
    g = Residual(env, s, nested, faults)
    try:
        z, log = call(s, g, maxiters, verbose)
        return ('ok', z, dict(log.data) if verbose else None), g
    except SimFault:
        return ('aborted', None, None), g
    except torch.linalg.LinAlgError as e:
        first = [o for z, o in g.rec[:1 + s['batch']]]
        if all(bool(torch.isfinite(o).all()) for o in first):
            raise
        return ('refused', None, None), g


def execute(env, scn):
    S = [args(s) for s in scn['searches']]
    alone = []
    for s in S:  # each on its own, nested searches replaced by nothing
        alone.append(outcome(env, s))
    if len(S) > 1:
        env.nontrivial = True
    for n, s in enumerate(S):
        env.sig(s['kind'], s['dim'], s['batch'], s['method'], s['search'], s['maxiters'], s['alpha'], str(s['faults']))
        other = S[(n + 1) % len(S)]

        def nested():
            if len(S) > 1 and not any(f['kind'] == 'nested' for f in other['faults']):
                r, _ = outcome(env, other)
                env.probe('nested searches')
                need(r[0] == alone[(n + 1) % len(S)][0][0] and same(r[1], alone[(n + 1) % len(S)][0][1]), 'independence',
                     f'a search nested in search {n} gives another result than alone')
        res, g = outcome(env, s, nested)
        want = alone[n][0]
        env.ev(n, res[0], env.T(res[1]), g.n)
        need(res[0] == want[0] and same(res[1], want[1]) and logs_same(res[2], want[2]), 'independence',
             lambda: f'search {n} gives {res[0]} {res[1]} after other searches, {want[0]} {want[1]} alone')
        per = 16 if s['search'] != 'armijo' else 2600
        env.metric('evaluations per iteration ' + s['search'], (g.n - 1 - s['batch']) / (s['maxiters'] + 1))
        need(g.n <= 2 + s['batch'] + (s['maxiters'] + 1) * per, 'budget', f'{g.n} evaluations for maxiters = {s["maxiters"]}')
        if res[0] != 'ok':
            env.probe('searches ' + res[0])
            continue
        check(env, n, s, res[1], res[2], g)


def logs_same(a, b):
    if a is None or b is None:
        return a is b
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def check(env, n, s, z, log, g):
    it = log['iteration']
    need(isinstance(it, int) and 1 <= it <= s['maxiters'] + 1, 'budget', f'search {n}: {it} iterations, maxiters {s["maxiters"]}')
    early = it < s['maxiters'] + 1
    need(early is False or 'termination_condition' in log, 'log', f'search {n}: ended after {it} iterations without a reason')
    claimed = 'termination_condition' in log
    need(same(log['z'], z), 'log', f'search {n}: returned {z}, logged {log["z"]}')
    at = [o for p, o in g.rec if same(p, z)]
    need(any(same(o, log['geval']) for o in at), 'log',
         f'search {n}: logged residual {log["geval"]} was never returned at the returned point ({at[:3]})')
    # the iterate before the last one, from the same search with a smaller budget
    if it == 1:
        prev = g.z0
    else:
        r, g2 = outcome(env, s, None, True, maxiters=it - 2)
        need(r[0] == 'ok' and r[2]['iteration'] == it - 1, 'budget',
             f'search {n}: with maxiters {it - 2} made {r[2] and r[2]["iteration"]} iterations, {it} with a larger budget')
        prev = r[1]
    upd = (z - prev)
    eps = 1e-12 if s['dtype'] == 'f64' else 1e-5
    fin = bool(torch.isfinite(z).all() and torch.isfinite(prev).all() and torch.isfinite(log['dz']).all())
    if fin:
        dz = log['dz']
        k = int(dz.abs().argmax())
        if dz.flatten()[k].abs() > 0:
            al = (upd.flatten()[k] / dz.flatten()[k])
            gap = (upd - al * dz).abs().max().item()
            mag = max(1., z.abs().max().item(), prev.abs().max().item())
            need(gap <= 100 * eps * mag, 'log', f'search {n}: logged dz {dz.tolist()} is not the direction of the last update '
                 f'{upd.tolist()}')
            if s['search'] == 'none':
                need(abs(al.item() + s['alpha']) * dz.abs().max().item() <= 100 * eps * mag, 'log',
                     f'search {n}: update {upd.tolist()} is not -{s["alpha"]} * dz ({dz.tolist()})')
        else:
            need(upd.abs().max().item() <= 10 * eps * max(1., z.abs().max().item()), 'log', f'search {n}: dz is zero')
    if claimed:
        env.probe('early terminations')
        need(fin, 'false-convergence', f'search {n}: convergence claimed at {z}')
        slack = 1 + 1e-3
        res = log['geval'].norm(dim=1)
        f0 = torch.maximum(g.rec[0][1].norm(dim=1), first_residual(env, s, g))
        f0 = torch.where(torch.isfinite(f0), f0, torch.full_like(f0, float('inf')))
        need(bool((res <= s['f_tol'] * slack).all()), 'false-convergence',
             f'search {n}: claimed with residuals {res.tolist()}, f_tol {s["f_tol"]}')
        need(bool((res <= s['f_rtol'] * f0 * slack).all()), 'false-convergence',
             f'search {n}: claimed with residuals {res.tolist()}, initially {f0.tolist()}, f_rtol {s["f_rtol"]}')
        un = upd.norm(dim=1)
        tiny = 100 * eps * max(1., z.abs().max().item())
        need(bool((un <= s['x_tol'] * slack + tiny).all()), 'false-convergence',
             f'search {n}: claimed with last update {un.tolist()}, x_tol {s["x_tol"]}')
        need(bool((un <= s['x_rtol'] * z.norm(dim=1) * slack + tiny).all()), 'false-convergence',
             f'search {n}: claimed with last update {un.tolist()}, |z| {z.norm(dim=1).tolist()}, x_rtol {s["x_rtol"]}')
    harmless = all(f['kind'] in ('perturb', 'nested') for f in s['faults'])
    if s['kind'] in ('good', 'mixed', 'linear') and s['maxiters'] == 200 and harmless and s['alpha'] >= .3:
        env.probe('convergence required')
        r = g.pure(z).norm(dim=1).max().item()
        bound = max(1e-5 if s['dtype'] == 'f32' else 1e-9, 1.2 * s['f_tol'] if claimed else 0.)
        env.metric('final residual / bound', r / bound)
        need(r <= bound, 'no-convergence', f'search {n}: residual {r:.3g} after {it} iterations from {s["off"]} away '
             f'(claimed: {claimed})')
    # logging must not matter
    quiet, _ = outcome(env, s, None, True, verbose=False)
    need(quiet[0] == 'ok' and same(quiet[1], z), 'independence', f'search {n}: another result with verbose=False')


def first_residual(env, s, g):
    """Residual norms after the first iteration (either reading of the initial residual is accepted)."""
    r, _ = outcome(env, s, None, True, maxiters=0)
    return r[2]['geval'].norm(dim=1)
