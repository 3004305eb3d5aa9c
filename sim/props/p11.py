"""P11: saved models survive crashes."""
import copy
import gc
import io
import random

import torch
import torch.nn as nn

from ..core import HarnessError, SimFault, SimInterrupt, Violation
from ..grids import draw_ts
from ..nets import Net, TimeFree, draw
from ..worlds import DT, need, same

COUNT = dict(quick=800, thorough=20000)
CHUNK = 6
RULE = ('one run = a training history of a model by a client that checkpoints to a simulated disk (whole model, state '
        'dictionary, or in-memory copy), whose process is killed at drawn field evaluations or between operations, whose '
        'writes are torn, short, lost or failing, and which restarts from the newest readable checkpoint into fresh or '
        'already used objects; parameters, losses, solutions and state-dictionary names are compared with the '
        'uninterrupted history; non-trivial when a crash or a storage fault happened; distinct by model, schedule and '
        'fault positions')
REAL = ['NeuralODE, ODEProblem, NeuralSDE, MultipleShootingLayer, CNF, HNN, DataControl, DepthCat, GalLinear, Augmenter',
        'adjoint, interpolated-adjoint and autograd training', 'torch serialisation, torch optimisers']
STUB = ['disk (in memory, with torn, short, lost and failing writes)', 'process (all objects dropped at a crash)',
        'training data', 'field networks']
ASSUMPTIONS = ['a crash drops every object but not the interpreter', 'optimizable parameters are claimed for fields without '
               'parameters of their own']
KINDS = ['net', 'net', 'timefree', 'control', 'gal', 'hutch', 'optim', 'optim', 'paramless', 'integral', 'order2', 'sde', 'ms',
         'seq', 'hnn', 'problem', 'problem_optim']
SHRINK = {'steps': ('int', 1), 'crashes': ('list', 0), 'disk': ('list', 0), 'solves': ('list', 0)}


def generate(rng, i):
    kind = rng.choice(KINDS)
    steps = rng.choice([2, 3, 4, 6])
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    if kind in ('integral', 'sde', 'ms', 'hnn'):
        sens = 'autograd'
    if kind == 'ms':
        solver = rng.choice(['mszero', 'msbackward'])
    elif kind == 'sde':
        solver = 'euler'
    else:
        solver = rng.choice(['dopri5', 'tsit5', 'rk4', 'euler'])
    interp, how = solver == 'dopri5' and rng.random() < .4, rng.choice(['model', 'state', 'state', 'state', 'copy'])
    if kind == 'gal' and interp and how == 'copy':
        how = 'model'  # the depth of the last evaluation is a non-leaf tensor then, which torch does not copy
    return dict(kind=kind, sens=sens, solver=solver, interp=interp, steps=steps,
                every=rng.choice([1, 1, 2]), how=how,
                opt=rng.choice(['sgd', 'momentum', 'adam']), seed=rng.randrange(10 ** 6), dirty=rng.random() < .4,
                crashes=[dict(step=rng.randrange(steps), at=rng.choice([None, rng.randrange(40), rng.randrange(200)]))
                         for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                disk=[dict(write=rng.randrange(steps), kind=rng.choice(['torn', 'short', 'lost', 'error']),
                           at=rng.random()) for _ in range(rng.choice([0, 0, 1, 1, 2]))],
                solves=[rng.randrange(steps) for _ in range(rng.choice([0, 1, 2]))],
                adj=rng.choice([None, 'dopri5']), dtype='f32' if kind == 'gal' else rng.choice(['f32', 'f64']),
                drop=rng.random() < .3)


# ---- module-level classes: whole-model saving pickles them by name
class Path:
    def __call__(self, a, b):
        return torch.sin(3. * b) - torch.sin(3. * a) + .3 * (b - a)


HIT = None


def hit():
    if HIT is not None:
        HIT()


class Field(Net):
    def forward(self, t, x, args={}):
        hit()
        return super().forward(t, x)


class FieldNoTime(TimeFree):
    def forward(self, x):
        hit()
        return super().forward(x)


class FieldControl(nn.Module):
    def __init__(self, dim, seed, dtype):
        super().__init__()
        from torchdyn.nn import DataControl
        self.seq = nn.Sequential(DataControl(), FieldNoTime(2 * dim, seed, dtype, out=dim))

    def forward(self, t, x, args={}):
        return self.seq(x)


class FieldGal(nn.Module):
    def __init__(self, dim, seed, dtype):
        super().__init__()
        from torchdyn.nn import DepthCat, GalLinear
        g = GalLinear(dim, dim)
        r = random.Random(f'gal/{seed}')
        g.coeffs.data = torch.tensor([r.uniform(-.4, .4) for _ in range(g.coeffs.numel())], dtype=dtype).reshape(g.coeffs.shape)
        self.seq = nn.Sequential(DepthCat(), g, nn.Tanh())

    def forward(self, t, x, args={}):
        hit()
        return self.seq(x)


class FieldSDE(Net):
    def forward(self, t, x):
        hit()
        return super().forward(t, x)


class FieldOrder2(Net):
    def forward(self, t, x, args={}):
        hit()
        return Net.forward(self, t, x)


class FieldNone(nn.Module):
    def forward(self, t, x, args={}):
        hit()
        return torch.sin(x) + t


class FieldMS(Net):
    def forward(self, t, x, args={}):
        hit()
        return torch.tanh(x @ self.A) @ self.C


class Loss(nn.Module):
    def forward(self, t, x):
        return (x ** 2).sum(1)


def mix(ps, t, x):
    h = x * ps[0] + t * ps[1]
    for k, p in enumerate(ps[2:]):
        h = h + (x @ p if p.dim() == 2 else p / (k + 1))
    return torch.tanh(h) - .3 * x


class Optim:
    """A parameter-free callable field that reads parameters handed over as optimizable ones."""
    def __init__(self, ps):
        self.ps = ps

    def fn(self):
        ps = self.ps

        def field(t, x, args={}):
            hit()
            return mix(ps, t, x)
        return field


class OptimModule(nn.Module):
    """The same as a module whose parameters are not its own (kept out of registration)."""
    def __init__(self, ps):
        super().__init__()
        self.__dict__['ps'] = ps

    def forward(self, t, x, args={}):
        hit()
        return mix(self.ps, t, x)


DIM = 2


def build(scn, seed):
    """-> (model, parameters the user expects to be trained)"""
    from torchdyn.core import MultipleShootingLayer, NeuralODE, NeuralSDE, ODEProblem
    from torchdyn.models import CNF, HNN
    from torchdyn.models.cnf import hutch_trace
    from torchdyn.nn import Augmenter
    dt, k = DT[scn['dtype']], scn['kind']
    r = random.Random(f'p11/{seed}')
    kw = dict(solver=scn['solver'], sensitivity=scn['sens'], atol=1e-3, rtol=1e-3, atol_adjoint=1e-3, rtol_adjoint=1e-3,
              solver_adjoint=scn['adj'] if scn['sens'] != 'autograd' else None, interpolator='4th' if scn['interp'] else None)
    if k in ('net', 'problem'):
        f = Field(DIM, seed, dt, unused=True)
        m = NeuralODE(f, **kw) if k == 'net' else ODEProblem(f, **kw)
    elif k == 'timefree':
        f = FieldNoTime(DIM, seed, dt)
        m = NeuralODE(f, **kw)
    elif k == 'control':
        f = FieldControl(DIM, seed, dt)
        m = NeuralODE(f, **kw)
    elif k == 'gal':
        f = FieldGal(DIM, seed, dt)
        m = NeuralODE(f, **kw)
    elif k == 'hutch':
        f = CNF(FieldNoTime(DIM, seed, dt), hutch_trace,
                torch.distributions.MultivariateNormal(torch.zeros(DIM, dtype=dt), torch.eye(DIM, dtype=dt)))
        m = NeuralODE(f, **kw)
    elif k in ('optim', 'problem_optim'):
        lay = random.Random(f'layout/{scn["seed"]}')  # the same for the model a checkpoint is loaded into
        ps = [nn.Parameter(torch.tensor([r.uniform(-1, 1) for _ in range(DIM)], dtype=dt)) for _ in range(lay.choice([2, 3, 5]))]
        if lay.random() < .5:
            ps.insert(lay.randrange(2, len(ps) + 1), nn.Parameter(.3 * torch.ones(DIM, DIM, dtype=dt)))
        if lay.random() < .5 or scn['how'] != 'state':  # functions cannot be pickled
            f = OptimModule(ps)
        else:
            f = Optim(ps).fn()
        cont = r.choice([list, tuple, iter])(ps)
        m = (NeuralODE if k == 'optim' else ODEProblem)(f, optimizable_params=cont, **kw)
        return m, ps
    elif k == 'paramless':
        f = FieldNone()
        m = NeuralODE(f, **kw)
    elif k == 'integral':
        f = Field(DIM, seed, dt)
        m = NeuralODE(f, integral_loss=Loss(), **kw)
    elif k == 'order2':
        f = FieldOrder2(2 * DIM, seed, dt, out=DIM)
        m = NeuralODE(f, order=2, **kw)
    elif k == 'sde':
        f, g = FieldSDE(DIM, seed, dt), FieldSDE(DIM, seed + 1, dt)
        m = NeuralSDE(f, g, solver='euler', bm=Path())
        return m, list(f.parameters()) + list(g.parameters())
    elif k == 'ms':
        f = FieldMS(DIM, seed, dt)
        m = MultipleShootingLayer(f, scn['solver'], maxiter=2, fine_steps=2)
    elif k == 'hnn':
        f = HNN(FieldNoTime(2 * DIM, seed, dt, out=1))
        m = NeuralODE(f, **kw)
    elif k == 'seq':
        f, a, o = Field(DIM + 1, seed, dt), TimeFree(DIM, seed + 1, dt, out=1), TimeFree(DIM + 1, seed + 2, dt, out=1)
        m = nn.Sequential(Augmenter(augment_func=a), NeuralODE(f, return_t_eval=False, **kw), o)
        return m, list(m.parameters())
    return m, list(f.parameters())


def width(scn):
    return dict(hutch=DIM + 1, integral=DIM + 1, order2=2 * DIM, hnn=2 * DIM).get(scn['kind'], DIM)


def run(m, scn, j):
    """The solve a client makes with data item j."""
    dt = DT[scn['dtype']]
    x = draw(1 + j % 3, width(scn), f'{scn["seed"]}/{j}', dt)
    rng = random.Random(f'ts/{scn["seed"]}/{j}')
    ts = torch.tensor(draw_ts(rng, n=3, span=rng.choice([.3, 1.]), near=False), dtype=dt)
    if scn['kind'] == 'ms':
        ts = torch.linspace(0, 1, 4, dtype=dt)
    if scn['kind'] == 'seq':
        # the default span of chained models
        return m(x)
    if j >= 100 and hasattr(m, 'trajectory') and scn['kind'] != 'sde' and scn['seed'] % 3 == 0:  # the other way to solve
        return m.trajectory(x, ts)
    out = m(x) if hasattr(m, 'trajectory') and (scn['seed'] + j) % 7 == 0 else m(x, ts)
    return out[1] if isinstance(out, tuple) else out


def make_opt(scn, params):
    if scn['opt'] == 'adam':
        return torch.optim.Adam(params, lr=.02)
    return torch.optim.SGD(params, lr=.05, momentum=.9 if scn['opt'] == 'momentum' else 0.)


def train(m, opt, scn, j):
    opt.zero_grad()
    loss = (run(m, scn, j) ** 2).mean()
    if loss.requires_grad:
        loss.backward()
    opt.step()
    return loss.detach()


class Disk:
    """Durable files; a write may be torn (prefix survives, no error), short or failing (error), or lost."""
    def __init__(self, env):
        self.env, self.files, self.n = env, {}, 0

    def write(self, name, data, faults):
        k = self.n
        self.n += 1
        for fl in faults:
            if fl['write'] == k:
                self.env.fault('disk-' + fl['kind'])
                cut = min(len(data) - 1, int(fl['at'] * len(data)))
                if fl['kind'] == 'lost':
                    return
                if fl['kind'] == 'error':
                    raise OSError(28, 'No space left on device')
                self.files[name] = data[:cut]
                if fl['kind'] == 'short':
                    raise OSError(5, 'Input/output error')
                return
        self.files[name] = data


def names(m):
    return list(m.state_dict().keys())


def check_names(m, params, want, when):
    sd = m.state_dict(keep_vars=True)
    need(list(sd.keys()) == want, 'state-dict-names', f'{when}: names changed from {want} to {list(sd.keys())}')
    ids = {id(v) for v in sd.values()}
    mids = {id(p) for p in m.parameters()}
    for p in params:
        need(id(p) in ids, 'state-dict-misses-parameter', f'{when}: a trainable parameter of shape {tuple(p.shape)} is not in '
             f'the state dictionary {want}')
        need(id(p) in mids, 'state-dict-misses-parameter', f'{when}: a trainable parameter is not among model.parameters()')


def execute(env, scn):
    global HIT
    dt = DT[scn['dtype']]
    n = scn['steps']
    crash = {}
    plan = {'left': None}

    def H():
        env.work()
        if plan['left'] is not None:
            plan['left'] -= 1
            if plan['left'] < 0:
                plan['left'] = None
                env.fault('crash-in-evaluation')
                raise SimInterrupt('killed')
    HIT = H
    try:
        # ---- the uninterrupted history
        torch.manual_seed(scn['seed'])
        m, params = build(scn, scn['seed'])
        want_names = names(m)
        check_names(m, params, want_names, 'after construction')
        opt = make_opt(scn, list(m.parameters()))
        ref_loss, ref_par, ref_sol = [], [], []
        for j in range(n):
            ref_loss.append(train(m, opt, scn, j))
            check_names(m, params, want_names, f'after step {j}')
            ref_par.append([p.detach().clone() for p in m.parameters()])
            rs = torch.get_rng_state()
            ref_sol.append(run(m, scn, 100 + j).detach())
            torch.set_rng_state(rs)
        ref_keys = want_names
        env.sig(scn['kind'], scn['sens'], scn['solver'], scn['how'], n, str(scn['crashes']), str(scn['disk']), scn['every'])
        del m, opt, params
        # ---- the history with crashes
        for c in scn['crashes']:
            crash.setdefault(c['step'], []).append(c['at'])
        disk = Disk(env)
        mem = {}
        torch.manual_seed(scn['seed'])
        m, params = build(scn, scn['seed'])
        opt = make_opt(scn, list(m.parameters()))
        save(env, scn, disk, mem, m, opt, 0, ())  # the client starts from a durable initial state
        disk.n = 0
        j = 0
        guard = 0
        while j < n:
            guard += 1
            if guard > 40:
                raise HarnessError('client makes no progress')
            try:
                if j in crash and crash[j]:
                    at = crash[j].pop()
                    if at is None:
                        env.fault('crash-between-steps')
                        raise SimInterrupt('killed')
                    plan['left'] = at
                if j in scn['solves']:
                    rs = torch.get_rng_state()
                    run(m, scn, 200 + j)
                    torch.set_rng_state(rs)
                loss = train(m, opt, scn, j)
                plan['left'] = None
                env.ev('step', j, env.T(loss))
                need(same(loss, ref_loss[j]), 'resumed-loss',
                     f'loss of step {j} is {loss.item()!r}, in the uninterrupted history {ref_loss[j].item()!r}')
                par = [p.detach() for p in m.parameters()]
                need(same(par, ref_par[j]), 'resumed-parameters',
                     lambda: f'parameters after step {j} differ from the uninterrupted history by '
                     f'{max([(a - b).abs().max().item() for a, b in zip(par, ref_par[j])] + [0])}')
                need(names(m) == ref_keys, 'state-dict-names', f'names are {names(m)} instead of {ref_keys}')
                j += 1
                if j % scn['every'] == 0:
                    try:
                        save(env, scn, disk, mem, m, opt, j, scn['disk'])
                    except OSError:
                        env.probe('write errors seen by the client')
            except SimInterrupt:
                plan['left'] = None
                env.probe('restarts')
                m = opt = params = None
                gc.collect()
                m, params, opt, j = restart(env, scn, disk, mem, ref_keys, ref_par, ref_sol)
        # ---- a reader loads the newest readable checkpoint and solves
        m = opt = params = None
        m, params, opt, j = restart(env, scn, disk, mem, ref_keys, ref_par, ref_sol)
        if scn['drop']:
            dropped(env, scn, m)
        env.simtime += n
    finally:
        HIT = None


def save(env, scn, disk, mem, m, opt, step, faults):
    rs = torch.get_rng_state()
    if scn['how'] == 'copy':
        m2 = copy.deepcopy(m)
        o2 = make_opt(scn, list(m2.parameters()))
        o2.load_state_dict(copy.deepcopy(opt.state_dict()))
        mem[step] = (m2, o2, rs)
        return
    b = io.BytesIO()
    if scn['how'] == 'model':
        torch.save(dict(model=m, opt=opt.state_dict(), rng=rs, step=step), b)
    else:
        torch.save(dict(model=m.state_dict(), opt=opt.state_dict(), rng=rs, step=step), b)
    env.ev('save', step)
    disk.write(f'ckpt{step}', b.getvalue(), faults)


def restart(env, scn, disk, mem, ref_keys, ref_par, ref_sol):
    """Newest checkpoint that can be read; a damaged one must say so."""
    if scn['how'] == 'copy':
        step = max(mem)
        m, opt, rs = mem[step]
        # the copy itself stays as a second checkpoint
        m2 = copy.deepcopy(m)
        o2 = make_opt(scn, list(m2.parameters()))
        o2.load_state_dict(copy.deepcopy(opt.state_dict()))
        return finish(env, scn, m2, None, o2, rs, step, ref_keys, ref_par, ref_sol)
    for name in sorted(disk.files, key=lambda s: -int(s[4:])):
        data = disk.files[name]
        step = int(name[4:])
        try:
            ck = torch.load(io.BytesIO(data), weights_only=False)
        except Exception as e:
            env.probe('damaged checkpoints reported')
            env.ev('damaged', name)
            continue
        if scn['how'] == 'model':
            m, params = ck['model'], None
        else:
            m, params = build(scn, scn['seed'] + 17)
            if scn['dirty']:  # into a model that has been used, with other weights and another history
                o = make_opt(scn, list(m.parameters()))
                train(m, o, scn, 300)
                train(m, o, scn, 301)
            res = m.load_state_dict(ck['model'])
            need(not res.missing_keys and not res.unexpected_keys, 'state-dict-names', str(res))
        opt = make_opt(scn, list(m.parameters()))
        opt.load_state_dict(ck['opt'])
        need(ck['step'] == step, 'checkpoint-mixup', '')
        return finish(env, scn, m, params, opt, ck['rng'], step, ref_keys, ref_par, ref_sol)
    raise HarnessError('no readable checkpoint although the first write was clean')


def finish(env, scn, m, params, opt, rs, step, ref_keys, ref_par, ref_sol):
    need(names(m) == ref_keys, 'state-dict-names', f'a loaded model has names {names(m)} instead of {ref_keys}')
    if params:
        check_names(m, params, ref_keys, 'after loading')
    torch.set_rng_state(rs)
    if step > 0:
        par = [p.detach() for p in m.parameters()]
        need(same(par, ref_par[step - 1]), 'loaded-parameters', f'the checkpoint of step {step} holds other parameters')
        out = run(m, scn, 100 + step - 1).detach()
        torch.set_rng_state(rs)
        need(same(out, ref_sol[step - 1]), 'loaded-solution',
             lambda: f'the model loaded from step {step} solves differently: '
             f'{(out - ref_sol[step - 1]).abs().max().item() if out.shape == ref_sol[step - 1].shape else out.shape}')
        env.probe('loaded models compared')
    return m, params, opt, step


def dropped(env, scn, m):
    """A state dictionary that lost an entry is refused, not loaded as a different model."""
    sd = dict(m.state_dict())
    if not sd:
        return
    k = sorted(sd)[scn['seed'] % len(sd)]
    part = {a: b for a, b in sd.items() if a != k}
    fresh, _ = build(scn, scn['seed'] + 23)
    env.fault('lost-entry')
    try:
        fresh.load_state_dict(part)
    except RuntimeError:
        return
    raise Violation('partial-load-accepted', f'a state dictionary without {k} loaded without an error')
