"""Simulated vector fields with exactly known flows, and the simulated callback parties around them."""
import math

import torch

from .core import SimFault, Violation, HarnessError

DT = {'f32': torch.float32, 'f64': torch.float64}
EPS = {'f32': 1.2e-7, 'f64': 2.3e-16}


class World:
    """x' = f(t, x) on states [batch, dim] with its exact flow (computed in float64)."""
    name, dim = None, 2

    def f(self, t, x):
        raise NotImplementedError

    def flow(self, t0, t1, x):
        raise NotImplementedError

    def growth(self, t0, t1):
        """Bound on how much the flow from t0 to t1 amplifies a perturbation."""
        return 1.

    def lip(self):
        """Bound on the field's Lipschitz constant (for roundoff in time) and on |df/dt|."""
        return 1.


class Decay(World):
    def __init__(self, dim=2, a=1.):
        self.dim, self.name = dim, 'decay'
        self.r = [-a * (1 + 0.5 * i) for i in range(dim)]

    def f(self, t, x):
        return x * torch.tensor(self.r, dtype=x.dtype)

    def flow(self, t0, t1, x):
        return x.double() * torch.exp(torch.tensor(self.r, dtype=torch.float64) * (t1 - t0))

    def growth(self, t0, t1):
        return max(1., math.exp(max(r * (t1 - t0) for r in self.r)))

    def lip(self):
        return max(abs(r) for r in self.r)


class Growth(Decay):
    def __init__(self, dim=2, a=.4):
        super().__init__(dim, a)
        self.name = 'growth'
        self.r = [-r for r in self.r]


class Rotation(World):
    def __init__(self, dim=2, a=2.):
        self.dim, self.w, self.name = 2, a, 'rotation'

    def f(self, t, x):
        return self.w * torch.stack([-x[:, 1], x[:, 0]], 1)

    def flow(self, t0, t1, x):
        x, th = x.double(), self.w * (t1 - t0)
        c, s = math.cos(th), math.sin(th)
        return torch.stack([c * x[:, 0] - s * x[:, 1], s * x[:, 0] + c * x[:, 1]], 1)

    def lip(self):
        return abs(self.w)


class Forced(World):
    """x' = a cos(w t + i)   (time dependent only)."""
    def __init__(self, dim=2, a=1.5):
        self.dim, self.w, self.name = dim, a, 'forced'

    def f(self, t, x):
        ph = torch.arange(x.shape[1], dtype=x.dtype)
        return torch.cos(self.w * t + ph).expand_as(x) * 1.

    def flow(self, t0, t1, x):
        ph = torch.arange(x.shape[1], dtype=torch.float64)
        return x.double() + (torch.sin(self.w * t1 + ph) - torch.sin(self.w * t0 + ph)) / self.w

    def lip(self):
        return abs(self.w)


class DrivenDecay(World):
    """x' = -a (x - cos t) - sin t + ...: x = cos t + C exp(-a t), both time and state dependent."""
    def __init__(self, dim=2, a=1.2):
        self.dim, self.a, self.name = dim, a, 'driven'

    def f(self, t, x):
        return -self.a * (x - torch.cos(t)) - torch.sin(t)

    def flow(self, t0, t1, x):
        return math.cos(t1) + (x.double() - math.cos(t0)) * math.exp(-self.a * (t1 - t0))

    def growth(self, t0, t1):
        return max(1., math.exp(-self.a * (t1 - t0)))

    def lip(self):
        return max(self.a, 1.) + 1


class Logistic(World):
    """x' = a x (1 - x), x0 in (0, 1.5)."""
    def __init__(self, dim=2, a=1.):
        self.dim, self.a, self.name = dim, a, 'logistic'

    def f(self, t, x):
        return self.a * x * (1 - x)

    def flow(self, t0, t1, x):
        x = x.double()
        e = math.exp(self.a * (t1 - t0))
        return x * e / (1 - x + x * e)

    def growth(self, t0, t1):
        return math.exp(abs(self.a * (t1 - t0)))

    def lip(self):
        return abs(self.a)


class Gauss(World):
    """x' = -2 c t x."""
    def __init__(self, dim=2, a=.5):
        self.dim, self.a, self.name = dim, a, 'gauss'

    def f(self, t, x):
        return -2 * self.a * t * x

    def flow(self, t0, t1, x):
        return x.double() * math.exp(-self.a * (t1 * t1 - t0 * t0))

    def growth(self, t0, t1):
        return max(1., math.exp(self.a * (max(t0 * t0, t1 * t1) - t1 * t1)))

    def lip(self):
        return 2 * self.a * 8


WORLDS = {w.__name__.lower(): w for w in (Decay, Growth, Rotation, Forced, DrivenDecay, Logistic, Gauss)}


def make_world(spec):
    return WORLDS[spec['kind']](spec.get('dim', 2), spec.get('a', 1.))


def draw_world(rng, kinds=None):
    kind = rng.choice(sorted(kinds or WORLDS))
    a = {'decay': (.3, 3.), 'growth': (.1, .8), 'rotation': (.5, 6.), 'forced': (.5, 4.), 'drivendecay': (.4, 3.),
         'logistic': (.4, 2.), 'gauss': (.1, .5)}[kind]
    dim = 2 if kind == 'rotation' else rng.choice([1, 2, 2, 3])
    return dict(kind=kind, dim=dim, a=round(rng.uniform(*a), 3))


def draw_x0(spec, batch, seed, dtype):
    import random
    r = random.Random(f'x0/{seed}')
    lo, hi = (.1, .9) if spec['kind'] == 'logistic' else (-2., 2.)
    return torch.tensor([[round(r.uniform(lo, hi), 4) for _ in range(spec.get('dim', 2))] for _ in range(batch)],
                        dtype=dtype)


class Packed:
    """A world whose states [batch, dim] the code under test sees in another shape or as complex numbers."""
    def __init__(self, world, how):
        self.w, self.how, self.name, self.dim = world, how, world.name, world.dim

    def pack(self, x):
        if self.how == 'flat':
            return x.reshape(-1)
        if self.how == 'deep':
            return x.reshape(x.shape[0], 1, self.dim, 1)
        if self.how == 'tall':
            return x.reshape(1, x.shape[0], self.dim)
        if self.how == 'complex':
            return torch.complex(x, x.flip(0) * .5)
        return x

    def un(self, z):
        if self.how == 'complex':
            return torch.cat([z.real, z.imag], 0)
        return z.reshape(-1, self.dim)

    def f(self, t, z):
        t = t.real if torch.is_tensor(t) and t.is_complex() else t
        d = self.w.f(t, self.un(z))
        if self.how == 'complex':
            n = z.shape[0]
            return torch.complex(d[:n], d[n:])
        return d.reshape(z.shape)

    def flow(self, t0, t1, x):
        return self.w.flow(t0, t1, x)

    def growth(self, t0, t1):
        return self.w.growth(t0, t1)

    def lip(self):
        return self.w.lip()


# ------------------------------------------------------------------------------------------------------
class Field:
    """The simulated vector-field party: evaluates a world, counts, logs and injects faults by call index."""
    def __init__(self, env, world, faults=()):
        self.env, self.world, self.n = env, world, 0
        self.bad = {}
        for fl in faults:
            if fl['kind'] in ('nan', 'inf', '-inf', 'raise'):
                for k in range(fl['at'], fl['at'] + fl.get('len', 1)):
                    self.bad[k] = fl['kind']
        self.fired = 0
        self.last_bad = -1

    def __call__(self, t, x, args=None):
        self.env.work()
        k = self.n
        self.n += 1
        out = self.world.f(t, x)
        b = self.bad.get(k)
        if b is not None:
            self.fired += 1
            self.last_bad = k
            self.env.fault('field-' + b)
            if b == 'raise':
                raise SimFault(f'field evaluation {k}')
            # one corrupted component is enough to spoil an evaluation
            bad = out.clone()
            bad.reshape(-1)[k % bad.numel()] = float(b)
            return bad
        return out


class FieldModule(torch.nn.Module):
    """The same party as an nn.Module, as NeuralODE and ODEProblem take it."""
    def __init__(self, field):
        super().__init__()
        self.field = field

    def forward(self, t, x, args={}):
        return self.field(t, x)


def relerr(a, b):
    a, b = a.detach(), b.detach()
    a, b = (v.to(torch.complex128) if v.is_complex() else v.double() for v in (a, b))
    if a.shape != b.shape:
        return float('inf')
    if a.numel() == 0:
        return 0.
    d = (a - b).abs().max().item()
    return d if d == d else float('inf')


def same(a, b):
    """Bitwise equality of nested tensors (NaN equal to NaN)."""
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def need(cond, kind, detail=''):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)
