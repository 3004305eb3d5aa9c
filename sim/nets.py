"""Small deterministic networks used as learnable vector fields."""
import random

import torch
import torch.nn as nn


class Net(nn.Module):
    """x' = tanh(x A + t b) C, with one parameter the field never uses (optional)."""
    def __init__(self, dim, seed, dtype=torch.float64, out=None, unused=False, hit=None, time=True, scale=.6):
        super().__init__()
        r = random.Random(f'net/{seed}')
        out = out or dim

        def P(*s):
            n = 1
            for v in s:
                n *= v
            return nn.Parameter(torch.tensor([r.uniform(-scale, scale) for _ in range(n)], dtype=dtype).reshape(s))
        self.A, self.b, self.C = P(dim, 4), P(4), P(4, out)
        if unused:
            self.u = P(3)
        self.hit, self.time = hit, time
        self.dim_in = dim

    def forward(self, t, x, args={}):
        q = self.hit('field', t, x) if self.hit is not None else None
        h = x @ self.A
        if self.time:
            h = h + t * self.b
        y = torch.tanh(h) @ self.C
        return y if q is None else y * q


class TimeFree(Net):
    def forward(self, x):
        q = self.hit('field', None, x) if self.hit is not None else None
        y = torch.tanh(x @ self.A + self.b) @ self.C
        return y if q is None else y * q


def draw(rows, dim, seed, dtype=torch.float64, lo=-1.5, hi=1.5):
    r = random.Random(f'draw/{seed}')
    return torch.tensor([[round(r.uniform(lo, hi), 5) for _ in range(dim)] for _ in range(rows)], dtype=dtype)
