"""Requested times: spans of every sign, length, spacing and direction."""


def draw_ts(rng, n=None, lo=-3., hi=3., span=None, minlen=.05, near=True):
    """Strictly increasing requested times with adversarial spacing."""
    n = n or rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 12])
    T = span if span is not None else rng.choice([.1, .5, 1., 1., 2., 3.])
    t0 = rng.choice([0., 0., 0., -1., 1., round(rng.uniform(lo, hi), 3), -T, -T / 2])
    style = rng.choice(['uniform', 'uniform', 'tenths', 'random', 'random', 'geometric', 'clustered'] if near else
                       ['uniform', 'tenths', 'random', 'geometric'])
    if style == 'uniform' or n == 2:
        ts = [t0 + T * i / (n - 1) for i in range(n)]
    elif style == 'tenths':
        ts = [t0 + 0.1 * i for i in range(n)]
    elif style == 'random':
        c = sorted(rng.uniform(0, T) for _ in range(n - 2))
        ts = [t0] + [t0 + v for v in c] + [t0 + T]
    elif style == 'geometric':
        ts = [t0 + T * (2. ** i - 1) / (2. ** (n - 1) - 1) for i in range(n)]
    else:
        c = [T * rng.choice([.3, .5, .8]) + rng.choice([1e-3, 1e-4, 1e-2]) * i for i in range(n - 2)]
        ts = [t0] + [t0 + v for v in c] + [t0 + T]
    out = [ts[0]]
    gap = T * 1e-4 if near else T * minlen
    for v in sorted(ts[1:]):
        if v > out[-1] + gap:
            out.append(v)
    if len(out) < 2:
        out.append(t0 + T)
    return [round(v, 9) for v in out]
