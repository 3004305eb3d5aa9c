"""P08: hybrid solves localise events, apply one jump each, and flow exactly in between."""
import math

import torch

from ..core import Violation
from ..grids import draw_ts
from ..worlds import DT, EPS, draw_world, draw_x0, make_world, need, same

COUNT = dict(quick=4000, thorough=90000)
RULE = ('one run = one hybrid solve of a field with known flow under 1-3 simulated guards (state, norm, time, combined, '
        'coinciding), jump maps, forced rejections and non-finite error estimates at drawn solver calls; the recorded '
        'history of times, states, guard and jump calls is checked; non-trivial when at least one jump happened or a fault '
        'fired; distinct by world, guards, jump order and fault positions')
REAL = ['odeint_hybrid, event bisection, step controller', 'DormandPrince45, Tsitouras45']
STUB = ['vector field with exact flow', 'event callbacks (guards and jump maps)', 'solver wrapper forcing verdicts']
ASSUMPTIONS = ['guards are functions of time, state and of the jumps so far', 'events that end again within one step may '
               'pass unnoticed', 'event_tol is at least several spacings of floating-point numbers at the time reached',
               'faults hit error estimates; non-finite states during event localisation are not claimed']
SHRINK = {'events': ('list', 1), 'faults': ('list', 0), 'batch': ('int', 1), 'jspan': ('int', 1), 'ts': ('list', 2),
          'spec.kind': ('choice', ['decay']), 'solver': ('choice', ['dopri5'])}


def generate(rng, i):
    spec = draw_world(rng, ['decay', 'growth', 'rotation', 'forced', 'drivendecay', 'gauss'])
    spec['a'] = min(spec['a'], 3.)
    ts = draw_ts(rng, n=rng.choice([2, 2, 3, 4, 6]), span=rng.choice([1., 2., 4.]), near=False)
    events = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        if events and rng.random() < .25:
            events.append(dict(events[-1], jump=draw_jump(rng)))  # the same guard again: the lower index must act
            continue
        kind = rng.choice(['state', 'state', 'state', 'norm', 'time', 'timer', 'both'])
        events.append(dict(kind=kind, d=rng.randrange(spec['dim']), thr=round(rng.uniform(-1.5, 1.5), 3),
                           sign=rng.choice([-1, 1]), at=round(ts[0] + rng.random() * (ts[-1] - ts[0]), 4),
                           period=rng.choice([.2, .35, .5, 1.]), jump=draw_jump(rng)))
    dtype = rng.choice(['f64', 'f64', 'f32'])
    return dict(spec=spec, ts=ts, events=events, solver=rng.choice(['dopri5', 'dopri5', 'tsit5']), dtype=dtype,
                tol=rng.choice([1e-3, 1e-4, 1e-5, 1e-6]) if dtype == 'f64' else rng.choice([1e-3, 1e-4]),
                event_tol=rng.choice([1e-2, 1e-3, 1e-4]), jspan=rng.choice([1, 2, 3, 5, 8]), batch=rng.choice([1, 1, 2, 3]),
                xseed=rng.randrange(10 ** 6), priority=rng.choice(['jump', 'jump', 'flow']),
                faults=[dict(at=rng.choice([0, 1, 2, 3, 5, 8, 13, 21]), len=rng.choice([1, 1, 2, 4]),
                             kind=rng.choice(['inf', 'nan', 'big'])) for _ in range(rng.choice([0, 0, 1, 2, 3]))])


def draw_jump(rng):
    return dict(scale=rng.choice([1., 1., .5, -1., -.8, 0.]), shift=rng.choice([0., 0., .7, -.7, 1.5, .05]))


class Guard:
    """One event condition: active where value(t, x) > 0."""
    def __init__(self, ev):
        self.ev, self.next = ev, ev['at']

    def value(self, t, x, nxt=None):
        e = self.ev
        nxt = self.next if nxt is None else nxt
        s = (e['sign'] * (x[:, e['d']] - e['thr'])).max().item()
        if e['kind'] == 'state':
            return s
        if e['kind'] == 'norm':
            return (x.norm(dim=1) - (abs(e['thr']) + .5)).max().item()
        if e['kind'] == 'both':
            return min(s, t - e['at'])
        return t - nxt


    def same(self, other, nxt, onxt):
        a, b = self.ev, other.ev
        if a['kind'] != b['kind'] or nxt != onxt and a['kind'] in ('time', 'timer'):
            return False
        return a['kind'] in ('time', 'timer') or all(a[k] == b[k] for k in ('d', 'thr', 'sign', 'at'))


def execute(env, scn):
    from torchdyn.numerics.odeint import odeint_hybrid
    from torchdyn.numerics.solvers import ode
    from torchdyn.numerics.utils import EventCallback
    dt, eps = DT[scn['dtype']], EPS[scn['dtype']]
    w = make_world(scn['spec'])
    guards = [Guard(e) for e in scn['events']]
    log, bad = [], {}
    for f in scn['faults']:
        for k in range(f['at'], f['at'] + f['len']):
            bad[k] = f['kind']

    def field(t, x):
        env.work()
        return w.f(t, x)

    class Cb(EventCallback):
        def check_event(self, t, x):
            env.work()
            v = self.g.value(float(t), x)
            return v > 0

        def jump_map(self, t, x):
            j = self.g.ev['jump']
            nxt = [g.next for g in guards]
            if self.g.ev['kind'] == 'timer':
                self.g.next += self.g.ev['period']
            elif self.g.ev['kind'] == 'time':
                self.g.next = math.inf
            y = x * j['scale'] + j['shift']
            log.append((self.i, float(t), x.detach().clone(), y.detach().clone(), nxt))
            env.ev('jump', self.i, float(t))
            return y
    cbs = []
    for i, g in enumerate(guards):
        c = Cb()
        c.i, c.g = i, g
        cbs.append(c)
    base = {'dopri5': ode.DormandPrince45, 'tsit5': ode.Tsitouras45}[scn['solver']]
    calls = [0]

    class Solver(base):
        def step(self, *a, **kw):
            k = calls[0]
            calls[0] += 1
            f_new, x_new, err, *rest = super().step(*a, **kw)
            if k in bad:
                env.fault('error-estimate-' + bad[k])
                err = err * 0 + {'inf': math.inf, 'nan': math.nan, 'big': 1e6}[bad[k]]
            return (f_new, x_new, err, *rest)
    x0 = draw_x0(scn['spec'], scn['batch'], scn['xseed'], dt)
    ts = torch.tensor(scn['ts'], dtype=dt)
    first_active = [g.value(float(ts[0]), x0) > 0 for g in guards]
    first_next = [g.next for g in guards]
    te, sol = odeint_hybrid(field, x0, ts, scn['jspan'], Solver(dt), cbs, atol=scn['tol'], rtol=scn['tol'],
                            event_tol=scn['event_tol'], priority=scn['priority'])
    te, sol = te.detach(), sol.detach()
    n = len(te)
    need(len(sol) == n and sol.shape[1:] == x0.shape, 'shape', f'{tuple(te.shape)} times, {tuple(sol.shape)} states')
    need(bool((te[1:] >= te[:-1]).all()), 'time-order', f'{te.tolist()}')
    need(te[0] == ts[0] and te[-1] <= ts[-1], 'span', f'from {te[0]} to {te[-1]} for span {scn["ts"]}')
    need(bool(torch.isfinite(sol).all()), 'non-finite', 'recorded states are not finite')
    env.simtime += float(te[-1] - te[0])
    jumps = list(log)
    # ---- the jump before the flow
    pos = 0
    nexts = first_next
    if scn['priority'] == 'jump' and any(first_active):
        need(jumps, 'missing-jump', 'an event is active at the start, yet no jump was made')
        i, t, pre, post, _ = jumps.pop(0)
        need(i == first_active.index(True), 'event-index', f'start: jump map {i} for active events {first_active}')
        need(t == float(ts[0]) and same(pre, x0), 'jump-state', 'the first jump map did not get the initial state')
        need(same(sol[0], post), 'jump-state', 'the solution does not start from the jumped state')
        nexts = [g.ev['at'] for g in guards] if not jumps else jumps[0][4]
        env.probe('initial-jump')
    else:
        need(same(sol[0], x0), 'initial-state', 'the solution does not start at the given state')
        nexts = first_next
    total = len(log)
    need(total <= scn['jspan'], 'too-many-jumps', f'{total} jumps with j_span={scn["jspan"]}')
    if total < scn['jspan']:
        need(te[-1] == ts[-1], 'stopped-early', f'{total} of {scn["jspan"]} jumps, stopped at {te[-1]} of {ts[-1]}')
    # ---- walk along the record
    tmax = max(map(abs, scn['ts']))
    lip = max(w.lip(), 1.) if scn['spec']['kind'] != 'gauss' else 2 * scn['spec']['a'] * tmax + 1
    k, seen_jumps = 1, 0
    order = []
    while k < n:
        a, b = float(te[k - 1]), float(te[k])
        # is this record the state before the next jump?
        is_pre = bool(jumps) and jumps[0][1] == b and same(jumps[0][2], sol[k]) and k + 1 < n and te[k + 1] == te[k] \
            and same(jumps[0][3], sol[k + 1])
        big = sol[k - 1].abs().max().item() + sol[k].abs().max().item() + 1
        tol = (3 * scn['tol'] * big * w.growth(a, b) * (1 + lip * (b - a)) +
               40 * eps * (big * lip + 1) * (1 + tmax)) * 1.
        want = w.flow(a, b, sol[k - 1])
        err = (sol[k].double() - want).abs().max().item()
        env.metric('flow', err / tol)
        if not err <= tol:
            raise Violation('flow', f'state at t={b} is {err:.3g} off the flow from t={a} (allowed {tol:.3g})'
                                    f'{" before a jump" if is_pre else ""}')
        cur = jumps[0][4] if jumps else [g.next for g in guards]
        slack = 1e-9 if scn['dtype'] == 'f64' else 1e-5
        active = [g.value(b, sol[k], nx) > 0 for g, nx in zip(guards, cur)]
        if any(active):
            # allowed only for the start of a flow, recorded again because its event acts at once
            need(is_pre and same(sol[k], sol[k - 1]) and a == b or is_pre and b - a <= 0, 'event-missed',
                 f'at t={b} a recorded flow state satisfies guard {active.index(True)}')
        if is_pre:
            i, t, pre, post, cur = jumps.pop(0)
            order.append(i)
            seen_jumps += 1
            # the event must set in within event_tol of the state before the jump
            width = scn['event_tol'] * (1 + 1e-6) + 8 * eps * (tmax + 1)
            pts = [b + width * q / 24 for q in range(25)]
            vals = []
            for p in pts:
                xp = w.flow(b, p, sol[k])
                vals.append([g.value(p, xp, nx) for g, nx in zip(guards, cur)])
            m = (tol + 1e-12) * 2 + width * 1e-9 + slack
            best = max(v[i] for v in vals)
            need(best > -m, 'not-at-event', f'jump map {i} applied at t={b}, but its guard stays {best:.3g} for the '
                                            f'next {scn["event_tol"]}')
            for j in range(i):
                # a lower-index guard active over the whole bracket must have won
                low = min(v[j] for v in vals[1:])
                if low > m and vals[0][j] > -m:
                    raise Violation('event-index', f'jump map {i} applied at t={b} while guard {j} is active')
            for j in range(i):
                if guards[j].same(guards[i], cur[j], cur[i]):
                    raise Violation('event-index', f'jump map {i} applied at t={b}, although guard {j} is the same one')
            k += 2
            env.nontrivial = True
            continue
        # a step below the resolution of time may still move a state that is near zero
        if te[k] == te[k - 1] and k >= 1 and not same(sol[k], sol[k - 1]) and \
                not (sol[k] - sol[k - 1]).abs().max().item() <= 4 * eps * (1 + tmax) * (big * lip + 2):
            raise Violation('unexplained-jump', f'two different states at t={b} and no jump map made the second of the first')
        k += 1
    need(not jumps, 'jump-not-recorded', f'{len(jumps)} jump map calls (first at t={jumps[0][1] if jumps else 0}) do not '
                                         f'appear as a state before and after in the solution')
    for t in ts.tolist():
        if t < float(te[-1]) or total < scn['jspan']:
            need(bool((te == torch.tensor(t, dtype=dt)).any()), 'missing-time',
                 f'requested time {t} is not recorded: {te.tolist()[:20]}')
    env.probe('jumps', total)
    if total == scn['jspan']:
        env.probe('jump-budget-reached')
    env.ev(scn['spec']['kind'], n, total, env.T(sol))
    env.sig(scn['spec']['kind'], [(e['kind'], e['sign']) for e in scn['events']], order, scn['solver'],
            sorted(bad.items())[:6])

