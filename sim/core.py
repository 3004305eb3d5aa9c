"""Core of the deterministic simulator.

A *scenario* is plain JSON.  `generate(rng)` draws one from a seeded PRNG, `execute(env, scn)` runs the
real torchdyn code under simulated callbacks / threads / storage and raises `Violation` when an oracle
fails.  Everything an execution does is a function of the scenario and the code under test: there are no
wall clocks, no unseeded randomness and no unscheduled threads in it.
"""
import hashlib
import os
import random
import sys
import traceback
from collections import Counter

REPO = os.environ.get('TORCHDYN_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """A property does not hold.  `kind` is the violation class kept fixed while minimising."""
    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind, self.detail = kind, str(detail)


class HarnessError(Exception):
    """The simulator itself is wrong (never reported as a violation)."""


class Budget(BaseException):
    """Work budget exhausted.  BaseException so that no handler in the code under test swallows it."""


class SimFault(Exception):
    """An injected failure of user code."""


class SimInterrupt(BaseException):
    """An injected interruption (like KeyboardInterrupt) of user code."""


_loaded = False


def load_target():
    """Import torch and the code under test from REPO's current working tree."""
    global _loaded
    if _loaded:
        return
    import tempfile
    import warnings
    sys.dont_write_bytecode = True
    # never trust (nor write) bytecode next to the sources: the tree may just have been patched
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'no-such-pycache-prefix')
    sys.path.insert(0, REPO)
    warnings.filterwarnings('ignore')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('MKL_NUM_THREADS', '1')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    out = sys.stdout
    try:
        sys.stdout = open(os.devnull, 'w')
        import torchdyn
        import torchdyn.core, torchdyn.numerics, torchdyn.models, torchdyn.nn, torchdyn.datasets  # noqa
        import torchdyn.numerics.solvers.hyper, torchdyn.numerics.solvers.root  # noqa
        import torchdyn.numerics.sensitivity  # noqa
    finally:
        sys.stdout = out
    if not os.path.abspath(torchdyn.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError(f'torchdyn imported from {torchdyn.__file__}, not from {REPO}')
    warnings.filterwarnings('ignore')
    _loaded = True
    _collect_code()


# ---------------------------------------------------------------------------------------------------
# sys.monitoring: work budget of callback-free loops, and line-level scheduling points
# ---------------------------------------------------------------------------------------------------
TOOL = 4
_codes = []
_hooks = {'line': None, 'jump': None}


def _collect_code():
    import types
    seen = set()

    def add(code):
        if code in seen or not code.co_filename.startswith(REPO + os.sep):
            return
        seen.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    def visit(obj):
        if isinstance(obj, (staticmethod, classmethod)):
            obj = obj.__func__
        if isinstance(obj, property):
            for f in (obj.fget, obj.fset):
                if f is not None:
                    visit(f)
            return
        obj = getattr(obj, '__wrapped__', obj)
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
    for name, mod in sorted(sys.modules.items()):
        if name == 'torchdyn' or name.startswith('torchdyn.'):
            for o in list(vars(mod).values()):
                visit(o)
                if isinstance(o, type) and getattr(o, '__module__', '').startswith('torchdyn'):
                    for oo in list(vars(o).values()):
                        visit(oo)
    _codes[:] = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    mon = sys.monitoring
    mon.use_tool_id(TOOL, 'sim')
    mon.register_callback(TOOL, mon.events.LINE, _on_line)
    mon.register_callback(TOOL, mon.events.JUMP, _on_jump)


def _on_line(code, line):
    h = _hooks['line']
    if h is not None:
        h(code, line)


def _on_jump(code, a, b):
    if b <= a:
        h = _hooks['jump']
        if h is not None:
            h()


def monitor(line=None, jump=None):
    mon = sys.monitoring
    ev = (mon.events.LINE if line else 0) | (mon.events.JUMP if jump else 0)
    if (_hooks['line'] is None) != (line is None) or (_hooks['jump'] is None) != (jump is None):
        for c in _codes:
            mon.set_local_events(TOOL, c, ev)
    _hooks['line'], _hooks['jump'] = line, jump


# ---------------------------------------------------------------------------------------------------
class Env:
    """Everything one execution records: event log (hashed), faults fired, probes, work counters."""
    MAX_JUMPS = 60_000
    MAX_EVALS = 40_000

    def __init__(self, keep=0):
        self.h = hashlib.blake2b(digest_size=12)
        self.sig_h = hashlib.blake2b(digest_size=12)
        self.faults, self.probes = Counter(), Counter()
        self.nev = self.evals = self.jumps = self.lines = self.switches = 0
        self.simtime = 0.
        self.nontrivial = False
        self.metrics = {}  # name -> largest value seen (calibration)
        self.keep, self.trace = keep, []
        self.max_evals = self.MAX_EVALS

    def ev(self, *items):
        self.nev += 1
        r = repr(items)
        self.h.update(r.encode())
        if self.keep:
            self.trace.append(r)
            if len(self.trace) > self.keep:
                del self.trace[0]

    def sig(self, *items):
        """Add to the signature by which runs count as distinct."""
        self.sig_h.update(repr(items).encode())

    def fault(self, kind):
        self.faults[kind] += 1
        self.nontrivial = True
        self.ev('fault', kind)

    def probe(self, name, n=1):
        if n:
            self.probes[name] += n

    def metric(self, name, v):
        self.metrics[name] = max(self.metrics.get(name, 0.), float(v))

    def work(self, n=1):
        self.evals += n
        if self.evals > self.max_evals:
            raise Budget(f'more than {self.max_evals} callback evaluations')

    def jump(self):
        self.jumps += 1
        if self.jumps > self.MAX_JUMPS:
            self.jumps = 0  # let handlers and finalisers run
            raise Budget(f'more than {self.MAX_JUMPS} loop iterations')

    def T(self, t):
        """Stable digest of a tensor for the event log."""
        import torch
        if isinstance(t, torch.Tensor):
            t = t.detach().contiguous()
            return hashlib.blake2b(t.numpy().tobytes(), digest_size=6).hexdigest()
        return repr(t)


def run_scenario(prop, scn, keep=0):
    """Execute one scenario.  Returns a JSON-able outcome."""
    import io
    import torch
    env = Env(keep)
    out = sys.stdout
    sys.stdout = io.StringIO()
    dd = torch.get_default_dtype()
    torch.manual_seed(0)
    random.seed(0)
    import numpy
    numpy.random.seed(0)
    torch.set_grad_enabled(True)
    viol = err = None
    try:
        monitor(jump=env.jump)
        prop.execute(env, scn)
    except Violation as e:
        viol = (e.kind, e.detail)
    except Budget as e:
        viol = ('no-termination', str(e))
    except HarnessError as e:
        err = f'HarnessError: {e}'
    except (Exception, SimInterrupt) as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + os.sep)]
        text = ''.join(traceback.format_exception(e))[-1500:]
        if inrepo:
            viol = (f'crash:{type(e).__name__}', f'{e} at {os.path.relpath(inrepo[-1].filename, REPO)}:'
                    f'{inrepo[-1].lineno} ({inrepo[-1].name})\n{text}')
        elif isinstance(e, Exception) and not isinstance(e, (OSError, MemoryError)):
            # the oracles judge any result a right implementation returns: this one they could not even read
            last = tb[-1]
            viol = (f'unreadable-result:{type(e).__name__}', f'{e} at {os.path.basename(last.filename)}:{last.lineno} '
                    f'({last.name})\n{text}')
        else:
            err = text
    finally:
        monitor()
        sys.stdout = out
        torch.set_grad_enabled(True)
        torch.set_default_dtype(dd)
    return dict(viol=viol, err=err, hash=env.h.hexdigest(), sig=env.sig_h.hexdigest(), nev=env.nev,
                evals=env.evals, simtime=env.simtime, faults=dict(env.faults), probes=dict(env.probes), metrics=dict(env.metrics),
                nontrivial=env.nontrivial, switches=env.switches, lines=env.lines, trace=env.trace)


def rng_for(seed, pid, i):
    return random.Random(f'{seed}/{pid}/{i}')


def fmt(t):
    try:
        return repr([round(float(v), 10) for v in t.detach().flatten()[:12]])
    except Exception:
        return repr(t)
