"""A baton scheduler: several real threads of which exactly one runs, switched only where the scenario says.

Scheduling points are the executed source lines of the code under test (sys.monitoring LINE events), so that a
switch can fall between any two of its statements.  The plan is explicit data: a list of (thread, its local line
count, next thread) preemptions, or a quantum after which the next runnable thread continues."""
import threading

from .core import Budget, HarnessError, monitor

WATCHDOG = 20.  # s without progress of the running thread (it waits for a lock of another one): hand over


class Baton:
    def __init__(self, env, jobs, preempts=(), quantum=0, record=None):
        self.env, self.jobs, self.quantum = env, jobs, quantum
        self.plan = {(p['th'], p['at']): p['to'] for p in preempts}
        self.index, self.count = {}, [0] * len(jobs)
        self.go = [threading.Event() for _ in jobs]
        self.alive = [True] * len(jobs)
        self.current, self.lock, self.ticks, self.left = None, threading.Lock(), 0, quantum
        self.results = [None] * len(jobs)
        self.switches = []

    def on_line(self, code, line):
        me = self.index.get(threading.get_ident())
        if me is None:
            return
        if self.current != me:  # only after a watchdog hand-over
            self.wait(me)
        self.ticks += 1
        self.count[me] += 1
        n = self.count[me]
        to = self.plan.get((me, n))
        if to is None and self.quantum:
            self.left -= 1
            if self.left <= 0:
                self.left = self.quantum
                to = self.next_after(me)
        if to is not None and to != me and self.alive[to]:
            self.switches.append((me, n, to))
            self.give(to)
            self.wait(me)

    def next_after(self, me):
        n = len(self.jobs)
        for k in range(1, n + 1):
            if self.alive[(me + k) % n]:
                return (me + k) % n
        return None

    def give(self, to):
        with self.lock:
            self.current = to
            self.go[to].set()

    def wait(self, me):
        while True:
            seen = self.ticks
            if self.go[me].wait(WATCHDOG):
                self.go[me].clear()
                if self.current == me:
                    return
                continue
            with self.lock:
                stuck = self.ticks == seen and self.current != me
                if stuck:
                    self.env.probe('watchdog-handover')
                    self.current = me
                    return

    def body(self, i):
        self.index[threading.get_ident()] = i
        self.wait(i)
        try:
            self.results[i] = ('ok', self.jobs[i]())
        except BaseException as e:  # noqa: reported by the main thread
            self.results[i] = ('exc', e)
        self.index.pop(threading.get_ident(), None)
        self.alive[i] = False
        nxt = self.next_after(i)
        if nxt is not None:
            self.give(nxt)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        monitor(line=self.on_line, jump=self.env.jump)
        try:
            for t in ts:
                t.start()
            self.give(0)
            for t in ts:
                t.join()
        finally:
            monitor(jump=self.env.jump)
        self.env.switches += len(self.switches)
        self.env.lines += sum(self.count)
        for kind, r in self.results:
            if kind == 'exc' and isinstance(r, (Budget, HarnessError)):
                raise r
        return self.results


def count_lines(env, job):
    """Run a job alone; number of scheduling points it has."""
    n = [0]

    def tick(code, line):
        n[0] += 1
    monitor(line=tick, jump=env.jump)
    try:
        r = job()
    finally:
        monitor(jump=env.jump)
    return r, n[0]
