"""A controlled scheduler: real threads, exactly one of which runs at a time.

Threads under control call `point(label)` at scheduling points; the controller (the thread
that called run()) then picks which one continues.  A point may carry a condition, in which
case its thread is eligible only while the condition holds, and a deadline on the virtual
clock, at which it becomes eligible anyway.  When nothing is eligible the clock jumps to the
earliest deadline; when there is none either, the run is over (`idle`).
"""
import random
import threading


class Stop(BaseException):
    """Unwinds a controlled thread that is no longer wanted."""


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.go = threading.Semaphore(0)
        self.label = 'start'
        self.cond = self.deadline = None
        self.timed_out = False
        self.done = self.kill = False
        self.result = self.exc = None
        self.steps = 0
        self.prio = 0
        self.thread = threading.Thread(target=self._main, daemon=True, name=f'task-{name}')

    def _main(self):
        self.go.acquire()
        try:
            if not self.kill:
                self.result = self.fn()
        except Stop:
            pass
        except BaseException as e:
            self.exc = e
        self.done = True
        self.sched.back.release()

    def ready(self, now):
        if self.done:
            return False
        if self.cond is None and self.deadline is None:
            return True
        if self.cond is not None and self.cond():
            return True
        return self.deadline is not None and self.deadline <= now


class Sched:
    """policy(ready tasks, sched) -> the task to run."""

    def __init__(self, policy, max_steps=20000):
        self.policy = policy
        self.tasks = []
        self.by_thread = {}
        self.back = threading.Semaphore(0)
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.trail = []          # names, in the order they were run
        self.cur = None
        self.outcome = None
        self.running = False

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        t.thread.start()
        self.by_thread[t.thread] = t
        return t

    def me(self):
        return self.by_thread.get(threading.current_thread())

    def point(self, label='', cond=None, timeout=None):
        """Returns True unless the timeout expired with the condition still false."""
        t = self.me()
        if t is None:
            return True
        if t.kill:
            if label in ('acquire', 'released', 'reacquire'):
                return True      # let it unwind through its locks
            raise Stop()
        t.label, t.cond = label, cond
        t.deadline = None if timeout is None else self.now + timeout
        self.back.release()
        t.go.acquire()
        if t.kill:
            t.cond = t.deadline = None
            raise Stop()
        ok = cond is None or bool(cond())
        t.cond = t.deadline = None
        return ok

    def step(self):
        """Runs one task to its next point; returns False when none can run."""
        live = [t for t in self.tasks if not t.done]
        if not live:
            self.outcome = 'done'
            return False
        ready = [t for t in live if t.ready(self.now)]
        if not ready:
            times = [t.deadline for t in live if t.deadline is not None]
            if not times:
                self.outcome = 'idle'
                return False
            self.now = max(self.now, min(times))
            ready = [t for t in live if t.ready(self.now)]
        t = self.policy(ready, self)
        if t is None:
            self.outcome = 'stopped'
            return False
        self.steps += 1
        t.steps += 1
        self.trail.append(t.name)
        self.cur = t
        t.go.release()
        self.back.acquire()
        self.cur = None
        return True

    def run(self, until=None):
        while self.steps < self.max_steps:
            if until and until():
                self.outcome = 'until'
                return self.outcome
            if not self.step():
                return self.outcome
        self.outcome = 'steps'
        return self.outcome

    def shutdown(self):
        """Ends every controlled thread."""
        for t in self.tasks:
            for _ in range(200):
                if t.done:
                    break
                t.kill = True
                t.go.release()
                self.back.acquire()


# -- policies ---------------------------------------------------------------------------
def random_walk(rng):
    return lambda ready, s: rng.choice(ready)


def sticky(rng, p=.2):
    """Mostly keeps running the same task; switches with probability p."""
    last = [None]

    def pick(ready, s):
        if last[0] not in ready or rng.random() < p:
            last[0] = rng.choice(ready)
        return last[0]
    return pick


def pct(rng, depth=3, length=60):
    """Probabilistic concurrency testing: random priorities, `depth` change points."""
    prios = {}
    changes = {rng.randrange(length) for _ in range(depth)}
    low = [0]

    def pick(ready, s):
        for t in ready:
            prios.setdefault(t, 1 + rng.random())
        t = max(ready, key=lambda t: prios[t])
        if s.steps in changes:
            low[0] -= 1
            prios[t] = low[0]
            t = max(ready, key=lambda t: prios[t])
        return t
    return pick


def script(names, then=None):
    """Runs tasks in the order given by names (skipping ones that cannot run)."""
    it = iter(names)

    def pick(ready, s):
        for n in it:
            for t in ready:
                if t.name == n:
                    return t
        return then(ready, s) if then else ready[0]
    return pick


def any_policy(rng):
    r = rng.random()
    if r < .35:
        return random_walk(rng)
    if r < .65:
        return sticky(rng, rng.choice([.05, .1, .3]))
    return pct(rng, rng.randint(1, 5), rng.choice([20, 60, 200]))
