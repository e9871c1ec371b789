"""Stand-ins for threading, queue and time, run by a controlled scheduler (lib/sched.py).

`load(name)` executes a module of the code under test with these in place of the real
modules, so that every lock, condition, event, queue, thread, clock and sleep it uses is a
scheduling point, whatever its code looks like."""
import importlib
import importlib.util
import queue as real_queue
import sys
import threading as real_threading
import time as real_time
import types

S = None            # the current Sched
WRAP = None         # applied to the function of every thread the code under test starts
BASE_TIME = 1_700_000_000.0


def use(sched):
    global S
    S = sched
    return sched


def point(label, cond=None, timeout=None):
    if S is None or S.me() is None:
        if cond is not None and not cond() and S is not None:
            raise RuntimeError(f'would block outside the scheduler: {label}')
        return True
    return S.point(label, cond, timeout)


def ident():
    return real_threading.get_ident()


class Lock:
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def _free(self):
        return self.owner is None or (self.reentrant and self.owner == ident())

    def acquire(self, blocking=True, timeout=-1):
        me = ident()

        def free():
            return self.owner is None or (self.reentrant and self.owner == me)
        if blocking:
            if not point('acquire', free, None if timeout is None or timeout < 0 else timeout):
                return False
        elif not free():
            return False
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != ident()):
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            point('released')

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def _save(self):
        state, self.owner, self.count = (self.owner, self.count), None, 0
        return state

    def _restore(self, state):
        point('reacquire', lambda: self.owner is None)
        self.owner, self.count = state


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        if self.lock.owner != ident():
            raise RuntimeError('cannot wait on un-acquired lock')
        w = [False]
        self.waiters.append(w)
        state = self.lock._save()
        try:
            ok = point('wait', lambda: w[0], timeout)
        finally:
            if w in self.waiters:
                self.waiters.remove(w)
            self.lock._restore(state)
        return ok

    def wait_for(self, pred, timeout=None):
        end = None if timeout is None else Time.time() + timeout
        while not (res := pred()):
            left = None if end is None else end - Time.time()
            if left is not None and left <= 0:
                break
            self.wait(left)
        return res

    def notify(self, n=1):
        if self.lock.owner != ident():
            raise RuntimeError('cannot notify on un-acquired lock')
        for w in self.waiters[:n]:
            w[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


class Event:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True
        point('event set')

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        return point('event wait', lambda: self.flag, timeout)


class Semaphore:
    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking and not self.value:
            return False
        if not point('semaphore', lambda: self.value > 0, timeout):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n
        point('semaphore released')

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.name, self.args, self.kwargs = target, name or 'thread', args, kwargs or {}
        self.daemon = daemon
        self.task = None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        fn = lambda: self.run()
        self.task = S.spawn(self.name, WRAP(fn) if WRAP else fn)
        point('thread started')

    def is_alive(self):
        return self.task is not None and not self.task.done

    def join(self, timeout=None):
        point('join', lambda: self.task.done, timeout)


class SimpleQueue:
    maxsize = 0

    def __init__(self, maxsize=0):
        self.items = []
        self.maxsize = maxsize

    def full(self):
        return 0 < self.maxsize <= len(self.items)

    def put(self, item, block=True, timeout=None):
        if not block and self.full():
            raise real_queue.Full
        if not point('put', lambda: not self.full(), timeout):
            raise real_queue.Full
        self.items.append(item)

    def put_nowait(self, item):
        self.put(item, block=False)

    def get(self, block=True, timeout=None):
        if not block and not self.items:
            raise real_queue.Empty
        if not point('get', lambda: bool(self.items), timeout):
            raise real_queue.Empty
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(block=False)

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def task_done(self):
        pass


class Time:
    @staticmethod
    def time():
        return BASE_TIME + (S.now if S else 0)

    @staticmethod
    def sleep(secs):
        point('sleep', lambda: False, max(secs, 0))

    monotonic = perf_counter = time


def module(name, real, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith('__')})
    m.__dict__.update(attrs)
    return m


threading = module('threading', real_threading, Lock=Lock, RLock=RLock, Condition=Condition,
                   Event=Event, Semaphore=Semaphore, BoundedSemaphore=Semaphore, Thread=Thread)
queue = module('queue', real_queue, SimpleQueue=SimpleQueue, Queue=SimpleQueue)
time = module('time', real_time, time=Time.time, sleep=Time.sleep, monotonic=Time.time,
              perf_counter=Time.time)


def load(name, private=None):
    """Executes module `name` against the stand-ins; under another name if private."""
    importlib.import_module(name)
    shims = {'threading': threading, 'queue': queue, 'time': time}
    saved = {k: sys.modules[k] for k in shims}
    old = sys.modules[name]
    spec = importlib.util.spec_from_file_location(private or name, old.__file__)
    mod = importlib.util.module_from_spec(spec)
    mod.__package__ = name.rpartition('.')[0]
    sys.modules.update(shims)
    sys.modules[private or name] = mod
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.modules.update(saved)
    if not private:
        pkg, _, leaf = name.rpartition('.')
        setattr(sys.modules[pkg], leaf, mod)
    return mod


def trace_points(files, opcodes=False, every=None):
    """sys.settrace function: a scheduling point at each line (or opcode) of these files."""
    def local(frame, event, arg):
        if event == ('opcode' if opcodes else 'line') and (every is None or every()):
            point(f'{frame.f_code.co_name}:{frame.f_lineno}')
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename in files:
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None
    return tracer
