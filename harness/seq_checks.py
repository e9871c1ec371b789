"""Q01: sequence allocators, run under a controlled scheduler and validated against SeqTrace."""
import random
import threading

from lib import core, fakeds, sched, simthread
from lib.world import Crash

BATCH, BUFFER = 10, 5


class Memcache:
    """A memcached that every process shares; each call is a scheduling point."""
    def __init__(self, run):
        self.run, self.data = run, {}

    def _op(self, name):
        self.run.step(f'memcache {name}')

    def incr(self, key, value, noreply=False):
        self._op('incr')
        if key not in self.data:
            self.run.missed()
            return None
        self.data[key] += int(value)
        self.run.took(self.data[key])
        return self.data[key]

    def get(self, key, default=None):
        self._op('get')
        if key not in self.data:
            self.run.missed()
            return default
        return str(self.data[key]).encode()

    def gets(self, key, default=None, cas_default=None):
        val = self.get(key)
        return (default, cas_default) if val is None else (val, val)

    def cas(self, key, value, cas, *_, **__):
        self._op('cas')
        if key not in self.data:
            return None
        if str(self.data[key]).encode() != cas:
            return False
        self.data[key] = int(value)
        return True

    def add(self, key, value, *_, **__):
        self._op('add')
        if key in self.data:
            return False
        self.data[key] = int(value)
        return True

    def set(self, key, value, *_, **__):
        self._op('set')
        self.data[key] = int(value)
        return True

    def replace(self, key, value, *_, **__):
        self._op('replace')
        if key not in self.data:
            return False
        self.data[key] = int(value)
        return True

    def delete(self, key, *_, **__):
        self._op('delete')
        return self.data.pop(key, None) is not None

    def flush_all(self, *_, **__):
        self._op('flush')
        self.data.clear()


class Run:
    """One execution: workers in one or more processes making allocate() and last() calls."""
    def __init__(self, policy, max_steps=8000):
        self.s = simthread.use(sched.Sched(policy, max_steps))
        self.calls, self.evictions = [], []
        self.local = threading.local()
        self.lost = set()
        self.dead = set()         # processes
        self.faults = {}          # (worker, n-th outside call of its current call) -> kind
        self.gate = True

    # what the code under test does, seen from outside
    def step(self, label):
        t = self.s.me()
        if t is None:
            return
        self.s.point(label)
        call = getattr(self.local, 'call', None)
        if call is None:
            return
        if call['p'] in self.dead:
            raise Crash()
        self.local.n += 1
        kind = self.faults.get((call['w'], call['i'], self.local.n))
        if kind == 'crash':
            self.dead.add(call['p'])
            raise Crash()
        return kind

    def missed(self):
        if getattr(self.local, 'call', None):
            self.local.call['missed'] = True

    def took(self, n):
        if getattr(self.local, 'call', None):
            self.local.call['took'].append(n)

    def hook(self, rpc, request):
        kind = self.step(rpc)
        if kind:
            from google.api_core import exceptions as ce
            self.local.call['excuse'] = True
            raise {'denied': ce.PermissionDenied, 'aborted': ce.Aborted}[kind]('injected')

    # workers
    def live(self):
        return [c for c in self.calls if not c['r']]

    def room(self):
        """Fewer numbers are outstanding than the allocator is designed for."""
        top = max([c['v'] for c in self.calls if c['r'] == 'ok' and c['op'] == 'allocate'], default=0)
        return not self.gate or \
            len(self.live()) + len([x for x in self.lost if x > top]) < BUFFER - 1

    def worker(self, name, proc, seqs, jobs, context=None):
        def main():
            for i, (op, nsid) in enumerate(jobs):
                if proc in self.dead:
                    return
                # each call in a database context of its own, or (context) one for all
                if not self.s.point('begin', self.room):
                    return
                self.one(name, proc, i, seqs, op, nsid)
        if context:
            def wrapped(main=main):
                with context():
                    main()
            self.s.spawn(name, wrapped)
        else:
            self.s.spawn(name, main)

    def one(self, name, proc, i, seqs, op, nsid):
        call = dict(w=name, p=proc, i=i, op=op, nsid=nsid, begin=self.s.steps, end=0, r='', v=0,
                    exc='', excuse=False, missed=False, took=[])
        self.calls.append(call)
        self.local.call, self.local.n = call, 0
        try:
            val = getattr(seqs, op)(nsid)
            call['v'] = val if isinstance(val, int) else 0 if val is None else -1
            call['r'] = 'ok'
        except Crash:
            call['r'] = 'crash'
        except Exception as e:
            call['r'], call['exc'] = 'raised', type(e).__name__ + ': ' + str(e)[:80]
            # memcache lost the counter while this allocation was using it
            if any(x >= call['begin'] for x in self.evictions):
                call['excuse'] = True
        finally:
            call['end'] = self.s.steps
            self.local.call = None
            if call['r'] == '':
                call['r'] = 'hang'
            if call['r'] != 'ok':
                self.lost.update(call['took'])

    def evictor(self, mem, waits, key=None):
        def main():
            for n in waits:
                for _ in range(n):
                    self.s.point('evictor')
                # not while an allocation that found no counter is installing one
                self.s.point('evict', lambda: not self.gate or not any(c['missed'] for c in self.live()))
                mem.data.clear()
                self.evictions.append(self.s.steps)
        self.s.spawn('evictor', main)

    def event(self, floor):
        out = self.s.run()
        live = [t.name for t in self.s.tasks if not t.done]
        # an evictor or a worker waiting for room that never comes is no hang
        for c in self.calls:
            if not c['r']:
                c['r'] = 'hang'
        if out == 'idle' and not any(c['r'] == 'hang' for c in self.calls):
            out = 'done'
        self.s.shutdown()
        keys = ('w', 'op', 'nsid', 'begin', 'end', 'r', 'v', 'exc', 'excuse')
        return dict(op='seq', outcome=out, evictions=self.evictions, floor=floor,
                    calls=[{k: c[k] for k in keys} for c in self.calls], steps=self.s.steps, live=live)


NSIDS = ['com.atproto.sync.subscribeRepos', 'a.b.c', 'x.y.z']


def setup_db(rng):
    client, fake = fakeds.install()
    return client, fake


def store_floor(client, mod, rng, nsids, p=.4):
    floor = []
    with client.context(cache_policy=lambda key: False):
        for n in nsids:
            if rng.random() < p:
                nxt = rng.randint(1, 50)
                mod.AtpSequence(id=n, next=nxt).put()
                floor.append([n, nxt - 1])
    return floor


def load_process(name):
    mod = simthread.load('arroba.datastore_storage', private=f'arroba_process_{name}')
    mod.MEMCACHE_SEQUENCE_BATCH, mod.MEMCACHE_SEQUENCE_BUFFER = BATCH, BUFFER
    return mod


def jobs_for(rng, nsids, n, plast=.15):
    return [('last' if rng.random() < plast else 'allocate', rng.choice(nsids)) for _ in range(n)]


def mem_trace(seed):
    """MemcacheSequences: several processes and threads, evictions, crashes, failures."""
    rng = random.Random(seed)
    client, fake = setup_db(rng)
    run = Run(sched.any_policy(rng))
    mem = Memcache(run)
    kw = dict(cache_policy=lambda key: False)
    nsids = NSIDS[:rng.choice([1, 1, 1, 2])]
    nproc = rng.choice([1, 1, 2, 2, 3])
    mods = [load_process(f'{p}') for p in range(nproc)]
    floor = store_floor(client, mods[0], rng, nsids)
    fake.hook = run.hook
    total = 0
    for p, mod in enumerate(mods):
        seqs = mod.MemcacheSequences(memcache=mem, ndb_client=client, ndb_context_kwargs=kw)
        for t in range(rng.choice([1, 2, 3])):
            n = rng.choice([3, 6, 12])
            total += n
            name = f'p{p}t{t}'
            run.worker(name, p, seqs, jobs_for(rng, nsids, n))
            if rng.random() < .3:
                for _ in range(rng.choice([1, 1, 2])):
                    run.faults[(name, rng.randrange(n), rng.randint(1, 6))] = rng.choice(
                        ['denied', 'aborted', 'crash'])
    if rng.random() < .7:
        run.evictor(mem, [rng.randint(0, 40) for _ in range(rng.choice([1, 2, 4]))])
    ev = run.event(floor)
    fake.hook = None
    return [ev]


def ds_trace(seed):
    """DatastoreSequences: workers in contexts of their own, conflicts and failures."""
    rng = random.Random(seed)
    client, fake = setup_db(rng)
    mod = load_process('ds')
    run = Run(sched.any_policy(rng))
    run.gate = False
    nsids = NSIDS[:rng.choice([1, 1, 2])]
    floor = store_floor(client, mod, rng, nsids)
    fake.hook = run.hook
    own = rng.random() < .5
    caches = rng.random() < .5       # ndb's own per-context cache
    kw = {} if caches else dict(cache_policy=lambda key: False)
    seqs = mod.DatastoreSequences(ndb_client=client, ndb_context_kwargs=kw)
    for t in range(rng.choice([1, 2, 3])):
        n = rng.choice([2, 4, 8])
        run.worker(f't{t}', 0, seqs, jobs_for(rng, nsids, n, .3),
                   context=None if own else lambda: client.context(**kw))
        if rng.random() < .3:
            run.faults[(f't{t}', rng.randrange(n), rng.randint(1, 5))] = rng.choice(
                ['denied', 'aborted', 'crash'])
    ev = run.event(floor)
    fake.hook = None
    # three conflicts in a row are as many as ndb retries
    for c in ev['calls']:
        if c['r'] == 'raised' and c['exc'].startswith(('Aborted', 'RetryError')):
            c['excuse'] = True
    return [ev]


def memory_trace(seed):
    """MemorySequences: preemption between any two instructions."""
    import sys
    rng = random.Random(seed)
    mod = simthread.load('arroba.storage', private='arroba_storage_private')
    run = Run(sched.any_policy(rng))
    run.gate = False
    seqs = mod.MemorySequences()
    nsids = NSIDS[:rng.choice([1, 1, 2])]
    floor = []
    for t in range(rng.choice([2, 3])):
        jobs = jobs_for(rng, nsids, rng.choice([2, 4]), .2)
        run.worker(f't{t}', 0, seqs, jobs)
    tracer = simthread.trace_points({mod.__file__}, opcodes=True)
    for t in run.s.tasks:
        fn = t.fn

        def traced(fn=fn):
            sys.settrace(tracer)
            try:
                fn()
            finally:
                sys.settrace(None)
        t.fn = traced
    return [run.event(floor)]


SEQ_CFG = """SPECIFICATION Spec
INVARIANT Inv
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
Procs = {{1, 2}}
Threads = {{1, 2}}
Batch = 4
Buffer = 3
MaxSeq = {maxseq}
Evictions = {ev}
Aborts = {ab}
Restarts = {rs}
Strict = {strict}
ReserveFirst = {first}
"""


def seq_design(ctx):
    runs = ctx.pick([(6, 1, 1, 0), (6, 1, 0, 1)], [(7, 2, 1, 0), (7, 2, 0, 1), (9, 1, 1, 1)])
    for m, e, a, r in runs:
        ctx.model('SeqMem', SEQ_CFG.format(maxseq=m, ev=e, ab=a, rs=r, strict='TRUE', first='TRUE'))
    # the model is not vacuous: without the reservation it breaks
    res = core.tlc('SeqMem', SEQ_CFG.format(maxseq=6, ev=1, ab=0, rs=0, strict='TRUE', first='FALSE'),
                   check=False)
    if not res.violation:
        raise core.MachineryError('SeqMem: the unreserved variant should fail')


# -- known findings, each the replay of one schedule -------------------------------------
def finding_outstanding():
    """More than BUFFER - 1 numbers outstanding (their allocations took them from memcache but have
    not returned), then an eviction: the numbers are handed out again."""
    client, fake = setup_db(None)
    names = [f't{i}' for i in range(BATCH + 2)]
    # everyone takes a number and stops; the counter is lost; one more allocates
    run = Run(sched.script(['t0'] * 60 + [n for n in names[1:] for _ in range(3)]
                           + ['evictor'] * 4 + ['late'] * 60))
    run.gate = False
    mem = Memcache(run)
    mod = load_process('f1')
    seqs = mod.MemcacheSequences(memcache=mem, ndb_client=client,
                                 ndb_context_kwargs=dict(cache_policy=lambda key: False))
    for n in names:
        run.worker(n, 0, seqs, [('allocate', NSIDS[0])])
    run.evictor(mem, [0])
    mod2 = load_process('f1b')
    run.worker('late', 1, mod2.MemcacheSequences(
        memcache=mem, ndb_client=client, ndb_context_kwargs=dict(cache_policy=lambda key: False)),
        [('allocate', NSIDS[0])])
    fake.hook = run.hook
    ev = run.event([])
    fake.hook = None
    return [ev]


def finding_stale_install():
    """A process stalls between reserving its batch and installing the counter, meanwhile another
    one allocates from a later batch and the counter is lost again; then a third allocates."""
    client, fake = setup_db(None)
    state = {}

    def policy(ready, s):
        by = {t.name: t for t in ready}
        phase = state.setdefault('phase', 'a')
        if phase == 'a':
            if 'a' in by and by['a'].label != 'memcache add':
                return by['a']
            state['phase'] = phase = 'b'
        if phase == 'b':
            if 'b' in by:
                return by['b']
            state['phase'] = phase = 'e'
        if phase == 'e':
            if 'evictor' in by:
                return by['evictor']
            state['phase'] = phase = 'rest'
        if 'a' in by:
            return by['a']
        return ready[0]
    run = Run(policy)
    run.gate = False
    mem = Memcache(run)
    for n in ('a', 'b', 'c'):
        mod = load_process(n)
        run.worker(n, n, mod.MemcacheSequences(
            memcache=mem, ndb_client=client, ndb_context_kwargs=dict(cache_policy=lambda key: False)),
            [('allocate', NSIDS[0])])
    run.evictor(mem, [0])
    fake.hook = run.hook
    ev = run.event([])
    fake.hook = None
    return [ev]


def check_Q01(ctx):
    seq_design(ctx)
    n = ctx.pick(500, 12000)
    traces = core.parallel(lambda i: mem_trace(f'{ctx.seed}-mem-{i}'), range(n))
    traces += core.parallel(lambda i: ds_trace(f'{ctx.seed}-ds-{i}'), range(n // 3))
    traces += core.parallel(lambda i: memory_trace(f'{ctx.seed}-memory-{i}'), range(n // 3))
    from collections import Counter
    k = Counter()
    for t in traces:
        for c in t[0]['calls']:
            k[f"{c['op']}/{c['r']}"] += 1
        k['evictions'] += len(t[0]['evictions'])
        k['scheduling steps'] += t[0]['steps']
    ctx.extra['executions'] = dict(sorted(k.items()), total=len(traces))
    ctx.validate('SeqTrace', traces, clauses={'Q01'}, shards=8)
    ctx.sample(traces[0][0])
    ctx.findings('SeqTrace', {
        'outstanding': finding_outstanding,
        'stale-install': finding_stale_install,
    })
