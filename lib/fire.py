"""Runs the real firehose (arroba/firehose.py) on the controlled scheduler, over a log whose
events become durable when the harness says so, and records what every subscriber sees."""
import gc
import json
import random
import sys

import dag_cbor

from . import core, sched, simthread
from .world import World

NSID = 'com.atproto.sync.subscribeRepos'
KEYS = ['a.b/1', 'a.b/2', 'a.c/1', 'b.x/3', 'c/9']
RECORDS = [{'$type': 'a.b', 'n': n} for n in range(6)]
DIDS = ['did:plc:one', 'did:plc:two', 'did:web:three.com']


class ReadFailed(Exception):
    """Injected: the log could not be read."""


def norm(x):
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in sorted(x.items())}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return x.hex()
    return x.encode('base32') if hasattr(x, 'encode') else str(x)


class Log:
    """A finished history, of which the harness reveals one sequence number at a time."""

    def __init__(self, seed, nops):
        rng = random.Random(f'log-{seed}')
        self.w = w = World('memory', keys=KEYS, records=RECORDS, dids=DIDS)
        state = {}
        ops = {}                     # seq -> [[action, path, cid or None, prev cid or None]]
        dids = DIDS[:rng.choice([1, 2, 3])]
        for d in dids:
            w.create(d, d)
            state[d] = {}
        while len(w.storage.blocks) and self.last() < nops:
            d = rng.choice(dids)
            x = rng.random()
            if x < .08:              # a commit without operations
                if w.commit(d, d, []) != 'ok':
                    raise core.MachineryError('history: empty commit failed')
                ops[self.last()] = []
            elif x < .75:
                st = dict(state[d])
                ws, row = [], []
                for k in rng.sample(range(1, len(KEYS) + 1), rng.choice([1, 1, 2, 3])):
                    v = rng.randint(1, len(RECORDS))
                    cid = lambda n: w.util.dag_cbor_cid(RECORDS[n - 1])
                    if k not in st:
                        a = 'create'
                    elif st[k] != v and rng.random() < .5:
                        a = 'update'
                    else:
                        a, v = 'delete', 0
                    ws.append([a, k, v])
                    row.append([a, KEYS[k - 1], cid(v) if v else None, cid(st[k]) if k in st else None])
                    if v:
                        st[k] = v
                    else:
                        del st[k]
                if w.commit(d, d, ws) != 'ok':
                    raise core.MachineryError('history: commit failed')
                state[d] = st
                ops[self.last()] = row
            elif x < .9:
                w.event(d, d, rng.choice(['identity', 'sync']))
            else:
                w.status(d, d, 'deactivate')
                w.status(d, d, 'activate')
        self.real = w.storage
        self.n = self.last()
        # what is stored under each number, from the raw blocks
        self.stored = {}
        commits = {}
        for b in self.real.blocks.values():
            obj = dag_cbor.decode(b.encoded)
            if not isinstance(obj, dict) or not b.seq:
                continue
            if set(obj) == {'version', 'did', 'rev', 'prev', 'data', 'sig'}:
                commits[b.cid] = obj
                self.stored[b.seq] = ('commit', b.cid, obj)
            elif str(obj.get('$type', '')).startswith(NSID + '#'):
                self.stored[b.seq] = ('event', None, obj)
        self.truth = {}
        for s, (kind, cid, obj) in self.stored.items():
            if kind == 'commit':
                prev = commits.get(obj['prev'])
                self.truth[s] = self.content(
                    '#commit', dict(repo=obj['did'], commit=cid, prevData=prev and prev['data']),
                    [[a, p, c, q] for a, p, c, q in ops.get(s, [])])
            else:
                payload = {k: v for k, v in obj.items() if k != '$type'}
                self.truth[s] = self.content(obj['$type'][len(NSID):], payload, None)

    def last(self):
        return self.w.storage.sequences.last(NSID) or 0

    @staticmethod
    def content(t, payload, ops):
        """Canonical text of an event: type, repo, operations, commit, previous data."""
        if t == '#commit':
            return json.dumps(norm([t, payload.get('repo'), payload.get('commit'),
                                    payload.get('prevData'), ops]))
        return json.dumps(norm([t, payload]))

    @classmethod
    def item(cls, header, payload):
        ops = None
        if header.get('t') == '#commit':
            ops = [[o['action'], o['path'], o['cid'], o.get('prev')] for o in payload['ops']]
        return cls.content(header.get('t'), payload, ops)


class Store:
    """server.storage as the firehose sees it."""

    def __init__(self, run, log):
        self.run, self.log = run, log
        self.sequences = self

    def __getattr__(self, name):
        return getattr(self.log.real, name)

    def allocate(self, nsid):
        raise core.MachineryError('the firehose allocates no numbers')

    def last(self, nsid):
        self.run.point('last')
        return self.run.allocated or None

    def read(self, cid):
        self.run.point('read')
        self.run.maybe_fail('read')
        return self.log.real.read(cid)

    def read_many(self, cids, **kw):
        cids = list(cids)
        self.run.point('read_many')
        self.run.maybe_fail('read')
        return self.log.real.read_many(cids, **kw)

    def read_events_by_seq(self, start=0, repo=None):
        run = self.run
        who = run.s.me()
        name = who.name if who else 'main'

        def gen():
            run.point('scan')
            scan = dict(who=name, start=start, begin=run.s.steps, time=run.now(), got=[], failed=False,
                        pre=not run.mod.started.is_set())
            run.scans.append(scan)

            def fail():
                try:
                    run.maybe_fail('scan')
                except ReadFailed:
                    scan['failed'] = True
                    raise
            fail()
            pos, page = start, run.page
            while True:
                seqs = sorted(s for s in run.visible if s >= pos and s > 0)[:page]
                # what one page finds is read together
                evs = [e for e in self.log.real.read_events_by_seq(start=pos, repo=repo)]
                evs = {(e['seq'] if isinstance(e, dict) else e.commit.seq): e for e in evs}
                for s in seqs:
                    scan['got'].append(s)
                    yield evs[s]
                    if name != 'main':
                        run.point('scan next')
                    fail()
                if page is None or len(seqs) < page:
                    return
                pos = seqs[-1] + 1
        return gen()

    def read_blocks_by_seq(self, start=0, repo=None):
        return [b for b in self.log.real.read_blocks_by_seq(start=start, repo=repo)
                if b.seq in self.run.visible]


class Fire:
    """One execution."""

    def __init__(self, log, policy, *, delay=10.0, window=300, batch_delay=0.0, rollback=50000,
                 preload=4000, page=None, max_steps=30000, lines=None, pre=0, allocated=None):
        import arroba
        from arroba import server
        self.s = simthread.use(sched.Sched(policy, max_steps))
        self.mine = set()
        simthread.WRAP = self.traced
        self.log = log
        self.mod = mod = simthread.load('arroba.firehose')
        import arroba.xrpc_sync
        arroba.xrpc_sync.firehose = mod
        self.xrpc_sync = arroba.xrpc_sync
        from datetime import timedelta
        mod.ROLLBACK_WINDOW, mod.PRELOAD_WINDOW = rollback, preload
        mod.SUBSCRIBE_REPOS_BATCH_DELAY = timedelta(seconds=batch_delay)
        mod.SUBSCRIBE_REPOS_SKIPPED_SEQ_WINDOW = window
        mod.SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY = timedelta(seconds=delay)
        self.params = dict(delay=ms(delay), window=window, batch=ms(batch_delay), rollback=rollback,
                           preload=preload)
        self.page = page
        self.visible = set(log.stored) & set(range(pre + 1))
        self.allocated = pre if allocated is None else allocated
        self.scans, self.subs = [], []
        self.durable = {s: [0, 0] for s in self.visible}     # seq -> [step, time]
        self.alloc = {s: [0, 0] for s in range(1, self.allocated + 1)}
        self.lost = {}
        self.faults = 0          # still to be injected
        self.fault_rng = None
        self.injected = []       # [step, task]
        # preemption at a fraction of the lines of firehose.py
        self.lines = simthread.trace_points({mod.__file__}, every=lines) if lines else None
        self.started_ok = False
        self.fault_p = 0
        self.fault_ok = lambda t: True
        server.storage = self.store = Store(self, log)
        self.intern = {}

    def now(self):
        return ms(self.s.now)

    def point(self, label, cond=None, timeout=None):
        if self.s.me() is not None:
            return self.s.point(label, cond, timeout)

    def maybe_fail(self, what):
        t = self.s.me()
        if self.faults and t is not None and self.fault_rng.random() < self.fault_p and \
                self.fault_ok(t):
            self.faults -= 1
            self.injected.append([self.s.steps, t.name])
            raise ReadFailed(what)

    def traced(self, fn):
        if not self.lines:
            return fn

        def run():
            sys.settrace(self.lines)
            try:
                fn()
            finally:
                sys.settrace(None)
        return run

    def spawn(self, name, fn, trace=True):
        self.mine.add(name)
        return self.s.spawn(name, self.traced(fn) if trace else fn)

    def theirs(self, t):
        """A thread the firehose started."""
        return t.name not in self.mine

    def cid(self, text):
        return self.intern.setdefault(text, len(self.intern) + 1)

    # -- the environment -----------------------------------------------------------------
    def do_allocate(self):
        self.allocated += 1
        self.alloc[self.allocated] = [self.s.steps, self.now()]
        return self.allocated

    def do_durable(self, s):
        if s in self.log.stored:
            self.visible.add(s)
            self.durable[s] = [self.s.steps, self.now()]

    def do_lost(self, s):
        self.mod.mark_seq_lost(s)
        self.lost[s] = [self.s.steps, self.now()]

    def start(self, name='starter'):
        return self.spawn(name, lambda: self.mod.start())

    def subscriber(self, name, cursor, take=None, after='leave', before=0, slow=0, xrpc=False, rng=None):
        sub = dict(name=name, cursor=-1 if cursor is None else cursor, begin=-1, items=[], end='open',
                   exc='', settled=-1, frames=[])
        self.subs.append(sub)

        def main():
            for _ in range(before):
                self.s.point('sub wait')
            sub['begin'] = self.s.steps
            gen = (self.xrpc_sync.subscribe_repos if xrpc else self.mod.subscribe)(cursor)
            try:
                for header, payload in gen:
                    if xrpc and (header.get('op') != 1 or header.get('t') == '#info'):
                        sub['frames'].append([header.get('op'), str(header.get('t', '')),
                                              str(payload.get('error') or payload.get('name') or '')])
                        continue
                    sub['items'].append([payload['seq'], self.cid(self.log.item(header, payload)),
                                         self.s.steps, self.now()])
                    if take is not None and len(sub['items']) >= take:
                        if after == 'stall':
                            sub['end'] = 'stalled'
                            self.s.point('stalled', lambda: False)
                        sub['end'] = 'left'
                        gen.close()
                        return
                    if slow:
                        self.s.point('slow', lambda: False, slow * rng.random())
                sub['end'] = 'ended'
            except Exception as e:
                sub['end'] = 'raised'
                sub['exc'] = f'{type(e).__name__}: {e}'[:120]
                if isinstance(e, ReadFailed):
                    sub['end'] = 'read failed'
        sub['task'] = self.spawn(name, main)
        return sub

    def settle(self, env):
        """Waits until nothing but the named tasks, and timers, can run."""
        def quiet():
            return all(t.done or t.name in env or not t.ready(self.s.now) for t in self.s.tasks)
        self.s.point('settle', quiet)

    def mark_settled(self):
        for sub in self.subs:
            if sub['begin'] >= 0 and sub['settled'] < 0:
                sub['settled'] = self.s.steps

    def finish(self):
        out = self.s.outcome
        exc = [f'{t.name}: {type(t.exc).__name__}: {t.exc}'[:150] for t in self.s.tasks
               if t.exc is not None]
        collectors = [t.name for t in self.s.tasks if self.theirs(t)]
        self.s.shutdown()
        simthread.use(None)
        gc.collect()
        truth = [[s, self.cid(self.log.truth[s])] for s in sorted(self.durable)]
        table = {i: text for text, i in self.intern.items()}
        return dict(
            op='exec', outcome=out, steps=self.s.steps, crashed=exc, collectors=len(collectors),
            params=self.params, truth=truth, faults=len(self.injected),
            injected=self.injected,
            durable=[[s, *x] for s, x in sorted(self.durable.items())],
            alloc=[[s, *x] for s, x in sorted(self.alloc.items())],
            lost=[[s, *x] for s, x in sorted(self.lost.items())],
            scans=[s for s in self.scans if s['who'] not in self.mine and s['who'] != 'main'],
            subs=[{k: v for k, v in sub.items() if k != 'task'} for sub in self.subs],
            contents=[table[i + 1] for i in range(len(table))])


def ms(secs):
    return int(round(secs * 1000))
