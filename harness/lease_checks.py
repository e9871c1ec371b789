"""L01: memcache leases, run on a virtual clock under a controlled scheduler and validated
against spec/LeaseTrace.tla; schedules also come from the design model (spec/Lease.tla)."""
import json
import logging
import os
import random
import threading
from datetime import datetime, timedelta, timezone

from lib import core, sched, simthread

BASE = datetime(2024, 3, 5, 6, 7, 8, tzinfo=timezone.utc)


logging.getLogger('arroba_memcache_private').setLevel(logging.ERROR)


class Boom(Exception):
    pass


class Memcache:
    """A memcached with an ideal clock.  Requests take time, before and after the server
    acts on them, except that nothing delays a delete before it (see the known finding)."""
    def __init__(self, run):
        self.run, self.data, self.ids = run, {}, 0

    def _life(self, expire):
        """Milliseconds; 0 for ever, negative for already expired."""
        if not isinstance(expire, int):
            raise TypeError(f'expire must be integer, got {expire!r}')
        if expire > 30 * 86400:
            return int((expire - BASE.timestamp()) * 1000) - self.run.now() or -1
        return expire * 1000

    def _live(self, key):
        v = self.data.get(key)
        if v and (v[1] is None or v[1] > self.run.now()):
            return v

    def _put(self, key, value, expire):
        life = self._life(expire)
        self.ids += 1
        if life < 0:
            self.data.pop(key, None)
        else:
            self.data[key] = (value if isinstance(value, bytes) else str(value).encode(),
                              self.run.now() + life if life else None, self.ids)
        return life

    def add(self, key, value, expire=0, noreply=None, flags=None):
        self.run.before('add')
        ok = not self._live(key)
        life = self._life(expire)
        if ok:
            self._put(key, value, expire)
        self.run.ev('add', key=key, ok=ok, life=life)
        self.run.after('add', ok)
        return True if noreply or noreply is None else ok

    def set(self, key, value, expire=0, noreply=None, flags=None):
        self.run.before('set')
        life = self._put(key, value, expire)
        self.run.ev('set', key=key, life=life)
        self.run.after('set')
        return True

    def replace(self, key, value, expire=0, noreply=None, flags=None):
        self.run.before('replace')
        ok = bool(self._live(key))
        if ok:
            life = self._put(key, value, expire)
            self.run.ev('set', key=key, life=life)
        self.run.after('replace')
        return ok

    def cas(self, key, value, cas, expire=0, noreply=None, flags=None):
        self.run.before('cas')
        v = self._live(key)
        ok = None if not v else str(v[2]).encode() == cas
        if ok:
            life = self._put(key, value, expire)
            self.run.ev('set', key=key, life=life)
        self.run.after('cas')
        return ok

    def touch(self, key, expire=0, noreply=None):
        self.run.before('touch')
        v = self._live(key)
        if v:
            life = self._put(key, v[0], expire)
            self.run.ev('set', key=key, life=life)
        self.run.after('touch')
        return bool(v)

    def get(self, key, default=None):
        self.run.before('get')
        v = self._live(key)
        self.run.after('get')
        return v[0] if v else default

    def gets(self, key, default=None, cas_default=None):
        self.run.before('get')
        v = self._live(key)
        self.run.after('get')
        return (v[0], str(v[2]).encode()) if v else (default, cas_default)

    def delete(self, key, noreply=None):
        self.run.before('delete')
        hit = bool(self._live(key))
        self.data.pop(key, None)
        self.run.ev('delete', key=key)
        self.run.after('delete')
        return hit


class Run:
    def __init__(self, policy, max_steps=4000):
        self.s = simthread.use(sched.Sched(policy, max_steps))
        self.local = threading.local()
        self.events = [dict(op='init')]
        self.latency = lambda: 0
        self.faults = {}            # (lease, n-th call) -> 'before' | 'after'
        self.stall = False          # a delete may be delayed (the known finding)
        self.plain = False          # replaying a model schedule: one point per model step
        self.releasing = set()
        self.mod = simthread.load('arroba.memcache', private='arroba_memcache_private')
        self.mem = Memcache(self)

    def now(self):
        return round(self.s.now * 1000)

    def clock(self, tz=timezone.utc, **kwargs):
        return BASE + timedelta(milliseconds=self.now())

    def ev(self, op, **kw):
        self.events.append(dict(op=op, w=self.local.lease, at=self.now(), **kw))

    def pause(self, label, ms=0):
        self.s.point(label, (lambda: False) if ms else None, ms / 1000 if ms else None)

    def before(self, what):
        self.local.n += 1
        self.kind = self.faults.get((self.local.lease, self.local.n))
        self.local.fault_after = self.kind == 'after'
        if self.kind == 'before':
            self.local.fault = True
            raise ConnectionError('injected')
        if what == 'delete' and not self.stall:
            return
        if what in ('add', 'delete') or not self.releasing:
            # an add takes some time, so the server's expiration starts after our clock read
            self.pause(what, 0 if self.plain or what != 'add' else 1 + self.latency())

    def after(self, what, ok=True):
        if self.local.fault_after:
            self.local.fault = True
            raise ConnectionError('injected')
        if self.plain and not (what == 'add' and ok):
            return
        self.pause(f'{what} done', 0 if self.plain else self.latency())

    def spawn(self, name, rounds):
        def main():
            for i, r in enumerate(rounds):
                self.pause('round', r.get('idle', 0))
                self.one(f'{name}.{i}', **r)
        self.s.spawn(name, main)

    def one(self, lease, key='kee', life=2000, retries=2, delay=1000, hold=(0,), boom=False, style='with',
            twice=None, defaults=False, idle=0):
        me = self.local
        me.lease, me.n, me.fault = lease, 0, False
        kw = dict(expiration=timedelta(milliseconds=life), retries=retries,
                  initial_retry_delay=timedelta(milliseconds=delay))
        if defaults:
            kw, life, retries, delay = {}, 300000, 6, 5000
        obj = self.mod.Lease(self.mem, key, **kw)
        self.ev('start', key=key, retries=retries, delay=delay, life=life)

        def until():
            x = obj.expires_at
            return round((x - BASE) / timedelta(milliseconds=1)) if x else -1

        def inside():
            self.ev('acquired', until=until(), key=key)
            for h in hold:
                self.pause('body', h)
            if twice == 'inside':
                leave()
                obj.release()
                left('', '')
                self.pause('body', hold[-1])
            leave()

        def leave():
            self.releasing.add(lease)
            self.ev('exit')

        def left(i, o):
            self.releasing.discard(lease)
            self.ev('released', key=key, fault=me.fault, **{'in': i, 'out': o})

        what, out, got = 'boom' if boom else '', '', False
        try:
            if style == 'with':
                with obj as x:
                    got = True
                    if x is not obj:
                        out = 'other object'
                    inside()
                    if boom:
                        raise Boom('boom')
            else:
                obj.acquire()
                got = True
                try:
                    inside()
                    if boom:
                        raise Boom('boom')
                finally:
                    obj.release()
        except Boom:
            out = 'boom'
        except Exception as e:
            out = type(e).__name__
        if not got:
            self.ev('failed', exc=out, until=until(), fault=me.fault)
            return
        left(what, out)
        self.pause('left', 0 if self.plain else self.latency())
        if twice == 'after':
            leave()
            try:
                obj.release()
                out = ''
            except Exception as e:
                out = type(e).__name__
            left('', out)

    def trace(self):
        import webutil.util
        real = webutil.util.now
        webutil.util.now = self.clock
        try:
            out = self.s.run()
        finally:
            webutil.util.now = real
            for t in self.s.tasks:
                if t.exc and not isinstance(t.exc, sched.Stop):
                    raise t.exc
            self.s.shutdown()
        if out not in ('done', 'stopped'):
            self.events.append(dict(op='hang', w='', at=self.now()))
        return self.events


LIVES = [1, 250, 999, 1000, 1001, 1500, 2000, 2900, 5000, 60000, 300000, 3600000, 86400000]


def lease_trace(seed):
    """Workers that acquire, hold for about the expiration, leave, crash, release twice."""
    rng = random.Random(seed)
    run = Run(sched.any_policy(rng))
    scale = rng.choice(LIVES)
    run.latency = lambda: rng.choice([0, 0, 1, 3, rng.randint(0, max(1, scale // 3)), rng.randint(0, 2 * scale)]
                                     if rng.random() < .2 else [0, 0, 1, 2, 5])
    for w in range(rng.choice([1, 2, 2, 3, 4])):
        rounds = []
        for i in range(rng.choice([1, 2, 3, 4])):
            life = scale if rng.random() < .8 else rng.choice(LIVES)
            hold = [rng.choice([0, 1, life // 2, life - 1, life, life + 1, life + rng.randint(0, 1000),
                                2 * life, rng.randint(0, 2 * life)]) for _ in range(rng.choice([1, 1, 2]))]
            rounds.append(dict(
                key='kee' if rng.random() < .85 else 'other', life=life, retries=rng.choice([0, 0, 1, 2, 3, 6]),
                delay=rng.choice([0, 1, 500, 1000, life // 2, life, life + 7]), hold=hold, boom=rng.random() < .2,
                style=rng.choice(['with', 'with', 'with', 'calls']),
                twice=rng.choice([None, None, None, 'inside', 'after']),
                defaults=rng.random() < .05, idle=rng.choice([0, 0, 1, life // 2, rng.randint(0, 2 * life)])))
            if rng.random() < .1:
                run.faults[(f'w{w}.{i}', rng.randint(1, 3))] = rng.choice(['before', 'after'])
        run.spawn(f'w{w}', rounds)
    return run.trace()


# -- schedules from the design model ----------------------------------------------------------
MODEL = """{spec}
CONSTANTS
 Workers = {{{workers}}}
 Expire = {life}
 Retries = {retries}
 MaxTime = {time}
 Rounds = {rounds}
 AtomicRelease = {atomic}
 ClockFirst = {first}
 ServerShort = {short}
 ReleaseTwice = {twice}
{extra}
CHECK_DEADLOCK FALSE
"""


def model_cfg(spec='SPECIFICATION Spec\nINVARIANT Inv\nVIEW View', workers='1, 2', life=2, retries=1, time=6, rounds=2,
              atomic='TRUE', first='TRUE', short=0, twice='FALSE', extra=''):
    return MODEL.format(**locals())


def design(ctx):
    for kw in ctx.pick([dict(), dict(workers='1, 2, 3', rounds=1)],
                       [dict(time=9, rounds=3, life=3), dict(workers='1, 2, 3', time=6),
                        dict(workers='1, 2, 3, 4', rounds=1, time=5)]):
        ctx.model('Lease', model_cfg(**kw))
    # each assumption and each repaired defect matters
    for kw in (dict(atomic='FALSE'), dict(first='FALSE'), dict(short=1), dict(twice='TRUE')):
        res = core.tlc('Lease', model_cfg(**kw), check=False)
        if not res.violation:
            raise core.MachineryError(f'Lease: {kw} should fail')


def model_traces(ctx, n):
    life, retries, depth = 2, 1, 40
    dump = os.path.join(ctx.tmp, 'lease')
    out = []
    for workers, rounds in (('1, 2', 4), ('1, 2, 3', 3)):
        cfg = model_cfg(spec='SPECIFICATION GenSpec\nINVARIANT Dump', workers=workers, life=life, retries=retries,
                        time=14, rounds=rounds, extra=f' Depth = {depth}')
        open(dump, 'w').close()
        res = core.tlc('LeaseGen', cfg, env=dict(DUMP=dump), workers=1,
                       args=['-simulate', f'num={n}', '-depth', depth + 3, '-seed', ctx.seed])
        ctx.states += res.generated
        ctx.transitions += res.generated
        seen = set(open(dump))
        out += [(json.loads(json.loads(x)), len(workers.split(',')), rounds) for x in sorted(seen)]

    def one(i):
        x, nw, rounds = out[i]
        return replay(x, nw, rounds, life, retries)
    res = core.parallel(one, range(len(out)))
    ctx.extra['model behaviours replayed'] = len(res)
    ctx.extra['replays that ended as the model predicts'] = sum(a for _, a in res)
    if sum(a for _, a in res) < len(res) // 2:
        ctx.extra['replays diverge'] = True
    return [t for t, _ in res]


def replay(x, nw, rounds, life, retries):
    """Runs the real code along one behaviour of the model, ticks included."""
    log = [tuple(a) for a in x['log']]
    names = [f'w{i}' for i in range(1, nw + 1)]
    state = dict(i=0)

    def policy(ready, s):
        by = {t.name: t for t in s.tasks if t.ready(s.now)}
        for n in names:
            if n in by and by[n].label == 'start':
                return by[n]
        while state['i'] < len(log):
            act, w = log[state['i']]
            state['i'] += 1
            if act == 'tick':
                # nothing is being released: releasing takes no time
                s.now += 1
                by = {t.name: t for t in s.tasks if t.ready(s.now)}
                continue
            if f'w{w}' in by:
                return by[f'w{w}']
        return None
    run = Run(policy)
    run.plain = True
    for n in names:
        run.spawn(n, [dict(life=life * 1000, retries=retries, delay=0) for _ in range(rounds)])
    tr = run.trace()
    # who holds the key in the end, by the model and for real
    owner = x['owner']
    v = run.mem._live('kee')
    return tr, (owner == 0) == (v is None)


# -- known findings -----------------------------------------------------------------------------
def finding_stalled_release():
    """a checks the clock, stalls until its lease has expired and b has acquired its own, and
    deletes b's; then c acquires the lease that b still holds."""
    names = ['a'] * 5 + ['T'] * 3 + ['b'] * 4 + ['a'] + ['c'] * 4

    def policy(ready, s):
        while names:
            n = names.pop(0)
            if n == 'T':
                s.now += 1
                continue
            for t in s.tasks:
                if t.name == n and t.ready(s.now):
                    return t
        return ready[0]
    run = Run(policy)
    run.plain = run.stall = True
    for n in 'abc':
        run.spawn(n, [dict(retries=0, delay=0)])
    return run.trace()


def check_L01(ctx):
    design(ctx)
    traces = model_traces(ctx, ctx.pick(400, 6000))
    traces += core.parallel(lambda i: lease_trace(f'{ctx.seed}-{i}'), range(ctx.pick(3000, 60000)))
    from collections import Counter
    k = Counter(e['op'] if e['op'] != 'add' else f'add {e["ok"]}' for t in traces for e in t)
    ctx.extra['events'] = dict(k)
    ctx.sample(traces[-1][:12])
    ctx.validate('LeaseTrace', traces, clauses={'L01'}, shards=8)
    ctx.findings('LeaseTrace', {'stalled-release': finding_stalled_release})
    ctx.assumptions += ['memcached evicts nothing and keeps time to the millisecond',
                        'expirations are positive and at most 30 days']
