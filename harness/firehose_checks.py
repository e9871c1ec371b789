"""F01-F06: the firehose on the controlled scheduler, validated against FireTrace."""
import random
from collections import Counter

from lib import core, fire, sched

_LOGS = {}


def get_log(seed, nops):
    key = (seed, nops)
    if key not in _LOGS:
        _LOGS[key] = fire.Log(seed, nops)
    return _LOGS[key]


def race(seed, faults=False, leaves=False, focus=None):
    rng = random.Random(seed)
    log = get_log(rng.randrange(6), rng.choice([9, 14]))
    n = log.n
    pre = rng.choice([0, rng.randint(0, n - 1), rng.randint(0, n - 1), max(n - 3, 0)])
    delay = 10.0
    lines = None
    if rng.random() < .5:
        p = rng.choice([.05, .2, .6])
        lrng = random.Random(rng.random())
        lines = lambda: lrng.random() < p
    slow = rng.choice([0, 0, 0, 2, 6])
    r = fire.Fire(
        log, sched.any_policy(rng), delay=delay, window=rng.choice([300, 300, 300, 3, 1, 0]),
        batch_delay=rng.choice([0, 0, 0, .5]), rollback=rng.choice([50000, 50000, 50000, 8, 4, 2]),
        preload=rng.choice([4000, 4000, 5, 3, 2, 1, 0]), page=rng.choice([None, None, 1, 2, 3]),
        lines=lines, pre=pre, max_steps=60000)
    # numbers that were never used before
    if rng.random() < .3:
        for s in list(r.visible):
            if rng.random() < .25:
                r.visible.discard(s)
                r.durable.pop(s)
    if faults:
        r.faults = rng.randint(1, 3)
        r.fault_rng = random.Random(rng.random())
        r.fault_p = rng.choice([.05, .2, .5])
        subs_too = rng.random() < .4
        r.fault_ok = lambda t: r.theirs(t) or (subs_too and t.name.startswith('sub'))
    env = {'driver'}
    done = []
    starters = rng.choice([1, 1, 2])
    startdone = []

    def starter(name):
        def main():
            for _ in range(rng.choice([0, 0, 10, 40])):
                r.s.point('starter wait')
            r.mod.start()
            startdone.append(name)
        r.spawn(name, main)
    for i in range(starters):
        starter(f'starter{i}')

    nsubs = rng.choice([1, 2, 3, 5])
    hi = pre if rng.random() < .7 else n

    def add_sub(i, before):
        cursor = None if rng.random() < .3 else rng.choice([0, rng.randint(0, max(hi, 0)), rng.randint(0, max(hi, 0))])
        take, after = None, 'leave'
        if leaves and rng.random() < .5:
            take, after = rng.randint(1, 6), rng.choice(['leave', 'stall'])
        r.subscriber(f'sub{i}', cursor, take=take, after=after, before=before,
                     slow=slow if rng.random() < .5 else 0, rng=random.Random(rng.random()))
    for i in range(nsubs):
        add_sub(i, rng.choice([0, 0, 5, 30, 80]))

    pnotify = rng.choice([1, .8, .3])
    plost = rng.choice([0, .1, .4])
    psilent = rng.choice([0, 0, .1])

    def committer(name, crng):
        def main():
            if crng.random() < .6:
                r.s.point('after start', lambda: bool(startdone))
            while r.allocated < n:
                for _ in range(crng.choice([0, 1, 10, 40])):
                    r.s.point('idle')
                if crng.random() < .25:
                    r.s.point('sleep', lambda: False, crng.choice([.2, 5, 9.5, 12, 30]))
                if r.allocated >= n:
                    return
                s = r.do_allocate()
                for _ in range(crng.choice([0, 1, 10, 30])):
                    r.s.point('committing')
                if crng.random() < .2:
                    r.s.point('sleep', lambda: False, crng.choice([.2, 5, 9.5, 12, 30]))
                x = crng.random()
                if x < plost:
                    r.do_lost(s)
                elif x < plost + psilent:
                    pass
                else:
                    r.do_durable(s)
                    r.s.point('durable')
                    if crng.random() < pnotify:
                        r.mod.send_events()
            done.append(name)
        r.spawn(name, main, trace=False)
    ncom = rng.choice([1, 2, 3])
    for i in range(ncom):
        env.add(f'com{i}')
        committer(f'com{i}', random.Random(rng.random()))

    late = rng.random() < .5
    end = []

    def driver():
        r.s.point('started', lambda: len(startdone) == starters, 1000)
        r.settle(env)
        r.mark_settled()
        if late:
            for _ in range(rng.randint(0, 60)):
                r.s.point('later')
            add_sub(nsubs, 0)
            r.settle(env)
            r.mark_settled()
        r.s.point('committed', lambda: all(t.done for t in r.s.tasks if t.name in env - {'driver'}))
        missing = r.allocated - len(r.visible)
        r.s.point('horizon', lambda: False, (missing + 5) * 3 * delay + slow * n)
        r.settle(env)
        end.append(1)
    r.spawn('driver', driver, trace=False)
    out = r.s.run(until=lambda: bool(end))
    ev = r.finish()
    ev.update(slow=bool(slow), startok=len(startdone) == starters, pre=pre)
    return [ev]


def coverage(ctx, traces):
    n = Counter()
    for t in traces:
        e = t[0]
        n['executions'] += 1
        n['scheduling steps'] += e['steps']
        n['injected failures'] += e['faults']
        n['numbers reported lost'] += len(e['lost'])
        n['log reads'] += len(e['scans'])
        for s in e['subs']:
            n[f"subscribers {s['end']}"] += 1
            n['events delivered'] += len(s['items'])
    ctx.extra['executions'] = dict(sorted(n.items()))


def run_race(ctx, prop, n, **kw):
    traces = core.parallel(lambda i: race(f'{ctx.seed}-{prop}-{i}', **kw), range(n))
    coverage(ctx, traces)
    ctx.sample({k: v for k, v in traces[0][0].items() if k not in ('contents',)})
    return traces


def check_F01(ctx):
    ctx.validate('FireTrace', run_race(ctx, 'F01', ctx.pick(400, 12000)), clauses={'F01'}, shards=8)


def check_F02(ctx):
    ctx.validate('FireTrace', run_race(ctx, 'F02', ctx.pick(400, 12000)), clauses={'F02'}, shards=8)


def check_F03(ctx):
    ctx.validate('FireTrace', run_race(ctx, 'F03', ctx.pick(400, 12000)), clauses={'F03'}, shards=8)


def check_F05(ctx):
    ctx.validate('FireTrace', run_race(ctx, 'F05', ctx.pick(400, 12000), faults=True, leaves=True),
                 clauses={'F05', 'F01'}, shards=8)


def check_F06(ctx):
    ctx.validate('FireTrace', run_race(ctx, 'F06', ctx.pick(400, 12000), leaves=True), clauses={'F06'}, shards=8)


# -- F04: the cursor contract, on histories that settle after every step ---------------------

def settled(seed):
    rng = random.Random(seed)
    log = get_log(rng.randrange(6), rng.choice([9, 14]))
    n = log.n
    pre = rng.choice([0, rng.randint(0, n - 2), rng.randint(0, n - 2), rng.randint(0, n - 2)])
    allocated = pre + rng.choice([0, 0, 0, 1, 2])
    window = rng.choice([50000, 50000, 1, 2, 3, 4, 6, 8])
    r = fire.Fire(log, sched.any_policy(rng), delay=10.0, rollback=window,
                  preload=rng.choice([4000, 4000, window, 5, 3, 2, 1, 0]),
                  page=rng.choice([None, None, 1, 2, 3]), pre=pre, allocated=allocated, max_steps=80000)
    if rng.random() < .5:
        p = rng.choice([.2, .6])
        for s in list(r.visible):
            if rng.random() < p:
                r.visible.discard(s)
                r.durable.pop(s)
    # (numbers after the last event that were never used would be waited for)
    for s in range(max(r.visible, default=0) + 1, allocated + 1):
        r.do_lost(s)
    out = [dict(op='init', last=allocated, window=window, preload=r.params['preload'],
                stored=[[s, r.cid(log.truth[s])] for s in sorted(r.visible)])]
    env = {'driver'}
    end = []
    startdone = []

    def observe(**kw):
        r.settle(env)
        subs = [dict(id=i + 1, frames=s['frames'], items=[x[:2] for x in s['items']],
                     open=s['end'] == 'open', exc=s['exc']) for i, s in enumerate(r.subs)]
        kw.update(subs=subs, crashed=[t.name for t in r.s.tasks if t.exc is not None])
        out.append(kw)

    def driver():
        if rng.random() < .7:
            r.spawn('starter', lambda: (r.mod.start(), startdone.append(1)))
            r.s.point('started', lambda: bool(startdone), 1000)
            observe(op='start')
        else:
            # subscribers that come before the collector runs
            for i in range(rng.randint(1, 2)):
                sub(False)
            r.spawn('starter', lambda: (r.mod.start(), startdone.append(1)))
            r.s.point('started', lambda: bool(startdone), 1000)
            observe(op='start')
        for _ in range(rng.randint(3, 12)):
            x = rng.random()
            if x < .5 and len(r.subs) < 8:
                sub()
            elif r.allocated < n:
                burst = []
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if r.allocated < n:
                        s = r.do_allocate()
                        if rng.random() < .2 or s not in log.stored:
                            r.do_lost(s)
                            burst.append([s, 0])
                        else:
                            r.do_durable(s)
                            burst.append([s, r.cid(log.truth[s])])
                r.mod.send_events()
                observe(op='events', events=burst)
        end.append(1)

    def sub(seen=True):
        last = r.allocated
        ws = max(last - window, 0)
        c = rng.choice([None, 0, -1, last, last + 1, last + rng.randint(1, 50), ws, ws - 1, ws + 1,
                        rng.randint(0, last + 1), rng.randint(0, last + 1), rng.randint(0, last + 1)])
        r.subscriber(f'sub{len(r.subs)}', c, xrpc=True)
        observe(op='subscribe', id=len(r.subs), cursor=-99 if c is None else c, nocursor=c is None)
    r.spawn('driver', driver, trace=False)
    res = r.s.run(until=lambda: bool(end))
    ev = r.finish()
    out.append(dict(op='end', outcome=res, crashed=ev['crashed'], finished=bool(end)))
    return out


def check_F04(ctx):
    traces = core.parallel(lambda i: settled(f'{ctx.seed}-F04-{i}'), range(ctx.pick(600, 15000)))
    n = Counter()
    for t in traces:
        n['histories'] += 1
        for e in t:
            n[e['op']] += 1
            if e['op'] == 'subscribe':
                n['subscribe, empty log' if not t[0]['stored'] else 'subscribe'] += 1
        for s in t[-2].get('subs', []):
            for f in s['frames']:
                n[f[2]] += 1
    ctx.extra['executions'] = dict(sorted(n.items()))
    ctx.sample(traces[0])
    ctx.validate('FireCursor', traces, clauses={'F04'}, shards=8)
