"""T01, T02: timestamp identifiers, judged by spec/TidTrace.tla."""
import itertools
import random
from datetime import datetime, timedelta, timezone, tzinfo

from lib import core, sched, simthread

ALPHABET = sorted('234567abcdefghijklmnopqrstuvwxyz')
POS = {c: i for i, c in enumerate(ALPHABET)}
CONSTS = dict(B=32, W=11, C=2)


def digits(tid):
    if isinstance(tid, bytes):
        tid = tid.decode('latin-1')
    return [POS.get(c, -1) for c in tid] if isinstance(tid, str) else []


def limbs(n):
    n = abs(n)
    out = []
    for _ in range(9):
        n, r = divmod(n, 10000)
        out.insert(0, r)
    return out


def attempt(fn):
    try:
        with core.time_limit(5):
            return 'ok', fn()
    except core.Hang:
        return 'hang', None
    except Exception as e:
        return 'raised', e


# -- T02: conversions -------------------------------------------------------------------------
def enc(fn, num, clock, what):
    r, tid = attempt(fn)
    return dict(op='enc', neg=num < 0, num=limbs(num), clock=clock, r=r, what=what,
                tid=digits(tid) if r == 'ok' else [], text=repr(tid))


def dec(fn, tid, what, to_num=lambda x: x):
    r, num = attempt(fn)
    ok = r == 'ok'
    num = to_num(num) if ok else 0
    kind = type(tid).__name__
    return dict(op='dec', tid=digits(tid), kind=kind, r=r, neg=num < 0, num=limbs(num), what=what,
                text=repr(tid)[:60])


def micros(dt):
    """Microseconds since the epoch, from the calendar fields alone."""
    days = dt.toordinal() - datetime(1970, 1, 1).toordinal()
    us = ((days * 24 + dt.hour) * 60 + dt.minute) * 60 + dt.second
    us = us * 1000000 + dt.microsecond
    off = dt.utcoffset()
    return us - ((off.days * 86400 + off.seconds) * 1000000 + off.microseconds) if off is not None else us


class Dst(tzinfo):
    """A zone that changes its offset at noon UTC, with an hour that happens twice."""
    def utcoffset(self, dt):
        late = dt.hour > 12 or (dt.hour == 12 and dt.fold)
        return timedelta(hours=0 if late else 1)

    def dst(self, dt):
        return timedelta(0)

    def tzname(self, dt):
        return 'X'


def numbers(rng, n):
    out = set(range(40)) | {32 ** k + d for k in range(1, 12) for d in (-1, 0, 1)} \
        | {2 ** k + d for k in range(5, 56) for d in (-1, 0, 1)} \
        | {10 ** k + d for k in range(2, 16) for d in (-1, 0, 1)}
    out |= {rng.getrandbits(rng.randint(1, 53)) for _ in range(n)}
    # sparse and repetitive digits
    for _ in range(n // 2):
        d = [rng.choice([0, 0, 0, 31, 31, rng.randrange(32)]) for _ in range(11)]
        d[0] = rng.choice([0, 0, 0, 3, 7])
        v = 0
        for x in d:
            v = v * 32 + x
        out.add(v)
    return sorted(out)


def datetimes(rng, n):
    zones = [timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8)),
             timezone(timedelta(seconds=3601)), timezone(timedelta(microseconds=-7)), Dst(), None]
    try:
        from zoneinfo import ZoneInfo
        zones.append(ZoneInfo('America/New_York'))
    except Exception:
        pass
    for _ in range(n):
        yr = rng.choice([1970, 1999, 2004, 2023, 2024, 2026, 2038, 2100, rng.randint(1970, 2254)])
        dt = datetime(yr, rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 11, 12, 13, 23]), rng.randint(0, 59),
                      rng.randint(0, 59), rng.choice([0, 1, 999999, 500000, rng.randrange(10 ** 6)]),
                      tzinfo=rng.choice(zones), fold=rng.randint(0, 1))
        if yr > 1970 or dt.month > 1:
            yield dt
    for dt in (datetime(1969, 12, 31, 23, 59, 59, 999999, timezone.utc), datetime(1900, 1, 1, tzinfo=timezone.utc),
               datetime(1970, 1, 1, tzinfo=timezone.utc), datetime(1970, 1, 1, tzinfo=timezone(timedelta(hours=1))),
               datetime(1970, 1, 1, tzinfo=timezone(timedelta(hours=-1)))):
        yield dt


def check_T02(ctx):
    ctx.model('TidMC', 'SPECIFICATION MCSpec\nCONSTANTS\n B = 3\n W = 3\n C = 2\n', workers=1)
    if ctx.thorough:
        ctx.model('TidMC', 'SPECIFICATION MCSpec\nCONSTANTS\n B = 4\n W = 3\n C = 2\n', workers=1)
    from arroba import util
    rng = random.Random(ctx.seed)
    evs = []
    nums = numbers(rng, ctx.pick(400, 6000))
    for n in nums:
        for clock in {0, rng.randint(0, 31), rng.randint(0, 1023)}:
            evs.append(enc(lambda: util.int_to_tid(n, clock_id=clock), n, clock, 'int_to_tid'))
    for clock in range(0, 1024, ctx.pick(9, 1)):
        n = rng.choice(nums)
        evs.append(enc(lambda: util.int_to_tid(n, clock_id=clock), n, clock, 'int_to_tid'))
    own = util._clockid if isinstance(getattr(util, '_clockid', None), int) else None
    for n in rng.sample(nums, 60):
        e = enc(lambda: util.int_to_tid(n), n, 0, 'int_to_tid, own clock id')
        e['clock'] = own if own is not None else max(e['tid'][-2:] or [0])
        evs.append(e)
    for n in [-1, -2, -31, -32, -33, -2 ** 53, -rng.getrandbits(50), 2 ** 53, 2 ** 54 - 1, 2 ** 55 - 1, 2 ** 55,
              2 ** 55 + 1, 2 ** 60, 2 ** 64, 2 ** 64 + 5, 2 ** 70, 32 ** 12, 32 ** 13 + 1]:
        for clock in (0, 1, 31, 32, 1023):
            evs.append(enc(lambda: util.int_to_tid(n, clock_id=clock), n, clock, 'int_to_tid'))
    for clock in (-1, -32, 1024, 1025, 32 ** 3, 10 ** 9):
        for n in (0, 5, 2 ** 31, 2 ** 53 - 1):
            evs.append(enc(lambda: util.int_to_tid(n, clock_id=clock), n, clock, 'int_to_tid'))
    for dt in datetimes(rng, ctx.pick(600, 8000)):
        us, clock = micros(dt), rng.choice([0, 5, 31, 700])
        evs.append(enc(lambda: util.datetime_to_tid(dt, clock_id=clock), us, clock, f'datetime_to_tid {dt!r}'))

    def tid(first=8):
        return ''.join([rng.choice(ALPHABET[:first])] + [rng.choice(ALPHABET) for _ in range(12)])
    wellformed = [tid() for _ in range(ctx.pick(300, 4000))] + [tid(32) for _ in range(50)] \
        + ['2' * 13, '7' + 'z' * 12, 'j' + 'z' * 12, 'z' * 13, '22222222222zz']
    for t in wellformed:
        evs.append(dec(lambda: util.tid_to_int(t), t, 'tid_to_int'))
        b = t.encode()
        if rng.random() < .3:
            evs.append(dec(lambda: util.tid_to_int(b), b, 'tid_to_int bytes'))
        if t[0] in '2345' and rng.random() < .6:
            evs.append(dec(lambda: util.tid_to_datetime(t), t, 'tid_to_datetime', micros))
    bad = ['', '2', '2' * 12, '2' * 14, '2' * 26, None, 5, 13.0, ['2'] * 13, ('2',) * 13, '3jzf-cij-pj2z-2a']
    for t in rng.sample(wellformed, 60):
        i = rng.randrange(13)
        bad += [t[:i] + rng.choice('-01890ABZ _.~=\n\0é२') + t[i + 1:], t[:-1], t + rng.choice(ALPHABET),
                t[:-1] + '\n', ' ' + t[1:], t.upper() if not t.isdigit() else '2', t[:i] + '-' + t[i + 1:]]
    for t in bad:
        evs.append(dec(lambda: util.tid_to_int(t), t, 'tid_to_int'))
        if isinstance(t, str):
            evs.append(dec(lambda: util.tid_to_datetime(t), t, 'tid_to_datetime', micros))
            b = t.encode()
            evs.append(dec(lambda: util.tid_to_int(b), b, 'tid_to_int bytes'))
    ctx.extra['conversions'] = len(evs)
    ctx.sample({k: evs[7][k] for k in ('op', 'num', 'clock', 'text')})
    ctx.sample({k: evs[-7][k] for k in ('op', 'kind', 'text', 'r')})
    size = 200
    ctx.validate('TidTrace', [[dict(op='init')] + evs[i:i + size] for i in range(0, len(evs), size)],
                 consts=CONSTS, clauses={'T02'}, shards=8)


# -- T01: the generator -----------------------------------------------------------------------
class Clock:
    """The time every caller sees; in nanoseconds, and not always forward."""
    def __init__(self, at):
        self.at, self.lows = at, {}

    def set(self, at):
        self.at = max(at, 0)
        for k in self.lows:
            self.lows[k] = min(self.lows[k], self.at)

    def time_ns(self):
        simthread.point('clock')
        return self.at

    def time(self):
        return self.time_ns() / 10 ** 9


def value(tid):
    v = 0
    for d in digits(tid)[:11]:
        v = v * 32 + max(d, 0)
    return v


class Calls:
    """The recorded calls of one run."""
    def __init__(self, util, clock, base):
        self.util, self.clock, self.base, self.ev = util, clock, base, [dict(op='init')]

    def call(self, i):
        self.clock.lows[i] = self.clock.at
        self.ev.append(dict(op='call', id=i))
        try:
            tid, r = self.util.next_tid(), 'ok'
        except sched.Stop:
            raise
        except Exception as e:
            tid, r = '', f'raised:{type(e).__name__}'
        lo = self.clock.lows.pop(i)
        self.ev.append(dict(op='ret', id=i, r=r, lo=lo // 1000, tid=digits(tid), text=tid))
        return tid

    def trace(self):
        rets = [e for e in self.ev if e['op'] == 'ret']
        ranks = {t: i for i, t in enumerate(sorted({e['text'] for e in rets}))}
        # relative to the smallest number around, and compressed: TLC's integers are 32 bits
        # wide, and only comparisons matter
        vals = sorted({value(e['text']) for e in rets} | {e['lo'] for e in rets})
        order = {v: i for i, v in enumerate(vals)}
        for e in rets:
            e['n'], e['rank'], e['lo'] = order[value(e['text'])], ranks[e['text']], order[e['lo']]
        return self.ev


BASE = 1_700_000_000_000_000_000


def load_util(clock):
    """arroba.util with controlled locks and clock."""
    old = simthread.time
    simthread.time = simthread.module('time', simthread.real_time, time=clock.time, time_ns=clock.time_ns,
                                      sleep=simthread.Time.sleep, monotonic=clock.time,
                                      monotonic_ns=clock.time_ns, perf_counter=clock.time)
    try:
        return simthread.load('arroba.util', private='arroba.util_under_test')
    finally:
        simthread.time = old


def sequential(steps, at):
    """One caller; the clock moves by each of steps before each call."""
    clock = Clock(at)
    simthread.use(None)
    c = Calls(load_util(clock), clock, at)
    for i, d in enumerate(steps):
        clock.set(clock.at + d)
        c.call(i)
    return c.trace()


def concurrent(policy, ncallers, ncalls, moves, every=None):
    """Callers in threads, preempted between bytecodes, and a clock that moves meanwhile."""
    clock = Clock(BASE)
    s = simthread.use(sched.Sched(policy, 30000))
    try:
        util = load_util(clock)
        c = Calls(util, clock, BASE)
        tracer = simthread.trace_points({util.__file__}, opcodes=True, every=every)

        def caller(k):
            def run():
                import sys
                for j in range(ncalls):
                    sys.settrace(tracer)
                    try:
                        c.call(k * ncalls + j)
                    finally:
                        sys.settrace(None)
                    simthread.point('between')
            return run
        for k in range(ncallers):
            s.spawn(f'c{k}', caller(k))
        if moves:
            def mover():
                for d in moves:
                    clock.set(clock.at + d)
                    simthread.point('moved')
            s.spawn('clock', mover)
        if s.run() != 'done':
            c.ev.append(dict(op='stuck'))
        return c.trace(), s.steps
    finally:
        s.shutdown()
        simthread.use(None)


STEPS = [0, 1, 999, 1000, 1001, -1000, -5_000_000, 3_600_000_000_000]


def check_T01(ctx):
    cfg = 'SPECIFICATION GenSpec\nINVARIANT Distinct\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Callers = {%s}\n' \
          ' MaxClock = %d\n MaxCalls = %d\n Atomic = %s\n'
    ctx.model('TidGen', cfg % ('1, 2', 3, ctx.pick(4, 5), 'TRUE'))
    if ctx.thorough:
        ctx.model('TidGen', cfg % ('1, 2, 3', 3, 4, 'TRUE'))
    # the model without the lock must fail, or it does not say anything
    if core.tlc('TidGen', cfg % ('1, 2', 1, 3, 'FALSE'), check=False).ok:
        raise core.MachineryError('the unlocked generator model has no duplicates')
    rng = random.Random(ctx.seed)
    seqs = list(itertools.product(STEPS, repeat=ctx.pick(3, 4)))
    seqs += [[rng.choice(STEPS + [rng.randint(-10 ** 7, 10 ** 7)]) for _ in range(12)] for _ in range(100)]
    traces = core.parallel(lambda q: sequential(q, BASE + rng.randint(0, 2000)), seqs)
    traces += [sequential([0, -BASE, 5, 2000], 3000), sequential([0] * 400, 0)]

    # one caller stopped after each of its steps while the other runs to the end
    def stopped(n):
        return concurrent(sched.script(['c0'] * n + ['c1'] * 5000, None), 2, 1, ())[0]
    total = concurrent(sched.script([]), 1, 1, ())[1]
    traces += core.parallel(stopped, list(range(1, total + 2)))
    ctx.extra['preemption_points'] = total

    def free(i):
        r = random.Random(f'{ctx.seed}/{i}')
        moves = [r.choice(STEPS[:-1]) for _ in range(r.randint(0, 12))]
        p = r.choice([1, 1, .3])
        return concurrent(sched.any_policy(r), r.randint(2, 4), r.randint(1, 3), moves,
                          every=None if p == 1 else lambda: r.random() < p)[0]
    traces += core.parallel(free, list(range(ctx.pick(500, 6000))))
    ctx.sample([e for e in traces[-1] if e['op'] == 'ret'][:3])
    ctx.validate('TidTrace', traces, consts=CONSTS, clauses={'T01'}, shards=8)
