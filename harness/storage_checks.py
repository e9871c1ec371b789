"""S01-S09, M05: the storage layer, against spec/Pds*.tla."""
import json
import os
import random

import dag_cbor

from lib import core, mstlib
from lib.world import World

from lib import fakeds  # noqa: F401  (sets the environment the Datastore client wants)
from arroba import mst, datastore_storage  # noqa: F401

BIG = {'$type': 'com.example.big', 'x': 'y' * 1_000_001}


def make_world(rng, backend, ndids=2, nkeys=6, nvals=3, big=False, keys=None, **kw):
    layers = [rng.choice([0, 0, 0, 1, 1, 2, 3]) for _ in range(nkeys)]
    if rng.random() < .3:
        layers = [0] * nkeys
    colls = rng.sample(['a.b.c', 'a.b.cd', 'app.bsky.feed.post', 'app.bsky.graph.follow', 'x.y.z'], 3)
    keys = set(keys(rng) if keys else ())
    while len(keys) < nkeys:
        keys.add(mstlib.key_with_layer(f'{rng.choice(colls)}/{rng.choice("abcxyz")}',
                                       layers[len(keys)], rng))
    records = []
    for i in range(nvals):
        records.append({'$type': 'com.example.rec', 'n': i, 'text': 'é☃'[i % 2] * (i + 1)}
                       if i % 3 else {'foo': i, 'list': [1, {'b': b'\x00\xff'}]})
    # not acceptable: fails its lexicon; too large / masquerading as an event or commit
    records.append({'$type': 'app.bsky.feed.like', 'createdAt': 'x'})
    records.append(BIG if big else rng.choice([
        {'$type': 'com.atproto.sync.subscribeRepos#account', 'seq': 3, 'did': 'did:web:u1.com',
         'active': False, 'time': '2024-01-01T00:00:00Z'},
        {'version': 3, 'did': 'did:web:u1.com', 'rev': '2222222222222', 'prev': None,
         'data': mstlib.cid_of(b'x'), 'sig': b'x' * 64},
        {'$type': 'app.bsky.graph.follow', 'subject': 17},
    ]))
    dids = [f'did:web:u{i}.com' if i % 2 else f'did:plc:{"abcdefgh"[i] * 24}' for i in range(1, ndids + 1)]
    return World(backend, keys=sorted(keys), records=records, dids=dids,
                 badvals=[nvals + 1, nvals + 2], batch=rng.choice([1, 2, 7, 300]), **kw)


def histories(ctx, n, depth=12, weird=8, ndids=2, nkeys=6, nvals=3, nslots=3,
              st=4, ev=5, maxbatch=5):
    """Operation histories generated by TLC from spec/PdsGen.tla."""
    dump = os.path.join(ctx.tmp, f'gen-{depth}-{weird}-{ndids}-{nkeys}')
    cfg = '\n'.join(['SPECIFICATION Spec', 'INVARIANT Dump', 'CHECK_DEADLOCK FALSE', 'CONSTANTS',
                     f'NDids = {ndids}', f'NKeys = {nkeys}', f'NVals = {nvals}', 'NBad = 2',
                     f'NSlots = {nslots}', f'Depth = {depth}', f'Weird = {weird}', f'StPct = {st}', f'EvPct = {ev}',
                     f'MaxBatch = {maxbatch}', ''])
    res = core.tlc('PdsGen', cfg, env=dict(DUMP=dump), workers=1,
                   args=['-simulate', f'num={n}', '-depth', depth + 3, '-seed', ctx.seed])
    ctx.states += res.generated
    ctx.transitions += res.generated
    out = []
    for line in open(dump):
        x = json.loads(line)
        out.append(json.loads(x) if isinstance(x, str) else x)
    return out


def play(w, ops, rng, *, cbs=True, faults=None, after=None, full=True):
    """Replays one history on the real code.

    faults: {index of operation: fault}; after(w, i): extra observations."""
    for i, op in enumerate(ops):
        fault = (faults or {}).get(i)
        kind, did = op[0], w.dids[op[1] - 1]
        if kind == 'create':
            w.create(did, op[2], cb=op[3])
        elif kind == 'load':
            w.load(did, op[2])
            continue
        elif op[2] not in w.slots:
            continue
        elif kind == 'commit':
            ws = [[a, k if k else rng.choice(BAD_PATHS), v] for a, k, v in op[3]]
            w.commit(did, op[2], ws, cb=op[4] if cbs else 'record', fault=fault,
                     single=rng.random() < .3)
        elif kind == 'status':
            w.status(did, op[2], op[3], cb=op[4] if cbs else 'record')
        elif kind == 'event':
            w.event(did, op[2], op[3], cb=op[4] if cbs else 'record')
        if not w.observe(full=full):
            break
        if after:
            after(w, i)


BAD_PATHS = ['a.b.c/sp ace', 'a.b.c/', 'nocollection', 'a.b.c/x/y', 'a.b.c/é', 'a.b.c/' + 'x' * 1100]


def run_histories(ctx, prop, backends, hists, after=None, faults=None, world=None, end=None, cbs=True,
                  full=True):
    """Plays every history on every backend, and returns the traces."""
    def one(job):
        i, backend = job
        rng = random.Random(f'{ctx.seed}-{prop}-{i}-{backend}')
        w = make_world(rng, backend, **(world or {}))
        w.rng = rng
        ops = hists[i]
        play(w, ops, rng, faults=faults(rng, ops, backend) if faults else None, after=after,
             cbs=cbs, full=full)
        if end:
            end(w)
        return w.trace(prop=prop, sorted=sorted(w.dids))
    jobs = [(i, b) for b in backends for i in range(len(hists))]
    return core.parallel(one, jobs)


BOTH = ('memory', 'datastore')


def coverage(ctx, traces):
    from collections import Counter
    n = Counter()
    for t in traces:
        for e in t[1:]:
            r = e.get('r', '')
            n[f"{e['op']}{'/' + r if r else ''}{'/fault' if e.get('hit') else ''}"] += 1
    ctx.extra['operations'] = dict(sorted(n.items()))


def validate(ctx, traces, props):
    coverage(ctx, traces)
    bad = ctx.validate('PdsTrace', traces, clauses=props, shards=8)
    ctx.sample(dict(trace=[{k: v for k, v in e.items() if k not in ('blocks', 'log', 'blk', 'repos')}
                           for e in traces[0][1:8]]))
    return bad


def pds_faults(p, kinds=('denied', 'aborted', 'unavailable', 'unavailable-all'), ops=('commit',)):
    """A fault plan: some operations meet a failing storage call."""
    def plan(rng, hist, backend):
        out = {}
        for i, op in enumerate(hist):
            if op[0] in ops and rng.random() < p:
                if backend == 'memory':
                    out[i] = ('denied', 1)
                elif rng.random() < .3:       # the transaction does everything, but can't be committed
                    out[i] = (rng.choice(kinds), rng.choice([1, 2, 2, 3]), 'commit')
                else:
                    out[i] = (rng.choice(kinds), rng.randint(1, 25 if op[0] == 'commit' else 7))
        return out
    return plan


def limits(w):
    """200 operations in one commit are fine, 201 and an oversized record are not."""
    did = w.dids[0]
    if not w.observe():
        return
    w.create(did, 1)
    w.observe()
    nv = len(w.records)
    w.commit(did, 1, [['create', 1, 1]])
    w.observe()
    many = [['update', 1, i % 2 + 1] for i in range(1, 201)]
    w.commit(did, 1, many + [['create', 2, 1]])
    w.observe()
    w.commit(did, 1, [['create', 3, 2], ['create', 4, nv]])
    w.observe()
    w.commit(did, 1, many)
    w.observe()
    w.commit(did, 1, [['create', 2, 2]])
    w.observe()


def edges(ctx):
    """Records just at and just over the size limit, also where bytes are not characters."""
    def rec(n, ch):
        r = {'$type': 'com.example.edge', 'x': ''}
        room = n - len(dag_cbor.encode({**r, 'x': 'y' * 70000})) + 70000
        k = len(ch.encode())
        r['x'] = ch * (room // k) + 'z' * (room % k)
        assert len(dag_cbor.encode(r)) == n
        return r
    out = []
    for backend in BOTH:
        records = [rec(1_000_000, 'y'), rec(1_000_000, '\u2603'), {'a': 1},
                   rec(1_000_001, 'y'), rec(1_000_002, '\u2603')]
        w = World(backend, keys=['a.b/1', 'a.b/2', 'a.b/3'], records=records, dids=['did:web:u1.com'],
                  badvals=[4, 5])
        w.observe()
        w.create(w.dids[0], 1)
        w.observe()
        for v in range(1, 6):
            w.commit(w.dids[0], 1, [['create', 3, 3]] if v == 3 else [['update' if v > 3 else 'create', v if v < 3 else 3, v]])
            w.observe()
        out.append(w.trace(prop='S03', sorted=w.dids))
        w = make_world(random.Random(ctx.seed), backend, big=True)
        limits(w)
        out.append(w.trace(prop='S01', sorted=sorted(w.dids)))
    return out


def check_S01(ctx):
    hists = histories(ctx, ctx.pick(56, 800), depth=ctx.pick(10, 16), weird=18)
    traces = run_histories(ctx, 'S01', BOTH, hists, faults=pds_faults(.4))
    traces += edges(ctx)
    validate(ctx, traces, {'S01'})
    commit_design(ctx)


def check_S02(ctx):
    hists = histories(ctx, ctx.pick(72, 900), depth=ctx.pick(10, 20), weird=5, ndids=3, st=3, ev=8)
    traces = run_histories(ctx, 'S02', BOTH, hists, world=dict(ndids=3), full=False)
    validate(ctx, traces, {'S02'})
    ctx.validate('PdsConc', run_conc(ctx, 'S02', ctx.pick(60, 1500)), clauses={'S02'}, shards=8)


def check_S03(ctx):
    hists = histories(ctx, ctx.pick(72, 1000), depth=ctx.pick(10, 20), weird=6, nkeys=8, nvals=4)
    traces = run_histories(ctx, 'S03', BOTH, hists, world=dict(nkeys=8, nvals=4))
    traces += edges(ctx)
    validate(ctx, traces, {'S03'})


def check_S04(ctx):
    hists = histories(ctx, ctx.pick(90, 1200), depth=ctx.pick(12, 20), weird=5, st=40, maxbatch=2)
    traces = run_histories(ctx, 'S04', BOTH, hists, full=False)
    validate(ctx, traces, {'S04'})
    ctx.validate('PdsConc', run_conc(ctx, 'S04', ctx.pick(120, 3000), status=True), clauses={'S04'}, shards=8)


def check_S05(ctx):
    hists = histories(ctx, ctx.pick(64, 900), depth=ctx.pick(10, 18), weird=8, nvals=2)

    def after(w, i):
        if w.rng.random() < .6:
            w.reads(w.rng)
        if w.rng.random() < .3:
            w.rewrite([w.rng.randrange(1000) for _ in range(w.rng.randint(1, 4))],
                      w.rng.choice(w.dids))
            w.observe(full=False)
        if w.rng.random() < .15:
            w.imported(w.rng)
            w.observe(full=False)
    traces = run_histories(ctx, 'S05', BOTH, hists, world=dict(nvals=2), after=after, full=False)

    def many(w):
        """More blocks than the Datastore looks up at once."""
        if w.fake:
            w.fake.batch = 300
        w.create(w.dids[0], 1, cb='none')
        w.observe(full=False)
        w.imported(w.rng, more=1100)
        w.observe(full=False)
        for lookups in [900], [w.rng.randint(20, 999)]:
            w.reads(w.rng, n=5000, lookups=lookups)
    traces += run_histories(ctx, 'S05', BOTH, [[]], end=many)
    validate(ctx, traces, {'S05'})


def creations(w):
    """Ends a history with a repo creation during which the storage fails."""
    created = {e['did'] for e in w.ev if e['op'] == 'create'}
    left = [d for d in w.dids if d not in created]
    if left:
        w.create_failing(left[0], w.rng.choice(['record', 'record', 'raise', 'none']),
                         ('denied', w.rng.randint(1, 5)) if w.fake is None else
                         (w.rng.choice(['denied', 'aborted', 'unavailable', 'unavailable-all']),
                          w.rng.randint(1, 40)))


def check_S07(ctx):
    hists = histories(ctx, ctx.pick(72, 1000), depth=ctx.pick(12, 18), weird=12, ev=15, st=8)
    traces = run_histories(ctx, 'S07', BOTH, hists, world=dict(ndids=3),
                           faults=pds_faults(.3, ops=('commit', 'event')), full=False,
                           end=creations)
    validate(ctx, traces, {'S07'})
    ctx.validate('PdsConc', run_conc(ctx, 'S07', ctx.pick(120, 3000), faults=.4), clauses={'S07'}, shards=8)
    commit_design(ctx)


def check_S08(ctx):
    hists = histories(ctx, ctx.pick(64, 900), depth=ctx.pick(11, 20), weird=15, nvals=2, ev=15)

    def after(w, i):
        last = len([a for e in w.ev for a in e.get('alloc', ())])
        for _ in range(2):
            w.events(w.rng.randint(0, last + 2), w.rng.choice(['', *w.dids]),
                     lose=w.rng.choice([0, 1, 3]) if w.fake else 0)
        if w.rng.random() < .15:
            w.imported(w.rng)
            w.observe(full=False)
    traces = run_histories(ctx, 'S08', BOTH, hists, world=dict(nvals=2), after=after, full=False)
    validate(ctx, traces, {'S08'})


def check_S09(ctx):
    hists = histories(ctx, ctx.pick(64, 900), depth=ctx.pick(14, 24), ndids=7, nslots=6, st=25, weird=5,
                      maxbatch=2)

    def after(w, i):
        rng = w.rng
        if rng.random() < .25 and w.slots:
            w.rename(rng.choice(sorted(w.slots)), rng.choice([f'n{i}.com', f'n{i}.net', f'a{i}.b.org']))
            w.observe(full=False)
        if rng.random() < .5:
            limit, minimal = rng.randint(1, 5), rng.random() < .5
            at = 0
            for _ in range(len(w.dids) + 1):
                got = w.page(at, limit, minimal)
                if not got:
                    break
                at = got[-1]
        if rng.random() < .3:
            w.page(rng.randint(0, len(w.dids)), rng.randint(1, 8), rng.random() < .5)
        if rng.random() < .3:
            created = {e['did'] for e in w.ev if e['op'] == 'create'}
            names = ['did:web:nobody.com', 'nobody.com', 'did:plc:' + 'z' * 24, *w.old_handles]
            w.unknown(rng.choice(names + [d for d in w.dids if d not in created]))
    traces = run_histories(ctx, 'S09', BOTH, hists, world=dict(ndids=7), after=after, full=False)
    validate(ctx, traces, {'S09'})


def twin_keys(rng, n=24):
    """Keys in which neighbours tend to have the same layer, and some extend others."""
    out = []
    while len(out) < n:
        pre = f'a.b.{rng.choice("cd")}/{chr(ord("a") + len(out) // 2)}'
        ly = rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 3])
        a = mstlib.key_with_layer(pre, ly, rng)
        b = mstlib.key_with_layer(a if rng.random() < .4 else pre, ly if rng.random() < .8 else rng.randint(0, 3), rng)
        if b not in (a, *out) and a not in out:
            out += [a, b]
    return out


def twin_history(rng, nkeys, commits):
    """One big commit, then small ones that often swap a key for a neighbour."""
    live, ops = set(), [['create', 1, 1, 'none']]

    def commit(ws):
        ops.append(['commit', 1, 1, ws, 'none'])
    first = [k for k in range(1, nkeys + 1) if rng.random() < .5]
    commit([['create', k, rng.randint(1, 3)] for k in first])
    live |= set(first)
    for _ in range(commits):
        ws, used = [], set()
        for _ in range(rng.choice([1, 1, 2, 3])):
            pairs = [(x, y) for x in live - used for y in (x - 1, x + 1)
                     if 1 <= y <= nkeys and y not in live | used]
            if pairs and rng.random() < .6:
                x, y = rng.choice(sorted(pairs))
                two = [['delete', x, 0], ['create', y, rng.randint(1, 3)]]
                ws += two if rng.random() < .7 else two[::-1]
                used |= {x, y}
                live = live - {x} | {y}
                continue
            k = rng.randint(1, nkeys)
            if k in used:
                continue
            used.add(k)
            a = rng.choice(['update', 'delete']) if k in live else 'create'
            ws.append([a, k, 0 if a == 'delete' else rng.randint(1, 3)])
            live = live - {k} if a == 'delete' else live | {k}
        commit(ws)
    return ops


def check_M05(ctx):
    hists = histories(ctx, ctx.pick(80, 1000), depth=ctx.pick(10, 18), nkeys=9, st=0, ev=0, weird=3,
                      ndids=1, nslots=1)

    def end(w):
        w.payloads()
        w.payloads(prefetch=True)
    traces = run_histories(ctx, 'M05', BOTH, hists, world=dict(nkeys=9, ndids=1), end=end, full=False)
    rng = random.Random(f'M05-{ctx.seed}')
    hists = [twin_history(rng, 24, ctx.pick(12, 25)) for _ in range(ctx.pick(50, 600))]
    traces += run_histories(ctx, 'M05', ('memory',), hists, world=dict(keys=twin_keys, nkeys=24, ndids=1),
                            end=end, full=False)
    validate(ctx, traces, {'M05'})


# -- concurrency ----------------------------------------------------------------------------
def conc_trace(seed, *, nworkers=None, schedule=None, points=None, faults=.0, status=False, prop='S06',
               jobs=None):
    """One concurrent execution: a base repo, some workers, one schedule."""
    from lib import conc, sched
    rng = random.Random(seed)
    w = make_world(rng, 'datastore', ndids=2, nkeys=5, nvals=3)
    w.rng = rng
    did, other = w.dids
    w.create(did, 1, cb='none')
    w.create(other, 2, cb='none')
    setup = [['create', k, rng.randint(1, 3)] for k in range(1, 6) if rng.random() < .5]
    if jobs is None:
        w.commit(did, 1, setup, cb='none')
    if rng.random() < .5:
        w.commit(other, 2, [['create', 3, 2]], cb='none')
    with w.context():
        repo = w.storage.load_repo(did)
        row = w.repo_row(repo)
        base = dict(c=w.contents(repo), head=row['head'], rev=row['seq'], status='active',
                    last=w.storage.sequences.last(w.storage_mod.SUBSCRIBE_REPOS_NSID),
                    older=[r[0] for r in w.block_rows() if w.blocks.rows[r[0] - 1]['kind'] == 'commit'])
    c = conc.Conc(w, sched.script(schedule) if schedule is not None else sched.any_policy(rng))
    c.points = points
    n = nworkers or rng.choice([2, 2, 3, 4])
    live = {k for k, _ in base['c']}
    for i in range(n):
        todo = []
        for _ in range(1 if schedule is not None else rng.choice([1, 1, 2])):
            if status and i == 0:
                todo.append(['status', rng.choice(['deactivate', 'activate', 'deactivate', 'tombstone']),
                             'record'])
                todo.append(['status', rng.choice(['activate', 'deactivate']), 'record'])
                continue
            ws = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.randint(1, 5)
                ws.append(rng.choice([['create', k, rng.randint(1, 3)],
                                      [rng.choice(['update', 'delete']) if k in live else 'create', k,
                                       rng.randint(1, 3)]]))
                if ws[-1][0] == 'delete':
                    ws[-1][2] = 0
            todo.append(['commit', ws, rng.choice([*['record'] * 7, 'none', 'raise'])])
            if rng.random() < .1:
                todo.append(['event', 'identity', 'record'])
        c.worker(f'w{i + 1}', did, jobs[i] if jobs else todo)
        if rng.random() < faults:
            c.faults[(f'w{i + 1}', rng.randint(1, 2), rng.randint(1, 16))] = \
                rng.choice(['denied', 'aborted', 'unavailable', 'crash'])
    c.run()
    ev = c.event(did, base)
    return w.trace(prop=prop, sorted=sorted(w.dids))[:1] + [ev]


def conc_coverage(ctx, traces):
    from collections import Counter
    n = Counter()
    for t in traces:
        for c in t[-1]['calls']:
            n[f"{c['op']}/{c['r']}{'/fault' if c['hit'] else ''}"] += 1
        n['chain'] += len(t[-1]['chain']) - 1
        n['scheduling steps'] += t[-1]['steps']
    ctx.extra['concurrent'] = dict(sorted(n.items()), executions=len(traces))


def run_conc(ctx, prop, n, **kw):
    traces = core.parallel(lambda i: conc_trace(f'{ctx.seed}-{prop}-conc-{i}', prop=prop, **kw), range(n))
    conc_coverage(ctx, traces)
    return traces


COMMIT_CFG = """SPECIFICATION Spec
INVARIANTS Inv Dump
{prop}
CONSTANTS
Workers = {{{workers}}}
Keys = {{1}}
Retries = {retries}
Faults = {faults}
Observers = {{"ok", "raise"}}
DumpOn = {dump}
"""


def commit_design(ctx):
    """The design model, exhaustively."""
    cfg = COMMIT_CFG.format(prop='PROPERTY Finishes', workers='"w1", "w2", "w3"' if ctx.thorough else '"w1", "w2"',
                            retries=1, faults=1, dump='FALSE').replace('Inv Dump', 'Inv')
    ctx.model('PdsCommit', cfg)


def commit_schedules(ctx):
    """Every complete behaviour of two workers in the model, as schedules for the real code;
    thorough: a sample of those of three."""
    dump = os.path.join(ctx.tmp, 'sched')
    cfg = COMMIT_CFG.format(prop='', workers='"w1", "w2"', retries=1, faults=0, dump='TRUE') \
        .replace('{"ok", "raise"}', '{"ok"}')
    ctx.model('PdsCommit', cfg, env=dict(DUMP=dump), workers=1)
    if ctx.thorough:
        ctx.model('PdsCommit', cfg.replace('"w1", "w2"', '"w1", "w2", "w3"').replace('Retries = 1', 'Retries = 2'),
                  env=dict(DUMP=dump), workers=1,
                  args=['-simulate', 'num=6000', '-depth', 30, '-seed', ctx.seed])
    out = {}
    for line in open(dump):
        x = json.loads(json.loads(line))
        out[json.dumps(x, sort_keys=True)] = x
    return list(out.values())


def replay_schedules(ctx, prop, scheds):
    def one(i):
        x = scheds[i]
        names = sorted(x['jobs'])
        jobs = [[['commit', [list(o) for o in x['jobs'][n]], 'record']] for n in names]
        tr = conc_trace(f'{ctx.seed}-{i}', nworkers=len(names), schedule=x['sched'], jobs=jobs,
                        points=('begin_transaction', 'commit'), prop=prop)
        got = {c['w']: c['r'] for c in tr[-1]['calls']}
        agree = all((x['res'][n] == 'ok') == (got[n] == 'ok') for n in names)
        return tr, agree
    res = core.parallel(one, range(len(scheds)))
    ctx.extra['model behaviours replayed'] = len(res)
    ctx.extra['replays with the outcome the model predicts'] = sum(a for _, a in res)
    return [t for t, _ in res]


def check_S06(ctx):
    commit_design(ctx)
    scheds = commit_schedules(ctx)
    traces = replay_schedules(ctx, 'S06', scheds)
    traces += run_conc(ctx, 'S06', ctx.pick(200, 6000), faults=.2)
    traces += run_conc(ctx, 'S06-status', ctx.pick(60, 2000), status=True)
    ctx.validate('PdsConc', traces, clauses={'S06'}, shards=8)
    ctx.sample(traces[0][-1])
