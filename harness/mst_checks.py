"""M01-M04: the Merkle search tree and its diff, against spec/MST*.tla."""
import bisect
import json
import logging
import os
import random
from hashlib import sha256

import dag_cbor

from lib import core, mstlib
from lib.core import h8
from lib.mstlib import NodeTable

logging.disable(logging.CRITICAL)


def values(n):
    return [mstlib.cid_of(dag_cbor.encode({'value': i})) for i in range(n)]


class Session:
    """Drives real trees over one key universe and records a trace."""

    def __init__(self, keys, nvals=4):
        from arroba import mst, storage, diff
        self.mst, self.storage_mod, self.diff = mst, storage, diff
        self.keys = keys
        self.vals = values(nvals)
        self.storage = storage.MemoryStorage()
        self.table = NodeTable(keys, self.vals)
        self.trees = [mst.MST.create(storage=self.storage)]
        self.observed = {}
        self.saved = set()    # versions whose nodes are all in storage
        self.ev = []

    def log(self, **ev):
        self.ev.append(ev)

    def trace(self):
        n = len(self.keys)
        hdr = dict(op='init', lay=[mstlib.layer_of(k) for k in self.keys],
                   lcp=[[mstlib.lcp(a, b) for b in self.keys] for a in self.keys] if n <= 40
                   else self.sparse_lcp(),
                   nodes=self.table.nodes, badnodes=sorted(set(self.table.bad)))
        return [hdr] + self.ev

    def sparse_lcp(self):
        return [[mstlib.lcp(a, b) for b in self.keys] for a in self.keys]

    def pos(self, q):
        i = bisect.bisect_left(self.keys, q)
        if i < len(self.keys) and self.keys[i] == q:
            return 2 * (i + 1)
        return 2 * i + 1

    def leaves(self, it):
        out = []
        for e in it:
            out.append([self.table.keyid.get(e.key, 0), self.table.val(e.value)])
        return out

    def call(self, prop, fn):
        try:
            with core.time_limit(60):
                return fn()
        except core.Hang as e:
            self.log(op='raised', prop=prop, exc='Hang')
        except Exception as e:
            self.log(op='raised', prop=prop, exc=f'{type(e).__name__}: {e}'[:200])
        return None

    # -- operations --------------------------------------------------------------------
    def edit(self, ver, op, key, v):
        tree = self.trees[ver - 1]
        k = self.table.keyid.get(key, 0)
        new = None
        try:
            with core.time_limit(60):
                if op == 'add':
                    new = tree.add(key, self.vals[v - 1])
                elif op == 'update':
                    new = tree.update(key, self.vals[v - 1])
                else:
                    new = tree.delete(key)
            r = 'ok'
        except (KeyError, ValueError):
            r = 'rejected'
        except (Exception, core.Hang) as e:
            r = f'{type(e).__name__}'
        self.log(op=op, ver=ver, k=k, v=v, r=r, key=key)
        if r == 'ok':
            self.trees.append(new)
            return len(self.trees)
        return ver

    def reader(self, tree):
        _, blocks = tree.get_unstored_blocks()
        unstored = {b.cid: bytes(b.encoded) for b in blocks.values()}

        def read(cid):
            if cid in unstored:
                return unstored[cid]
            b = self.storage.read(cid)
            return bytes(b.encoded) if b else None
        return read

    def observe(self, ver):
        tree = self.trees[ver - 1]

        def fn():
            # two ways of looking: the pointer, then every block below it
            root = tree.get_pointer()
            return self.table.add(root, self.reader(tree))
        id = self.call('M01', fn)
        if id is not None:
            self.log(op='observe', ver=ver, root=id)
            self.observed[ver] = id

    def need(self, ver):
        if ver not in self.observed:
            self.observe(ver)

    def reread(self, ver):
        tree = self.trees[ver - 1]
        r = self.call('M02', lambda: self.leaves(tree.list()))
        if r is not None:
            self.log(op='reread', ver=ver, r=r)

    def save(self, ver):
        self.need(ver)
        tree = self.trees[ver - 1]

        def fn():
            n = len(self.storage.blocks)
            root, blocks = tree.get_unstored_blocks()
            wrote = len(self.storage.blocks) != n
            allhash = all(mstlib.cid_of(bytes(b.encoded)) == cid == b.cid for cid, b in blocks.items())
            self.table.add(root, self.reader(tree))
            ids = [self.table.ids.get(c, -1) for c in blocks]
            return dict(blocks=ids, root=self.table.ids.get(root, -1), wrote=wrote, allhash=allhash), blocks
        got = self.call('M04', fn)
        if got:
            ev, blocks = got
            self.log(op='unstored', ver=ver, **ev)
            for b in blocks.values():
                b.seq = 1
            self.storage.write_blocks(blocks.values())
            self.saved.add(ver)

    def reload(self, ver):
        if ver not in self.saved:
            self.save(ver)
        tree = self.trees[ver - 1]
        # a reader that only has what was persisted
        fresh = self.storage_mod.MemoryStorage()
        fresh.blocks = dict(self.storage.blocks)

        def fn():
            probe = self.mst.MST.load(storage=fresh, cid=tree.get_pointer())
            r = self.leaves(probe.list())
            return r, self.table.ids.get(probe.get_pointer(), -1)
        got = self.call('M04', fn)
        self.log(op='reload', ver=ver, ok=got is not None, r=got[0] if got else [],
                 root=got[1] if got else 0)
        self.trees.append(self.mst.MST.load(storage=self.storage, cid=tree.get_pointer()))
        new = len(self.trees)
        if ver in self.observed:
            self.observed[new] = self.observed[ver]
        self.saved.add(new)
        return new

    def queries(self, ver, rng, n=3):
        tree = self.trees[ver - 1]

        def q():
            r = rng.random()
            k = rng.choice(self.keys)
            if r < .5:
                return k
            if r < .7:
                return k + rng.choice(['', '0', '~', '!'])
            if r < .85:
                return k[:rng.randint(1, len(k))]
            return rng.choice(['!', '~', 'a', 'app.bsky.feed.post/', k.split('/')[0] + '/', k.split('/')[0] + '0'])

        for _ in range(n):
            what = rng.choice(['get', 'list', 'walk', 'prefix', 'leaves', 'count', 'path', 'before', 'after'])
            if what == 'get':
                k = rng.choice(self.keys)
                r = self.call('M02', lambda: [self.table.val(tree.get(k))])
                if r is not None:
                    self.log(op='get', ver=ver, k=self.table.keyid[k], r=r[0])
            elif what in ('list', 'before', 'after'):
                a, b = q(), q()
                if what == 'before':
                    a = None
                elif what == 'after':
                    b = None
                elif a > b and rng.random() < .9:
                    a, b = b, a
                r = self.call('M02', lambda: self.leaves(tree.list(after=a, before=b)))
                if r is not None:
                    self.log(op='range', what='list', ver=ver, lo=self.pos(a) if a else 0, incl=False,
                             hi=self.pos(b) if b else 0, r=r)
            elif what == 'walk':
                a = q()
                r = self.call('M02', lambda: self.leaves(tree.walk_leaves_from(a)))
                if r is not None:
                    self.log(op='range', what='walk', ver=ver, lo=self.pos(a), incl=True, hi=0, r=r)
            elif what == 'prefix':
                a = q()
                r = self.call('M02', lambda: self.leaves(tree.list_with_prefix(a)))
                if r is not None:
                    self.log(op='prefix', ver=ver, r=r,
                             match=[i + 1 for i, k in enumerate(self.keys) if k.startswith(a)])
            elif what == 'leaves':
                r = self.call('M02', lambda: self.leaves(tree.leaves()))
                if r is not None:
                    self.log(op='range', what='leaves', ver=ver, lo=0, incl=True, hi=0, r=r)
            elif what == 'count':
                r = self.call('M02', lambda: tree.leaf_count())
                if r is not None:
                    self.log(op='count', ver=ver, r=r)
            elif what == 'path':
                self.need(ver)
                k = rng.choice(self.keys)

                def fn():
                    cids = list(tree.cids_for_path(k))
                    v = 0
                    if cids and cids[-1] in self.table.valid:
                        v = self.table.val(cids.pop())
                    return dict(nodes=[self.table.ids.get(c, -1) for c in cids], v=v)
                r = self.call('M02', fn)
                if r is not None:
                    self.log(op='path', ver=ver, k=self.table.keyid[k], **r)

    def do_diff(self, cur, prev, lazy=0):
        self.need(cur)
        if prev:
            self.need(prev)
        tcur = self.trees[cur - 1]
        tprev = self.trees[prev - 1] if prev else None
        if lazy & 1 and cur in self.saved:
            tcur = self.mst.MST.load(storage=self.storage, cid=tcur.get_pointer())
        if lazy & 2 and prev in self.saved:
            tprev = self.mst.MST.load(storage=self.storage, cid=tprev.get_pointer())

        def fn():
            d = self.diff.Diff.of(tcur, tprev)
            K, V = (lambda k: self.table.keyid.get(k, 0)), self.table.val
            ids = lambda cs: sorted(self.table.ids.get(c, -1) for c in cs)
            new = set(d.new_cids)
            return dict(adds=[[K(c.key), V(c.cid)] for c in d.adds.values()],
                        updates=[[K(c.key), V(c.prev), V(c.cid)] for c in d.updates.values()],
                        deletes=[[K(c.key), V(c.cid)] for c in d.deletes.values()],
                        newnodes=ids(c for c in new if c not in self.table.valid),
                        newvals=sorted(V(c) for c in new if c in self.table.valid),
                        removed=sorted(ids(c for c in d.removed_cids if c not in self.table.valid)
                                       + [-2 for c in d.removed_cids if c in self.table.valid]))
        r = self.call('M03', fn)
        if r is not None:
            self.log(op='diff', cur=cur, prev=prev, **r)


BAD_KEYS = ['', 'nope', '/', 'a/', '/b', 'a/b/c', 'a.b/caf\u00e9', 'a.b/sp ace', 'a.b/x#', 'a.b/@x', 'a.b/' + 'x' * 300,
            'a.b/x~', 'a b/x', 'a.b/x\n', 'a.b/(x)', 'a.b/' + 'k' * 253]


def contents_of(s, ver):
    """Driver-side bookkeeping of which keys are live (only steers generation)."""
    return s.live[ver]


def random_session(seed, focus, nkeys, steps, keys=None):
    """A seeded random history; focus weights which observations are taken."""
    rng = random.Random(seed)
    if keys is None:
        if rng.random() < .5 and nkeys <= 26:
            mx = rng.choice([1, 2, 3, 5])
            keys = mstlib.layered_keys([rng.randint(0, mx) for _ in range(nkeys)], rng)
        else:
            keys = mstlib.random_keys(rng, nkeys)
    s = Session(keys)
    s.live = {1: set()}
    ver = 1
    grow = rng.uniform(.3, .8)
    for _ in range(steps):
        if rng.random() < .05:
            grow = rng.choice([.1, .3, .5, .7, .95])
        live = s.live[ver]
        r = rng.random()
        if r < .03:
            op, key = rng.choice(['add', 'update', 'delete', 'add']), rng.choice(BAD_KEYS)
            if key in keys:
                continue
        elif r < .08:
            op, key = rng.choice(['add', 'update', 'delete']), rng.choice(keys)
        elif r < .25 and live:
            op, key = 'update', rng.choice(sorted(live))
        elif rng.random() < grow and len(live) < len(keys):
            op, key = 'add', rng.choice(sorted(set(keys) - live))
        elif live:
            op, key = 'delete', rng.choice(sorted(live))
        else:
            op, key = 'add', rng.choice(keys)
        v = rng.randint(1, len(s.vals))
        new = s.edit(ver, op, key, v)
        if new != ver:
            s.live[new] = set(live) | {key} if op == 'add' else set(live) - {key} if op == 'delete' else set(live)
            ver = new
        if rng.random() < focus.get('observe', .3):
            s.observe(ver)
        if rng.random() < focus.get('reread', .1):
            s.reread(rng.randint(1, len(s.trees)))
        if rng.random() < focus.get('save', .15):
            s.save(ver)
            if rng.random() < .3:
                s.save(ver)      # nothing left to store
        if rng.random() < focus.get('reload', .1):
            new = s.reload(ver)
            s.live[new] = s.live[ver]
            ver = new
        if rng.random() < focus.get('queries', .2):
            s.queries(rng.choice([ver, ver, rng.randint(1, len(s.trees))]), rng, 4)
        if rng.random() < focus.get('diff', .05):
            a = ver if rng.random() < .6 else rng.randint(1, len(s.trees))
            b = rng.choice([0, 1, max(1, ver - 1), max(1, ver - rng.randint(1, 6)), rng.randint(1, len(s.trees))])
            s.do_diff(a, b, rng.randint(0, 3))
        if rng.random() < .05:   # branch off an older version
            ver = rng.randint(max(1, len(s.trees) - 10), len(s.trees))
    s.observe(ver)
    for v in rng.sample(range(1, len(s.trees) + 1), min(len(s.trees), focus.get('finale', 10))):
        s.observe(v)
        s.reread(v)
    return s.trace()


FOCUS = {
    'M01': dict(observe=.6, save=.1, reload=.1, queries=0, diff=0, reread=.02),
    'M02': dict(observe=.05, save=.1, reload=.1, queries=1, diff=0, reread=.3, finale=30),
    'M03': dict(observe=0, save=.2, reload=.15, queries=0, diff=1, reread=0, finale=0),
    'M04': dict(observe=.05, save=.5, reload=.3, queries=0, diff=0, reread=.05, finale=3),
}


def _rs(args):
    return random_session(*args)


def dump_states(ctx, N, K, vals):
    """All (layers, contents) states of the design spec with their canonical tree."""
    path = os.path.join(ctx.tmp, f'dump-{N}-{K}.txt')
    res = ctx.model('MSTAlgo', f'''SPECIFICATION Spec
CONSTANTS
 N = {N}
 K = {K}
 Vals = {{{','.join(map(str, vals))}}}
 ForgetLayerWhenEmpty = TRUE
INVARIANT Inv
INVARIANT Dump
CHECK_DEADLOCK FALSE
''', env={'DUMP': path})
    by = {}
    with open(path) as f:
        for line in f:
            d = json.loads(line)
            if isinstance(d, str):
                d = json.loads(d)
            c = tuple(tuple(x) for x in d['ks'])
            by.setdefault(tuple(d['lay']), {})[c] = d['tree']
    return by


def _replay(args):
    """Replays every transition of the spec's state graph for one layer assignment."""
    lay, states, vals, seed = args
    from arroba import mst, storage
    keys = mstlib.layered_keys(lay)
    vcids = values(max(vals))
    expect = {c: mstlib.encode_canonical(t, keys, vcids) for c, t in states.items()}
    store = storage.MemoryStorage()
    rng = random.Random(seed)
    bad = []
    done = 0
    mem = {(): mst.MST.create(storage=store)}
    queue = [()]
    while queue:
        c = queue.pop(rng.randrange(len(queue)))
        for b_cid, data in expect[c][1].items():
            store.blocks[b_cid] = storage.Block(cid=b_cid, encoded=data, seq=1)
        d = dict(c)
        ops = []
        for k in range(1, len(lay) + 1):
            if k in d:
                ops.append(('delete', k, 0))
                ops += [('update', k, v) for v in vals if v != d[k]]
            else:
                ops += [('add', k, v) for v in vals]
        for op, k, v in ops:
            d2 = dict(d)
            if op == 'delete':
                del d2[k]
            else:
                d2[k] = v
            c2 = tuple(sorted(d2.items()))
            want = expect[c2][0]
            for how in ('memory', 'stored'):
                tree = mem[c] if how == 'memory' else mst.MST.load(storage=store, cid=expect[c][0])
                try:
                    if op == 'add':
                        new = tree.add(keys[k - 1], vcids[v - 1])
                    elif op == 'update':
                        new = tree.update(keys[k - 1], vcids[v - 1])
                    else:
                        new = tree.delete(keys[k - 1])
                    got = new.get_pointer()
                except Exception as e:
                    bad.append(dict(lay=lay, contents=c, op=op, k=k, v=v, how=how,
                                    got=f'{type(e).__name__}: {e}'))
                    continue
                done += 1
                if got != want:
                    bad.append(dict(lay=lay, contents=c, op=op, k=k, v=v, how=how, keys=keys,
                                    got=str(got), want=str(want)))
                if how == 'memory' and c2 not in mem:
                    mem[c2] = new
                    queue.append(c2)
            if len(bad) > 5:
                return bad, done
    return bad, done


def check_M01(ctx):
    for N, K, vals in ctx.pick([(4, 2, [1]), (3, 3, [1, 2])],
                               [(4, 3, [1, 2]), (5, 2, [1]), (6, 1, [1]), (3, 5, [1, 2])]):
        by = dump_states(ctx, N, K, vals)
        items = [(lay, st, vals, ctx.seed) for lay, st in by.items()]
        n = 0
        for bad, done in core.parallel(_replay, items):
            n += done
            for b in bad[:2]:
                ctx.violation(f'M01.canonical: {b["op"]} key {b["k"]} layers {list(b["lay"])} ({b["how"]} tree)', b)
        ctx.traces += sum(len(st) for st in by.values())
        ctx.extra['replayed_edits'] = ctx.extra.get('replayed_edits', 0) + n
    sessions(ctx, 'M01', ctx.pick(64, 600))
    big_sessions(ctx, 'M01', ctx.pick(8, 40))


def sessions(ctx, prop, count):
    args = []
    rng = random.Random(f'{ctx.seed}-{prop}')
    for i in range(count):
        nkeys = rng.choice([2, 3, 5, 8, 12, 20, 26])
        args.append((f'{ctx.seed}-{prop}-{i}', FOCUS[prop], nkeys, rng.choice([15, 40, 60])))
    traces = core.parallel(_rs, args)
    for t in traces:
        ctx.sample(t[1:5])
    ctx.validate('MSTTrace', traces, clauses={prop})


def big_sessions(ctx, prop, count):
    focus = {k: (v / 4 if k in ('observe', 'reread', 'diff', 'save', 'queries') else v)
             for k, v in FOCUS[prop].items()}
    args = [(f'{ctx.seed}-{prop}-big{i}', focus, ctx.pick(150, 250), ctx.pick(250, 500))
            for i in range(count)]
    traces = core.parallel(_rs, args)
    ctx.validate('MSTTrace', traces, clauses={prop}, shards=8)


def check_M02(ctx):
    design(ctx)
    sessions(ctx, 'M02', ctx.pick(150, 1500))
    big_sessions(ctx, 'M02', ctx.pick(8, 40))


def design(ctx):
    dump_states(ctx, *ctx.pick((3, 2, [1, 2]), (4, 2, [1, 2])))


def check_M03(ctx):
    design(ctx)
    sessions(ctx, 'M03', ctx.pick(150, 1500))
    big_sessions(ctx, 'M03', ctx.pick(8, 40))


def check_M04(ctx):
    design(ctx)
    sessions(ctx, 'M04', ctx.pick(150, 1500))
    big_sessions(ctx, 'M04', ctx.pick(8, 40))
