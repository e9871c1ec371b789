"""X01-X07: the XRPC interface, against spec/XrpcTrace.tla."""
import json
import os
import random

from lib import core, fakeds, mstlib  # noqa: F401
from lib.api import AUTH, Api, Archive, PASSWORD
from lib.world import World, key_for
from arroba import mst, datastore_storage  # noqa: F401
from harness.storage_checks import BAD_PATHS, BOTH

COLLS = ['com.ex.abc', 'com.ex.abcd', 'com.ex.ab', 'com.ex.abc.d', 'com.ex-x.abc', 'app.bsky.feed.post',
         'app.bsky.feed.postgate']
RKEYS = ['self', '-', '_', 'x-y', ':', 'A', 'zz', '3jzfcijpj2z2a', '3jzfcijpj2z2b', 'a.b', '0',
         'z', 'zzz', 'x', 'x-', '00', 'a', 'a.', 'a.b.c', '3jzfcijpj2z2']


def make_world(rng, backend, ndids=3, nkeys=8, nvals=4):
    colls = rng.sample(COLLS[:5], 2) + rng.sample(COLLS, 2)
    keys = set()
    while len(keys) < nkeys:
        coll = rng.choice(colls)
        keys.add(f'{coll}/{rng.choice(RKEYS)}' if rng.random() < .5 else
                 mstlib.key_with_layer(f'{coll}/{rng.choice("abcxyz")}', rng.choice([0, 0, 1, 2]), rng))
    records = [{'$type': 'com.ex.rec', 'n': 1, 'text': 'é☃\n"'}, {'x': [{}]},
               {'list': [1, None, True, {'b': b'\x00\xff', 'c': mstlib.cid_of(b'link')}], '$type': 'com.ex.abc'},
               {'$type': 'com.ex.other', 'nested': {'$type': 'x', 'd': []}}, {'x': ''}][:nvals]
    rng.shuffle(records)
    records += [{'$type': 'app.bsky.feed.like', 'createdAt': 'x'},
                rng.choice([{'$type': 'app.bsky.graph.follow', 'subject': 17},
                            {'$type': 'com.ex.big', 'x': 'y' * 1_000_001}])]
    dids = [f'did:web:u{i}.com' if i % 2 else f'did:plc:{"abcdefgh"[i] * 24}' for i in range(1, ndids + 1)]
    if rng.random() < .3:  # DIDs that are prefixes of each other
        dids = [f'did:web:u.co{"m" * i}' for i in range(ndids)]
        rng.shuffle(dids)
    return World(backend, keys=sorted(keys), records=records, dids=dids, badvals=[nvals + 1, nvals + 2],
                 batch=rng.choice([1, 2, 300]))


def histories(ctx, n, depth=12, weird=6, ndids=3, nkeys=8, nvals=4, nslots=3, st=8, maxbatch=4,
              api=60, auth=3, swap=3):
    dump = os.path.join(ctx.tmp, f'xgen-{depth}-{weird}-{ndids}')
    cfg = '\n'.join(['SPECIFICATION XSpec', 'INVARIANT Dump', 'CHECK_DEADLOCK FALSE', 'CONSTANTS',
                     f'NDids = {ndids}', f'NKeys = {nkeys}', f'NVals = {nvals}', 'NBad = 2',
                     f'NSlots = {nslots}', f'Depth = {depth}', f'Weird = {weird}', f'StPct = {st}',
                     'EvPct = 0', f'MaxBatch = {maxbatch}', f'ApiPct = {api}', f'AuthPct = {auth}',
                     f'SwapPct = {swap}', ''])
    res = core.tlc('XrpcGen', cfg, env=dict(DUMP=dump), workers=1,
                   args=['-simulate', f'num={n}', '-depth', depth + 3, '-seed', ctx.seed])
    ctx.states += res.generated
    ctx.transitions += res.generated
    out = []
    for line in open(dump):
        x = json.loads(line)
        out.append(json.loads(x) if isinstance(x, str) else x)
    return out


BAD_AUTH = [a for a in AUTH if a != 'ok']
UNKNOWN = 'did:web:nobody.com'


def step(w, api, op, rng):
    """One operation of a generated history; False if it cannot be played."""
    kind = op[0]
    if kind == 'x':
        _, m, d, k, v, how = op
        did = w.dids[d - 1] if d else UNKNOWN
        auth = rng.choice(BAD_AUTH) if how == 'auth' else 'ok'
        swap = rng.choice(['swapCommit', 'swapRecord'] if m == 'put' else ['swapCommit']) \
            if how == 'swap' else None
        bad = None
        if k == -2:
            k, bad = 0, rng.choice([p for p in BAD_PATHS if m != 'create' or '/' in p])
        elif k == -1:
            k = rng.randint(1, len(w.keys))
        elif k == 0:
            k = rng.choice(w.keys).split('/')[0]
        api.write(m, did, k, v, auth=auth, swap=swap, badpath=bad)
        return True
    did = w.dids[op[1] - 1]
    if kind == 'create':
        w.create(did, op[2], cb='none')
    elif kind == 'load':
        w.load(did, op[2])
        return False
    elif op[2] not in w.slots:
        return False
    elif kind == 'commit':
        w.commit(did, op[2], [[a, k if k else rng.choice(BAD_PATHS), v] for a, k, v in op[3]], cb='none')
    elif kind == 'status':
        w.status(did, op[2], op[3], cb='none')
    return True


def play(ctx, prop, hists, after, backends=BOTH, setup=None, end=None, world=None):
    """after(w, api, rng, i): queries between operations."""
    def one(job):
        i, backend = job
        rng = random.Random(f'{ctx.seed}-{prop}-{i}-{backend}')
        w = make_world(rng, backend, **(world or {}))
        api = Api(w, rng)
        if setup:
            setup(w, api, rng)
        for n, op in enumerate(hists[i]):
            if not step(w, api, op, rng):
                continue
            if not w.observe(full=False):
                break
            after(w, api, rng, n)
        if end:
            end(w, api, rng)
        return w.trace(prop=prop, sorted=sorted(w.dids))
    return core.parallel(one, [(i, b) for b in backends for i in range(len(hists))])


def validate(ctx, traces, props):
    from collections import Counter
    n = Counter()
    for t in traces:
        for e in t[1:]:
            n[f"{e['op']}/{e['m']}/{e['how']}/{e['code']}{e['err'] and ' ' + e['err']}" if e['op'] == 'x'
              else e['op']] += 1
    ctx.extra['operations'] = dict(sorted(n.items()))
    ctx.sample(dict(trace=[{k: v for k, v in e.items() if k not in ('blocks', 'log', 'blk', 'repos', 'x')}
                           for e in traces[0][1:8]]))
    return ctx.validate('XrpcTrace', traces, clauses=props, shards=8, spec='XSpec')


def some_did(w, rng, unknown=.05):
    return UNKNOWN if rng.random() < unknown else rng.choice(w.dids)


def known_ids(w):
    return sorted(w.blocks.ids.values())


def check_X01(ctx):
    hists = histories(ctx, ctx.pick(60, 800), depth=ctx.pick(10, 20), api=30, st=8)

    def after(w, api, rng, i):
        for _ in range(2):
            did = some_did(w, rng)
            api.export(did, rng.choice(['getRepo', 'getRepo', 'getCheckout']))
        last = w.storage.sequences.last(w.storage_mod.SUBSCRIBE_REPOS_NSID) or 0
        api.export(some_did(w, rng), since=rng.randint(0, last + 1))
    traces = play(ctx, 'X01', hists, after)

    def many(w, api, rng):
        """More records and nodes than the Datastore looks up at once."""
        if w.fake:
            w.fake.batch = 300
        w.create(w.dids[0], 1, cb='none')
        w.observe(full=False)
        did = imported(w, api, rng, 0, more=1100).did
        w.observe(full=False)
        w.load(did, 'imp')
        w.status(did, 'imp', 'activate', cb='none')
        w.observe(full=False)
        w.commit(did, 'imp', [['create', w.blocks.key(f'com.ex.n/n{k}'), 1] for k in range(3)], cb='none')
        w.observe(full=False)
        for limit in (None, 900, 77):
            if w.fake:
                w.fake.max_lookup = limit
            elif limit:
                continue
            api.export(did)
            api.export(did, since=rng.randint(0, 3))
        if w.fake:
            w.fake.max_lookup = None
    traces += play(ctx, 'X01', [[]], lambda *a: None, end=many)
    validate(ctx, traces, {'X01'})


ODD_CIDS = ['', 'x', 'bafy', 'bafyreigh2akiscaildc', 'Qm', 'zzzz', 'b', '!!!', 'bafyrei' + '1' * 52,
            'B' * 59, 'u' * 59, 'f00', 'k' * 62, 'bafyreie5cvv4h45feadgeuwhbcutmh6t2ceseocckahdoe6uat64zmz454é',
            'QmYwAPJzv5CZsnA625s3Xf2nemtYgPpHdWEz79ojWnPbdg'[:-1]]


def check_X02(ctx):
    hists = histories(ctx, ctx.pick(60, 800), depth=ctx.pick(10, 20), api=30, st=5)

    def after(w, api, rng, i):
        for _ in range(3):
            api.proof(some_did(w, rng, .03), rng.randint(1, len(w.keys)))
        for _ in range(2):
            ids = [i for i in known_ids(w) if i in w.blocks.raw]
            want = rng.sample(ids, rng.randint(0, min(6, len(ids))) if rng.random() < .8 else len(ids))
            if rng.random() < .2:
                want.insert(rng.randint(0, len(want)), rng.choice([0, *known_ids(w)]))
            if rng.random() < .2 and want:
                want.append(rng.choice(want))
            api.get_blocks(some_did(w, rng, .03), want,
                           odd=rng.choice(ODD_CIDS) if rng.random() < .15 else None)

    def setup(w, api, rng):
        if rng.random() < .15:
            imported(w, api, rng, 0, more=60)
            w.observe(full=False)
    traces = play(ctx, 'X02', hists, after, setup=setup)
    validate(ctx, traces, {'X02'})


def check_X04(ctx):
    hists = histories(ctx, ctx.pick(60, 800), depth=ctx.pick(12, 24), api=75, auth=60, swap=0, st=5)

    def after(w, api, rng, i):
        live = [e['did'] for e in w.ev if e['op'] == 'create']
        api.guarded(rng.choice(['applyWrites', 'uploadBlob', 'getSession', 'refreshSession']),
                    rng.choice(live), rng.choice([*BAD_AUTH, 'ok', 'ok']))
        if rng.random() < .5:
            api.session(rng.choice([*live, UNKNOWN]), rng.choice(
                [PASSWORD, PASSWORD, 'nope', '', PASSWORD + 'x', PASSWORD[:-1], 'towkin', 'unconfigured',
                 'emptyconf']))
        if rng.random() < .3:
            a = archive(w, rng, f'did:web:imp{i}.com')
            api.import_repo(a, auth=rng.choice(BAD_AUTH))
        w.observe(full=False)
    traces = play(ctx, 'X04', hists, after)
    validate(ctx, traces, {'X04'})


def check_X05(ctx):
    hists = histories(ctx, ctx.pick(80, 1000), depth=ctx.pick(14, 30), api=80, st=5, weird=10)

    def after(w, api, rng, i):
        for _ in range(3):
            api.get_record(some_did(w, rng, .03), rng.randint(1, len(w.keys)))
        if rng.random() < .1:
            api.restrict(rng.choice([None, None, rng.sample(COLLS, 3)]))
        if rng.random() < .05:
            a = imported(w, api, rng, i)
            if w.ev[-1]['code'] == 200:
                w.observe(full=False)
                w.load(a.did, 'imp')
                w.status(a.did, 'imp', 'activate', cb='none')
                w.observe(full=False)
                for k in rng.sample(range(1, len(w.keys) + 1), min(5, len(w.keys))):
                    api.get_record(a.did, k)
                    api.write(rng.choice(['put', 'delete']), a.did, k, rng.randint(1, 4))
                    w.observe(full=False)
                    api.get_record(a.did, k)
    traces = play(ctx, 'X05', hists, after)
    validate(ctx, traces, {'X05'})


def check_X06(ctx):
    hists = histories(ctx, ctx.pick(60, 800), depth=ctx.pick(12, 24), api=40, st=3, maxbatch=8, weird=3)

    def setup(w, api, rng):
        if w.backend == 'datastore' and rng.random() < .9:
            urls = {rng.choice(['http://x/', 'http://x/a', 'https://y?']) + rng.choice(['', '1', '12', '123', '9', '7x'])
                    + rng.choice(['', '', str(i)]) for i in range(rng.randint(1, 9))}
            for i, url in enumerate(rng.sample(sorted(urls), len(urls))):
                api.add_blob(url,
                             rng.sample(w.dids, rng.choice([0, 1, 1, 2, 3])),
                             rng.choice([None, 1, 2, 3, 4, i + 10, i + 10]),
                             rng.choice([None, None, 'inactive']))

    def after(w, api, rng, i):
        did = some_did(w, rng, .02)
        for _ in range(2):
            coll = rng.choice([k.split('/')[0] for k in w.keys] + COLLS)
            api.list_records(did, coll, rng.choice([None, 1, 1, 2, 3, 5, 100]))
        if rng.random() < .6:
            api.list_repos(rng.choice([None, 1, 1, 2, 3, 100]))
        if w.backend == 'datastore' and rng.random() < .6:
            api.list_blobs(some_did(w, rng, .02), rng.choice([None, 1, 1, 2, 3, 100]))
        if rng.random() < .05:
            api.restrict(rng.choice([None, rng.sample(COLLS, 3)]))
    traces = play(ctx, 'X06', hists, after, setup=setup, world=dict(ndids=4) if 0 else None)

    def many(w, api, rng):
        """More records than a page holds by default."""
        did = w.dids[0]
        w.create(did, 1, cb='none')
        w.observe(full=False)
        coll = w.keys[0].split('/')[0]
        ids = [w.blocks.key(f'{coll}/m{i}') for i in range(130)]
        w.commit(did, 1, [['create', k, 1 + k % 4] for k in ids], cb='none')
        w.observe(full=False)
        for limit in (None, 50, 7, 100, 65, 1):
            api.list_records(did, coll, limit)
    traces += play(ctx, 'X06', [[]], lambda *a: None, end=many)
    validate(ctx, traces, {'X06'})


def check_X07(ctx):
    hists = histories(ctx, ctx.pick(70, 800), depth=ctx.pick(12, 24), api=40, st=25, weird=3)

    def setup(w, api, rng):
        if w.backend == 'datastore':
            api.add_blob('http://x/a', w.dids, 1)

    def after(w, api, rng, i):
        did = some_did(w, rng, .08)
        w.handles.setdefault(UNKNOWN, 'nobody.com')
        k = rng.randint(1, len(w.keys))
        calls = [lambda: api.head_of(did, 'getHead'), lambda: api.head_of(did, 'getLatestCommit'),
                 lambda: api.status(did), lambda: api.describe(did), lambda: api.list_repos(rng.choice([1, 2, 100])),
                 lambda: api.get_record(did, k), lambda: api.list_records(did, w.keys[k - 1].split('/')[0], 5),
                 lambda: api.export(did, rng.choice(['getRepo', 'getCheckout'])), lambda: api.proof(did, k),
                 lambda: api.get_blocks(did, rng.sample(known_ids(w), 1))]
        if w.backend == 'datastore':
            calls += [lambda: api.list_blobs(did, 5),
                      lambda: api.get_blob(did, rng.choice(api.blobs)['cid'])]
        for c in rng.sample(calls, 7):
            c()
        if rng.random() < .15:
            imported(w, api, rng, i)
            w.observe(full=False)
            api.list_repos(3)
    traces = play(ctx, 'X07', hists, after, setup=setup)
    validate(ctx, traces, {'X07'})


# -- import -------------------------------------------------------------------------------------
def archive(w, rng, did, what='good', more=0):
    """An archive; what: how it is broken; more: how many extra records."""
    keys = rng.sample(w.keys, rng.randint(0 if what == 'good' else 1, min(8, len(w.keys))))
    contents = {k: {'$type': 'com.ex.imp', 'n': rng.randint(0, 3), 'of': did} for k in keys}
    if rng.random() < .3 and what == 'good' and contents:
        contents[keys[0]] = rng.choice(w.records[:4])
    if rng.random() < .3 and contents:
        contents[keys[-1]] = {}          # an empty record is a record
    for i in range(more):
        contents[f'com.ex.n/m{i}'] = {'$type': 'com.ex.n', 'n': i}
    signer = key_for(('old', did))
    handle = rng.choice([f'{did[-8:-4]}.imported.com', f'h{rng.randint(0, 99)}.net'])
    a = Archive(did, handle, contents, signer, what=what)
    if what == 'signature':
        a = Archive(did, handle, contents, key_for('someone else'), dockey=signer.public_key(), what=what)
    elif what == 'high-s':
        pass
    elif what == 'no-root':
        a.roots = []
    elif what == 'root-absent':
        a.drop(a.head)
    elif what == 'root-other':
        a.roots = [rng.choice([a.root, a.records[0], mstlib.cid_of(b'nothing')])]
    elif what == 'node-missing':
        a.drop(rng.choice(a.nodes))
    elif what == 'record-missing':
        a.drop(rng.choice(a.records))
    elif what == 'bad-bytes':
        i = rng.randrange(len(a.blocks))
        c, d = a.blocks[i]
        a.blocks[i] = (c, d[:-1] + bytes([d[-1] ^ 1]))
    elif what == 'no-key':
        a.dockey = None
    elif what in ('extra', 'shuffled', 'two-roots'):
        import dag_cbor
        if what == 'extra':
            d = dag_cbor.encode({'extra': rng.random()})
            a.blocks.insert(rng.randint(0, len(a.blocks)), (mstlib.cid_of(d), d))
        if what == 'two-roots':
            a.roots = [a.head, a.root]
        rng.shuffle(a.blocks)
    api_doc = {'id': did, 'alsoKnownAs': [f'at://{handle}'], 'verificationMethod': []}
    from lib.api import did_key
    if a.dockey is not None:
        api_doc['verificationMethod'] = [{'id': f'{did}#atproto', 'type': 'Multikey', 'controller': did,
                                          'publicKeyMultibase': did_key(a.dockey)}]
    if what == 'doc-names':
        api_doc['alsoKnownAs'], a.handle, a.named = rng.choice([
            (['at://[bad'], None, False), ([f'at://[{handle}', f'at://{handle}'], None, False), ([5], None, False),
            (None, None, False), ([None, f'at://{handle}'], None, False), (['at://'], None, False),
            ([], None, True), (['https://other.com/', f'at://{handle}', 'at://second.com'], handle, True)])
    if what == 'no-names':
        del api_doc['alsoKnownAs']
        a.handle = None
    if what == 'doc-fails':
        import requests
        api_doc = requests.ConnectionError('down')
        a.dockey = None
    if what == 'other-key-id':
        api_doc['verificationMethod'][0]['id'] = f'{did}#other'
        a.dockey = None
    w.handles.setdefault(did, a.handle or '')
    a.doc = api_doc
    return a


BROKEN = ['signature', 'no-root', 'root-absent', 'root-other', 'node-missing', 'record-missing', 'bad-bytes',
          'no-key', 'doc-fails', 'other-key-id', 'doc-names', 'doc-names']


def imported(w, api, rng, i, what='good', did=None, auth='ok', more=0):
    did = did or rng.choice([f'did:web:imp{i}.com', 'did:plc:' + rng.choice('abcdefgh') * 20 + 'mnop'])
    if did not in w.dids:
        w.dids.append(did)
    a = archive(w, rng, did, what, more)
    api.import_repo(a, auth=auth)
    return a


def check_X03(ctx):
    hists = histories(ctx, ctx.pick(60, 900), depth=ctx.pick(8, 16), api=40, st=8, weird=3)

    def after(w, api, rng, i):
        if rng.random() < .45:
            return
        r = rng.random()
        made = [e['did'] for e in w.ev if e['op'] == 'x' and e['m'] == 'import' and e['code'] == 200]
        if r < .15:        # one that exists already
            imported(w, api, rng, i, did=rng.choice([e['did'] for e in w.ev if e['op'] == 'create'] + made))
            w.observe(full=False)
            return
        what = rng.choice(BROKEN) if r < .6 else rng.choice(['good', 'good', 'extra', 'shuffled', 'two-roots', 'no-names'])
        auth = rng.choice(BAD_AUTH) if rng.random() < .08 else 'ok'
        a = imported(w, api, rng, i, what=what, auth=auth, more=rng.choice([0] * 9 + [35, 70]))
        if not w.observe(full=False) or w.ev[-2]['code'] != 200:
            return
        api.export(a.did)
        api.status(a.did)
        slot = f'imp{i}'
        w.load(a.did, slot)
        w.commit(a.did, slot, [['create', 1, 1]], cb='none')
        w.observe(full=False)
        if rng.random() < .8:
            w.status(a.did, slot, 'activate', cb='none')
            w.observe(full=False)
            w.load(a.did, slot)
            c = {k for k, _ in next(r for r in w.ev[-1]['repos'] if r['did'] == a.did)['c']}
            for _ in range(2):
                k = rng.randint(1, len(w.keys))
                w.commit(a.did, slot, [['delete', k, 0] if k in c else ['create', k, rng.randint(1, 4)]], cb='none')
                c ^= {k}
                w.observe(full=False)
            api.export(a.did)
    traces = play(ctx, 'X03', hists, after)
    validate(ctx, traces, {'X03'})
