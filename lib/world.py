"""Drives the real PDS storage layer (Repo, MemoryStorage, DatastoreStorage) and records
traces of what it does, in the vocabulary of spec/Pds.tla.

Nothing is judged here: blocks are decoded with dag_cbor, hashes and signatures are checked
with hashlib/cryptography, and everything else is left to the trace specification.
"""
import contextlib
from hashlib import sha256
import logging
import random

import dag_cbor
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
from multiformats import CID

from . import core, mstlib
from .mstlib import cid_of

logging.disable(logging.CRITICAL)

S32 = '234567abcdefghijklmnopqrstuvwxyz'
ORDER = {
    'secp256k1': 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141,
    'secp256r1': 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
}
NODE_KEYS = {'l', 'e'}
COMMIT_KEYS = {'version', 'did', 'rev', 'prev', 'data', 'sig'}
EVENT_PREFIX = 'com.atproto.sync.subscribeRepos#'


def tid_num(tid):
    """(number, clock id) of a TID string, or None if it is not one."""
    if not isinstance(tid, str) or len(tid) != 13 or any(c not in S32 for c in tid):
        return None
    n = 0
    for c in tid:
        n = n * 32 + S32.index(c)
    return n >> 10, n & 1023


def sig_ok(commit, pubkey):
    """Independent check of a commit's (or operation's) raw 64-byte low-S signature."""
    sig = commit.get('sig')
    if not isinstance(sig, bytes) or len(sig) != 64:
        return False
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if not 0 < s <= ORDER[pubkey.curve.name] // 2:
        return False
    unsigned = {k: v for k, v in commit.items() if k != 'sig'}
    try:
        pubkey.verify(encode_dss_signature(r, s), dag_cbor.encode(unsigned),
                      ec.ECDSA(hashes.SHA256()))
        return True
    except InvalidSignature:
        return False


_KEYS = {}


def key_for(name):
    """A deterministic secp256k1 private key."""
    if name not in _KEYS:
        n = int.from_bytes(sha256(repr(name).encode()).digest(), 'big') % (ORDER['secp256k1'] - 1) + 1
        _KEYS[name] = ec.derive_private_key(n, ec.SECP256K1())
    return _KEYS[name]


class Fault(Exception):
    """Injected failure."""


class Crash(BaseException):
    """Injected process death."""


class Blocks:
    """Ids for blocks: record values first (1..nv), everything else as it turns up."""

    def __init__(self, keys, records, pubkeys):
        self.keys = list(keys)
        self.keyid = {k: i + 1 for i, k in enumerate(self.keys)}
        self.pubkeys = pubkeys       # did -> public key
        self.dynamic = False         # give unknown keys ids as they turn up
        self.ids = {}
        self.rows = []
        self.raw = {}                # id -> bytes
        for rec in records:
            data = dag_cbor.encode(rec)
            self.id(cid_of(data), data)

    def key(self, path):
        i = self.keyid.get(path, 0)
        if not i and self.dynamic and path.count('/') == 1:
            self.keys.append(path)
            i = self.keyid[path] = len(self.keys)
        return i

    def id(self, cid, data=None):
        """Id of a CID (object or bytes); 0 for None."""
        if cid is None:
            return 0
        key = bytes(cid)
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.ids) + 1
            self.rows.append({'kind': 'missing', 'l': 0, 'e': [], 'ok': False})
        if data is not None and self.raw.get(i) != data:
            if i in self.raw:       # same CID, different bytes
                self.rows[i - 1]['ok'] = False
            else:
                self.raw[i] = data
                self.rows[i - 1] = self.decode(cid, data)
        return i

    def decode(self, cid, data):
        ok = bytes(cid_of(data)) == bytes(cid)
        try:
            obj = dag_cbor.decode(data)
            ok = ok and dag_cbor.encode(obj) == data
        except Exception:
            return {'kind': 'bad', 'l': 0, 'e': [], 'ok': False}
        row = {'kind': 'record', 'l': 0, 'e': [], 'ok': ok}
        if not isinstance(obj, dict):
            return row
        if obj.keys() == NODE_KEYS:
            row.update(self.node(obj))
        elif obj.keys() == COMMIT_KEYS:
            pub = self.pubkeys.get(obj.get('did'))
            num = tid_num(obj.get('rev'))
            row.update(kind='commit', did=str(obj['did']), ver=obj['version'] if
                       isinstance(obj['version'], int) else -1,
                       prev=self.id(obj['prev']), data=self.id(obj['data']),
                       rev=num[0] if num else -1, clock=num[1] if num else -1,
                       sig=bool(pub) and sig_ok(obj, pub))
        elif str(obj.get('$type', '')).startswith(EVENT_PREFIX):
            row.update(kind='event', type=obj['$type'][len(EVENT_PREFIX):],
                       did=str(obj.get('did')), seq=obj.get('seq') if
                       isinstance(obj.get('seq'), int) else -1,
                       active=str(obj.get('active')), status=str(obj.get('status')))
        return row

    def node(self, obj):
        try:
            es, prev = [], b''
            for e in obj['e']:
                p, k = e['p'], e['k']
                key = prev[:p] + k
                prev = key
                es.append([p, self.key(key.decode('latin-1')), self.id(e['v']),
                           self.id(e['t'])])
            return dict(kind='node', l=self.id(obj['l']), e=es)
        except Exception:
            return dict(kind='record')


def commit_did(obj):
    return obj['did']


def block_did(block):
    r = block.repo
    if r is None:
        return ''
    return r.id() if hasattr(r, 'id') else str(r)


class World:
    """One storage, some repos, and the trace of everything done to them."""

    def __init__(self, backend='memory', *, keys, records, dids, handles=None, batch=300,
                 badvals=(), sequences=None, fake=None):
        from arroba import mst, storage as storage_mod, repo as repo_mod, server, util
        self.repo_mod, self.storage_mod, self.server, self.mst = repo_mod, storage_mod, server, mst
        self.util = util
        self.Action = storage_mod.Action
        self.backend = backend
        self.dids = list(dids)
        self.handles = handles or {d: f'h{i}.com' for i, d in enumerate(dids)}
        self.records = list(records)
        self.badvals = list(badvals)
        self.signing = {d: key_for(('sign', d)) for d in dids}
        self.rotation = {d: key_for(('rot', d)) for d in dids}
        self.blocks = Blocks(keys, records, {d: k.public_key() for d, k in self.signing.items()})
        self.keys = self.blocks.keys
        self.slots = {}
        self.old_handles = []
        self.ev = []
        self.allocs = []
        self.notes = []
        self.fake = fake
        if backend == 'memory':
            self.storage = storage_mod.MemoryStorage(sequences=sequences)
        else:
            from . import fakeds
            from arroba import datastore_storage
            self.ndb_client, self.fake = fakeds.install(batch=batch)
            self.storage = datastore_storage.DatastoreStorage(
                ndb_client=self.ndb_client, sequences=sequences,
                ndb_context_kwargs=dict(cache_policy=lambda key: False))
        server.storage = self.storage
        orig = self.storage.sequences.allocate

        def allocate(nsid):
            seq = orig(nsid)
            self.allocs.append(seq)
            return seq
        self.storage.sequences.allocate = allocate
        self.rpc = 0
        self.fault_at = self.fault_kind = self.fault_rpc = None
        self.rpc_log = []
        if self.fake:
            self.fake.hook = self.on_rpc
        else:
            self.patch_memory()

    # -- fault injection ---------------------------------------------------------------
    def on_rpc(self, name, request):
        self.rpc += 1
        if self.fault_at is not None and name not in ('rollback',) and self.fault_rpc in (None, name):
            self.rpc_n += 1
            if self.rpc_n >= self.fault_at and (self.fault_once is False or
                                               self.rpc_n == self.fault_at):
                self.fault_hit = True
                from google.api_core import exceptions as ce
                if self.fault_kind == 'crash':
                    raise Crash()
                raise {'denied': ce.PermissionDenied, 'aborted': ce.Aborted,
                       'unavailable': ce.ServiceUnavailable}[self.fault_kind]('injected')

    def patch_memory(self):
        for name in ('write_blocks', 'store_repo', 'load_repo', 'write', 'create_repo'):
            orig = getattr(self.storage, name)

            def wrapped(*args, _orig=orig, _name=name, **kwargs):
                if self.fault_at is not None and _name != 'load_repo':
                    self.rpc_n += 1
                    if self.rpc_n == self.fault_at:
                        self.fault_hit = True
                        raise Fault('injected')
                return _orig(*args, **kwargs)
            setattr(self.storage, name, wrapped)

    # -- running one operation -----------------------------------------------------------
    def callback(self, mode):
        if mode == 'none':
            return None

        def cb(data=None, lost_seq=None):
            if lost_seq is not None:
                self.notes.append(['lost', lost_seq, 0])
            if data is not None:
                if isinstance(data, dict):
                    self.notes.append(['event', data.get('seq', -1), 0])
                else:
                    self.notes.append(['commit', data.commit.seq or -1,
                                       self.blocks.id(data.commit.cid, data.commit.encoded)])
                if mode == 'raise':
                    raise RuntimeError('observer failed')
        return cb

    def run(self, fn, fault=None):
        """Runs fn; returns (outcome, result)."""
        self.allocs.clear()
        self.notes.clear()
        self.rpc_n, self.fault_hit, self.fault_once = 0, False, True
        if fault:
            self.fault_kind, self.fault_at = fault[0], fault[1]
            self.fault_rpc = fault[2] if len(fault) > 2 else None
            self.fault_once = fault[0] != 'unavailable-all'
        try:
            with core.time_limit(60):
                with self.context():
                    return 'ok', fn()
        except core.Hang:
            return 'hang', None
        except Crash:
            return 'crash', None
        except Exception as e:
            self.last_exc = e
            return f'raised:{type(e).__name__}', None
        finally:
            self.fault_at = None

    def context(self):
        if self.backend == 'memory':
            return contextlib.nullcontext()
        from google.cloud.ndb import context as ctx
        if ctx.get_context(raise_context_error=False):
            return contextlib.nullcontext()
        return self.ndb_client.context(cache_policy=lambda key: False)

    def common(self, r, **kw):
        kw.update(r=r.split(':')[0], exc=r, alloc=list(self.allocs),
                  notes=[list(n) for n in self.notes], hit=self.fault_hit)
        return kw

    def log(self, **ev):
        self.ev.append(ev)

    # -- operations -----------------------------------------------------------------------
    def create(self, did, slot, cb='record', fault=None):
        def fn():
            return self.repo_mod.Repo.create(
                self.storage, did, handle=self.handles[did], signing_key=self.signing[did],
                rotation_key=self.rotation[did], callback=self.callback(cb))
        r, repo = self.run(fn, fault)
        if r == 'ok':
            self.slots[slot] = repo
        ret = dict(self.NONE_ROW)
        if r == 'ok':
            ret['commit'] = self.blocks.id(repo.head.cid, repo.head.encoded)
        self.log(op='create', did=did, handle=self.handles[did], cb=cb, ret=ret,
                 **self.common(r), fault=bool(fault))
        return r

    def create_failing(self, did, cb, fault):
        """A repo creation that meets a failing storage call: what became of its numbers?"""
        self.create(did, 9, cb=cb, fault=fault)
        e = self.ev.pop()
        with self.context():
            used = [r['seq'] for r in self.log_rows()]
            found = self.storage.load_repo(did) is not None
        self.log(op='createfail', did=did, cb=cb, r=e['r'], alloc=e['alloc'], notes=e['notes'],
                 used=used, found=found, hit=e['hit'])

    def load(self, did, slot):
        r, repo = self.run(lambda: self.storage.load_repo(did))
        if r == 'ok' and repo is not None:
            self.slots[slot] = repo

    def write_of(self, w):
        a, k, v = w
        path = self.keys[k - 1] if isinstance(k, int) else k
        coll, rkey = path.split('/', 1) if '/' in path else (path, '')
        return self.repo_mod.Write(
            action={'create': self.Action.CREATE, 'update': self.Action.UPDATE,
                    'delete': self.Action.DELETE}[a],
            collection=coll, rkey=rkey, record=self.records[v - 1] if v else None)

    def op_row(self, op):
        return [op.action.name.lower(), self.blocks.key(op.path),
                self.blocks.id(op.cid), self.blocks.id(op.prev_cid)]

    def data_row(self, cd):
        """A CommitData, summarised."""
        for b in cd.blocks.values():
            if b is not None:
                self.blocks.id(b.cid, b.encoded)
        return dict(commit=self.blocks.id(cd.commit.cid, cd.commit.encoded),
                    seq=cd.commit.seq or 0, prev=self.blocks.id(cd.prev),
                    ops=[self.op_row(o) for o in cd.commit.ops or []],
                    blocks=sorted({self.blocks.id(c) for c, b in cd.blocks.items()
                                   if b is not None and bytes(b.cid) == bytes(c)}))

    NONE_ROW = dict(commit=0, seq=0, prev=0, ops=[], blocks=[])

    def commit(self, did, slot, ws, cb='record', fault=None, single=False):
        repo = self.slots[slot]
        writes = [self.write_of(w) for w in ws]
        arg = writes[0] if single and len(writes) == 1 else writes

        def fn():
            repo.callback = self.callback(cb)
            return self.storage.commit(repo, arg)
        before = repo.head.cid, repo.mst.get_pointer()
        r, cd = self.run(fn, fault)
        self.log(op='commit', did=did, cb=cb, fault=bool(fault), n=len(ws),
                 ws=[[a, k if isinstance(k, int) else 0, v] for a, k, v in ws],
                 ret=self.data_row(cd) if cd else self.NONE_ROW,
                 own=self.own(repo) if r == 'ok' else [],
                 kept=(repo.head.cid, repo.mst.get_pointer()) == before, **self.common(r))
        return r

    def own(self, repo):
        """What the handle that was just committed through reads."""
        with self.context():
            return self.contents(repo)

    def status(self, did, slot, what, cb='record', fault=None):
        repo = self.slots[slot]

        def fn():
            repo.callback = self.callback(cb)
            return getattr(self.storage, f'{what}_repo')(repo)
        r, _ = self.run(fn, fault)
        self.log(op='status', did=did, what=what, cb=cb, fault=bool(fault), **self.common(r))
        return r

    def event(self, did, slot, type, cb='record', fault=None, **kwargs):
        repo = self.slots[slot]

        def fn():
            repo.callback = self.callback(cb)
            return self.storage.write_event(repo, type, **kwargs)
        r, _ = self.run(fn, fault)
        self.log(op='event', did=did, type=type, cb=cb, fault=bool(fault), **self.common(r))
        return r

    # -- observations ------------------------------------------------------------------------
    def contents(self, repo):
        out = []
        for coll, recs in repo.get_contents().items():
            for rkey, rec in recs.items():
                data = dag_cbor.encode(rec)
                out.append([self.blocks.key(f'{coll}/{rkey}'),
                            self.blocks.id(cid_of(data), data)])
        return sorted(out)

    def singles(self, repo):
        out = []
        for i, key in enumerate(self.keys):
            coll, rkey = key.split('/', 1)
            rec = repo.get_record(coll, rkey)
            if rec is not None:
                data = dag_cbor.encode(rec)
                out.append([i + 1, self.blocks.id(cid_of(data), data)])
        return out

    def repo_row(self, repo):
        return dict(did=repo.did, head=self.blocks.id(repo.head.cid, repo.head.encoded),
                    seq=repo.head.seq or 0, status=repo.status or 'active',
                    handle=repo.handle or '',
                    skey=self.key_name(repo.signing_key), rkey=self.key_name(repo.rotation_key))

    def key_name(self, key):
        if key is None:
            return ''
        n = key.private_numbers().private_value
        for d in self.dids:
            for keys, kind in (self.signing, 's'), (self.rotation, 'r'):
                if d in keys and keys[d].private_numbers().private_value == n:
                    return f'{kind}:{d}'
        return '?'

    def log_rows(self, start=0, repo=None):
        rows = []
        for ev in self.storage.read_events_by_seq(start=start, **({'repo': repo} if repo else {})):
            if isinstance(ev, dict):
                rows.append(dict(kind='event', seq=ev.get('seq') if isinstance(ev.get('seq'), int) else -1,
                                 did=str(ev.get('did')), commit=0, prev=0, ops=[], blocks=[],
                                 type=str(ev.get('$type'))[len(EVENT_PREFIX):],
                                 active=str(ev.get('active')), status=str(ev.get('status'))))
            else:
                d = self.data_row(ev)
                rows.append(dict(d, kind='commit', did=str(ev.commit.decoded['did']), type='',
                                 active='', status=''))
        return rows

    def block_rows(self):
        out = []
        for b in self.storage.read_blocks_by_seq(start=0):
            out.append([self.blocks.id(b.cid, b.encoded), b.seq or 0, block_did(b)])
        return sorted(out)

    def observe(self, full=True):
        """Everything a later reader sees."""
        try:
            with core.time_limit(120), self.context():
                repos = []
                for d in self.dids:
                    repo = self.storage.load_repo(d)
                    if repo is not None:
                        row = self.repo_row(repo)
                        row.update(c=self.contents(repo),
                                   one=self.singles(repo) if full else self.contents(repo))
                        byh = self.storage.load_repo(self.handles[d] or d)
                        row['byhandle'] = self.repo_row(byh) if byh is not None else {'did': ''}
                        byh and row['byhandle'].pop('x', None)
                        repos.append(row)
                self.log(op='obs', repos=repos, log=self.log_rows(), blocks=self.block_rows(),
                         last=self.storage.sequences.last(self.storage_mod.SUBSCRIBE_REPOS_NSID) or 0)
                return True
        except core.Hang:
            self.log(op='raised', what='observe', exc='Hang')
        except Exception as e:
            self.last_exc = e
            self.log(op='raised', what='observe', exc=f'{type(e).__name__}: {e}'[:300])
        return False

    def trace(self, **hdr):
        rank = {k: i + 1 for i, k in enumerate(sorted(self.keys, key=str.encode))}
        hdr['x'] = dict(coll=[k.split('/')[0] for k in self.keys], rank=[rank[k] for k in self.keys])
        return [dict(op='init', blk=self.blocks.rows, dids=self.dids,
                     lay=[mstlib.layer_of(k) for k in self.keys],
                     nv=len(self.records), bad=self.badvals, backend=self.backend, **hdr)] + self.ev

    def rewrite(self, picks, did):
        """Writes already stored blocks again, as another repo's and with a new number."""
        def fn():
            seq = self.storage.sequences.last(self.storage_mod.SUBSCRIBE_REPOS_NSID)
            stored = [b for b in self.storage.read_blocks_by_seq(start=0)]
            blocks = [stored[i % len(stored)] for i in picks]
            self.storage.write_blocks([
                self.storage_mod.Block(encoded=b.encoded, seq=seq, repo=did) for b in blocks])
            b = blocks[0]
            self.storage.write(did, b.decoded, seq=seq)
        r, _ = self.run(fn)
        self.log(op='rewrite', **self.common(r))

    def imported(self, rng, more=0):
        """What importRepo does to the block store: blocks with sequence number 0.

        more: how many extra blocks."""
        did = rng.choice(self.dids)
        objs = [{'$type': 'com.example.imported', 'n': rng.random()},
                rng.choice(self.records[:len(self.records) - len(self.badvals)]),
                {'version': 3, 'did': did, 'rev': '2222222222222', 'prev': None,
                 'data': mstlib.cid_of(b'%d' % rng.randrange(100)), 'sig': b'x' * 64},
                {'$type': EVENT_PREFIX + 'account', 'did': did, 'seq': rng.randint(1, 9),
                 'active': False, 'time': 'x'}]
        objs = rng.sample(objs, rng.randint(1, 3)) + [{'x': i} for i in range(more)]

        def fn():
            self.storage.write_blocks([self.storage_mod.Block(decoded=o, seq=0, repo=did) for o in objs])
        r, _ = self.run(fn)
        self.log(op='imported', did=did, **self.common(r))

    def rename(self, slot, handle):
        repo = self.slots[slot]
        did = repo.did

        def fn():
            fresh = self.storage.load_repo(did)
            fresh.handle = handle
            self.storage.store_repo(fresh)
        r, _ = self.run(fn)
        if r == 'ok':
            self.old_handles.append(self.handles[did])
            self.handles[did] = handle
        self.log(op='rename', did=did, handle=handle, **self.common(r))

    def events(self, start, repo='', lose=0):
        """lose: the ndb context is lost at this many of the reads' queries, at random."""
        try:
            if lose:
                lost = self.losing(lose)
            else:
                lost = self.context()
            with core.time_limit(60), lost:
                rows = self.log_rows(start, repo or None)
            self.log(op='events', start=start, repo=repo, log=rows)
        except Exception as e:
            self.last_exc = e
            self.log(op='raised', what='events', exc=f'{type(e).__name__}: {e}'[:300])

    @contextlib.contextmanager
    def losing(self, n):
        from google.cloud.ndb.exceptions import ContextError
        at = sorted(self.rng.sample(range(1, 3 * n + 6), n))
        seen = [0]

        def hook(name, request):
            if name == 'run_query':
                seen[0] += 1
                if seen[0] in at:
                    self.lost_contexts = getattr(self, 'lost_contexts', 0) + 1
                    raise ContextError()
        orig, self.fake.hook = self.fake.hook, hook
        try:
            yield
        finally:
            self.fake.hook = orig

    def reads(self, rng, n=12, lookups=(None, None, 1, 2, 3)):
        """All read paths for some stored and some absent blocks.

        lookups: how many keys the Datastore looks up at most, before it defers the others."""
        absent = [cid_of(dag_cbor.encode({'absent': rng.random()})) for _ in range(2)]
        ids = {i: CID.decode(k) for k, i in self.blocks.ids.items()}
        cids = [ids[i] for i in rng.sample(sorted(ids), min(n, len(ids)))] + absent
        rng.shuffle(cids)

        def bid(cid, block):
            if block is None:
                return 0
            if bytes(block.cid) != bytes(cid):
                return -1
            return self.blocks.id(cid_of(block.encoded), block.encoded)
        S = self.storage
        if self.fake:
            self.fake.max_lookup = rng.choice(lookups)
        try:
            self.read_paths(S, cids, bid, rng)
        finally:
            if self.fake:
                self.fake.max_lookup = None

    def read_paths(self, S, cids, bid, rng):
        try:
            with core.time_limit(60), self.context():
                one = [S.read(c) for c in cids]
                many = S.read_many(iter(cids) if rng.random() < .5 else list(cids))
                has = [bool(S.has(c)) for c in cids]
                if len(many) != len(set(cids)):
                    raise AssertionError('read_many keys')
        except Exception as e:
            self.last_exc = e
            self.log(op='raised', what='reads', exc=f'{type(e).__name__}: {e}'[:300])
            return
        try:
            with core.time_limit(60), self.context():
                raw = S.read_many_raw([bytes(c) for c in cids])
        except Exception as e:
            self.last_exc = e
            self.log(op='reads-absent-raised', exc=f'{type(e).__name__}: {e}'[:300])
            return
        raws = [raw.get(bytes(c)) for c in cids]
        self.log(op='reads', ids=[self.blocks.id(c) for c in cids],
                 has=has, read=[bid(c, b) for c, b in zip(cids, one)],
                 seqs=[b.seq or 0 if b else 0 for b in one],
                 many=[bid(c, many.get(c)) for c in cids],
                 raw=[self.blocks.id(cid_of(bytes(r[0])), bytes(r[0])) if r else 0 for r in raws],
                 rawseqs=[r[1] or 0 if r else 0 for r in raws])

    def page(self, after, limit, minimal):
        """after: 0 or 1-based index into the sorted DIDs."""
        ds = sorted(self.dids)
        try:
            with core.time_limit(60), self.context():
                repos = self.storage.load_repos(after=ds[after - 1] if after else None,
                                                limit=limit, minimal=minimal)
                rows = [self.repo_row(r) for r in repos]
            self.log(op='page', after=after, limit=limit, minimal=minimal, rows=rows)
            return [ds.index(r['did']) + 1 for r in rows]
        except Exception as e:
            self.last_exc = e
            self.log(op='raised', what='page', exc=f'{type(e).__name__}: {e}'[:300])
            return []

    def unknown(self, name):
        try:
            with core.time_limit(60), self.context():
                got = self.storage.load_repo(name)
            self.log(op='unknown', name=name, found=got is not None)
        except Exception as e:
            self.last_exc = e
            self.log(op='raised', what='unknown', exc=f'{type(e).__name__}: {e}'[:300])

    def payloads(self, prefetch=False):
        """What the firehose makes of every commit in the log."""
        from arroba import firehose
        from . import carlib
        try:
            with core.time_limit(120), self.context():
                for ev in self.storage.read_events_by_seq(start=0):
                    if isinstance(ev, dict):
                        continue
                    prev = ev.commit.decoded['prev']
                    kw = dict(prev_commit=self.storage.read(prev)) if prefetch and prev else {}
                    header, p = firehose.process_event(ev, **kw)
                    self.log(op='payload', **self.payload_row(p))
        except Exception as e:
            self.last_exc = e
            self.log(op='raised', what='payload', exc=f'{type(e).__name__}: {e}'[:300])

    def payload_row(self, p):
        from . import carlib
        roots, blocks = carlib.read(p['blocks'])
        return dict(seq=p['seq'], did=p['repo'], commit=self.blocks.id(p['commit']),
                    root=self.blocks.id(roots[0]) if len(roots) == 1 else -1,
                    blocks=sorted({self.blocks.id(c, d) for c, d in blocks}),
                    ops=[[o['action'], self.blocks.keyid.get(o['path'], 0),
                          self.blocks.id(o.get('cid')), self.blocks.id(o.get('prev'))]
                         for o in p['ops']],
                    prevdata=self.blocks.id(p.get('prevData')))
