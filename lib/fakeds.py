"""An in-process stand-in for Cloud Datastore, at the RPC level ndb talks to.

Serialisable transactions: a transaction reads one snapshot (plus nothing of its own
writes, which ndb buffers), and its commit is refused with ABORTED if anything it read, or
the result of any query it ran, has changed since.  Every RPC first calls `hook(rpc,
request)`, which may raise (fault injection; the RPC then has no effect) or hand over
control (scheduling point).
"""
import base64
import logging
import os
import pickle
import threading

os.environ.setdefault('DATASTORE_EMULATOR_HOST', 'localhost:8089')
os.environ.setdefault('ENCRYPTED_PROPERTY_KEY', base64.b64encode(b'k' * 32).decode())

from google.api_core import exceptions as core_exceptions  # noqa: E402
from google.cloud.datastore_v1.types import datastore as ds_pb2  # noqa: E402
from google.cloud.datastore_v1.types import entity as entity_pb2  # noqa: E402
from google.cloud.datastore_v1.types import query as query_pb2  # noqa: E402
import google.cloud.ndb._retry as ndb_retry  # noqa: E402

ndb_retry._DEFAULT_INITIAL_DELAY = 0.0001
ndb_retry._DEFAULT_MAXIMUM_DELAY = 0.001

Op = query_pb2.PropertyFilter.Operator
MR = query_pb2.QueryResultBatch.MoreResultsType


def path_of(key):
    return tuple((p.kind, p.name or p.id) for p in key.path)


def val(v):
    """A comparable (type rank, value) for a Datastore Value protobuf."""
    which = v._pb.WhichOneof('value_type')
    if which in (None, 'null_value'):
        return (0, 0)
    if which == 'integer_value':
        return (1, v._pb.integer_value)
    if which == 'timestamp_value':
        ts = v._pb.timestamp_value
        return (2, (ts.seconds, ts.nanos))
    if which == 'boolean_value':
        return (3, v._pb.boolean_value)
    if which == 'blob_value':
        return (4, v._pb.blob_value)
    if which == 'string_value':
        return (5, v._pb.string_value.encode())
    if which == 'double_value':
        return (6, v._pb.double_value)
    if which == 'key_value':
        return (8, tuple((p.kind, p.name or p.id) for p in v._pb.key_value.path))
    return (9, str(v._pb))


class Future:
    def __init__(self, fn):
        self._exc = self._res = None
        try:
            self._res = fn()
        except Exception as e:
            self._exc = e

    def add_done_callback(self, cb):
        cb(self)

    def exception(self, timeout=None):
        return self._exc

    def result(self, timeout=None):
        if self._exc:
            raise self._exc
        return self._res

    def cancel(self):
        pass

    def done(self):
        return True


class Method:
    def __init__(self, ds, name):
        self.ds, self.name = ds, name

    def future(self, request, timeout=None, metadata=()):
        return Future(lambda: self(request))

    def __call__(self, request, timeout=None, metadata=()):
        if self.ds.hook:
            self.ds.hook(self.name, request)
        with self.ds.lock:
            self.ds.count[self.name] = self.ds.count.get(self.name, 0) + 1
            return getattr(self.ds, '_' + self.name)(request)


class FakeDatastore:
    def __init__(self, batch=300):
        self.lock = threading.RLock()
        self.hook = None
        self.batch = batch
        self.max_lookup = None     # a lookup answers at most so many keys, and defers the others
        self.reset()
        for rpc in ('lookup', 'run_query', 'begin_transaction', 'commit', 'rollback',
                    'allocate_ids'):
            setattr(self, rpc, Method(self, rpc))

    def reset(self):
        self.version = 1
        self.data = {}      # path -> [(version, serialized Entity or None), ...]
        self.txs = {}       # id -> dict(snap, reads, queries)
        self.next_tx = 1
        self.next_id = 1000
        self.count = {}
        self.aborts = 0

    # what is stored now, for checks that want to look underneath the API
    def entities(self, kind):
        out = {}
        for path, hist in self.data.items():
            if path[-1][0] == kind and hist[-1][1] is not None:
                out[path[-1][1]] = entity_pb2.Entity.deserialize(hist[-1][1])
        return out

    def _at(self, path, snap):
        for ver, ent in reversed(self.data.get(path, ())):
            if ver <= snap:
                return ver, ent
        return 0, None

    def _tx(self, opts):
        txid = opts.transaction
        if not txid:
            return None
        if txid not in self.txs:
            raise core_exceptions.InvalidArgument('unknown transaction')
        return self.txs[txid]

    def _lookup(self, req):
        tx = self._tx(req.read_options)
        snap = tx['snap'] if tx else self.version
        found, missing = [], []
        keys = list(req.keys)
        now = keys[:self.max_lookup] if self.max_lookup else keys
        for key in now:
            path = path_of(key)
            if tx:
                tx['reads'].add(path)
            ver, ent = self._at(path, snap)
            if ent is None:
                missing.append(query_pb2.EntityResult(
                    entity=entity_pb2.Entity(key=key), version=1))
            else:
                found.append(query_pb2.EntityResult(
                    entity=entity_pb2.Entity.deserialize(ent), version=ver))
        return ds_pb2.LookupResponse(found=found, missing=missing, deferred=keys[len(now):])

    # queries
    def _matches(self, flt, path, ent):
        if flt is None:
            return True
        which = flt._pb.WhichOneof('filter_type')
        if which == 'composite_filter':
            subs = [self._matches(f, path, ent) for f in flt.composite_filter.filters]
            return any(subs) if int(flt.composite_filter.op) == 2 else all(subs)
        f = flt.property_filter
        name, op = f.property.name, f.op
        if name == '__key__':
            vals = [(8, path)]
        else:
            if name not in ent.properties:
                return False
            v = ent.properties[name]
            if v._pb.WhichOneof('value_type') == 'array_value':
                vals = [val(x) for x in v.array_value.values]
            else:
                vals = [val(v)]
        if op == Op.IN:
            want = [val(x) for x in f.value.array_value.values]
            return any(x in want for x in vals)
        want = val(f.value)
        if op == Op.HAS_ANCESTOR:
            return path[:len(want[1])] == want[1]
        test = {
            Op.EQUAL: lambda x: x == want,
            Op.NOT_EQUAL: lambda x: x != want,
            Op.LESS_THAN: lambda x: x[0] == want[0] and x < want,
            Op.LESS_THAN_OR_EQUAL: lambda x: x[0] == want[0] and x <= want,
            Op.GREATER_THAN: lambda x: x[0] == want[0] and x > want,
            Op.GREATER_THAN_OR_EQUAL: lambda x: x[0] == want[0] and x >= want,
        }[op]
        return any(test(x) for x in vals)

    def _run(self, q, snap):
        """All results of a query at a snapshot: [(sortkey, path, version, entity)]."""
        kinds = [k.name for k in q.kind]
        flt = q.filter if q._pb.HasField('filter') else None
        order = [(o.property.name, o.direction == query_pb2.PropertyOrder.Direction.DESCENDING)
                 for o in q.order]
        # an inequality without an order implies an order on that property
        if not order and flt is not None:
            fs = [flt] if flt._pb.WhichOneof('filter_type') == 'property_filter' \
                else list(flt.composite_filter.filters)
            for f in fs:
                if f._pb.WhichOneof('filter_type') == 'property_filter' and \
                        f.property_filter.op in (Op.LESS_THAN, Op.LESS_THAN_OR_EQUAL,
                                                 Op.GREATER_THAN, Op.GREATER_THAN_OR_EQUAL):
                    order = [(f.property_filter.property.name, False)]
                    break
        res = []
        for path in self.data:
            if kinds and path[-1][0] not in kinds:
                continue
            ver, raw = self._at(path, snap)
            if raw is None:
                continue
            ent = entity_pb2.Entity.deserialize(raw)
            if not self._matches(flt, path, ent):
                continue
            sk, skip = [], False
            for name, desc in order:
                if name == '__key__':
                    x = (8, path)
                elif name not in ent.properties:
                    skip = True
                    break
                else:
                    v = ent.properties[name]
                    if v._pb.WhichOneof('value_type') == 'array_value':
                        xs = [val(y) for y in v.array_value.values] or [(0, 0)]
                        x = max(xs) if desc else min(xs)
                    else:
                        x = val(v)
                sk.append(_Rev(x) if desc else x)
            if not skip:
                res.append(((tuple(sk), path), path, ver, ent))
        res.sort(key=lambda r: r[0])
        return res

    def _run_query(self, req):
        tx = self._tx(req.read_options)
        snap = tx['snap'] if tx else self.version
        q = req.query
        res = self._run(q, snap)
        if tx:
            sub = query_pb2.Query(kind=list(q.kind), order=list(q.order))
            if q._pb.HasField('filter'):
                sub._pb.filter.CopyFrom(q._pb.filter)
            tx['queries'].append((query_pb2.Query.serialize(sub),
                                  tuple((r[1], r[2]) for r in res)))
        if q.start_cursor:
            at = pickle.loads(q.start_cursor)
            res = [r for r in res if r[0] > at]
        if q.end_cursor:
            at = pickle.loads(q.end_cursor)
            res = [r for r in res if r[0] <= at]
        skipped = res[:q.offset] if q.offset else []
        res = res[q.offset or 0:]
        limit = q._pb.limit.value if q._pb.HasField('limit') else None
        size = self.batch if limit is None else min(self.batch, limit)
        batch, rest = res[:size], res[size:]
        if not rest:
            more = MR.NO_MORE_RESULTS
        elif limit is not None and len(batch) >= limit:
            more = MR.MORE_RESULTS_AFTER_LIMIT
        else:
            more = MR.NOT_FINISHED
        proj = [p.property.name for p in q.projection]
        out = []
        for sk, path, ver, ent in batch:
            if proj:
                e = entity_pb2.Entity(key=ent.key)
                for p in proj:
                    if p != '__key__' and p in ent.properties:
                        e.properties[p] = ent.properties[p]
            else:
                e = ent
            out.append(query_pb2.EntityResult(entity=e, cursor=pickle.dumps(sk), version=ver))
        rtype = query_pb2.EntityResult.ResultType
        end = (batch or skipped)
        b = query_pb2.QueryResultBatch(
            entity_result_type=(rtype.KEY_ONLY if proj == ['__key__'] else
                                rtype.PROJECTION if proj else rtype.FULL),
            entity_results=out, more_results=more, skipped_results=len(skipped),
            end_cursor=pickle.dumps(end[-1][0]) if end else (q.start_cursor or b''))
        return ds_pb2.RunQueryResponse(batch=b, query=q)

    # transactions
    def _begin_transaction(self, req):
        txid = b'tx-%d' % self.next_tx
        self.next_tx += 1
        self.txs[txid] = dict(snap=self.version, reads=set(), queries=[])
        return ds_pb2.BeginTransactionResponse(transaction=txid)

    def _rollback(self, req):
        self.txs.pop(req.transaction, None)
        return ds_pb2.RollbackResponse()

    def _commit(self, req):
        if req.transaction:
            if req.transaction not in self.txs:
                raise core_exceptions.InvalidArgument('unknown transaction')
            tx = self.txs.pop(req.transaction)
            for path in tx['reads']:
                hist = self.data.get(path)
                if hist and hist[-1][0] > tx['snap']:
                    self.aborts += 1
                    raise core_exceptions.Aborted(f'conflict on {path}')
            for raw, was in tx['queries']:
                now = self._run(query_pb2.Query.deserialize(raw), self.version)
                if tuple((r[1], r[2]) for r in now) != was:
                    self.aborts += 1
                    raise core_exceptions.Aborted('conflict on query')
        if req.mutations:
            self.version += 1
        results = []
        for m in req.mutations:
            op = m._pb.WhichOneof('operation')
            if op == 'delete':
                key, raw = m.delete, None
            else:
                ent = getattr(m, op)
                key = ent.key
                if not (key.path[-1].name or key.path[-1].id):
                    key.path[-1].id = self.next_id
                    self.next_id += 1
                raw = entity_pb2.Entity.serialize(ent)
            path = path_of(key)
            hist = self.data.setdefault(path, [])
            if op == 'insert' and hist and hist[-1][1] is not None:
                raise core_exceptions.AlreadyExists(str(path))
            if op == 'update' and not (hist and hist[-1][1] is not None):
                raise core_exceptions.NotFound(str(path))
            if hist and hist[-1][0] == self.version:
                hist[-1] = (self.version, raw)
            else:
                hist.append((self.version, raw))
            results.append(ds_pb2.MutationResult(key=key, version=self.version))
        return ds_pb2.CommitResponse(mutation_results=results,
                                     index_updates=len(req.mutations))

    def _allocate_ids(self, req):
        keys = []
        for key in req.keys:
            key.path[-1].id = self.next_id
            self.next_id += 1
            keys.append(key)
        return ds_pb2.AllocateIdsResponse(keys=keys)


class _Rev:
    def __init__(self, x):
        self.x = x

    def __lt__(self, other):
        return other.x < self.x

    def __eq__(self, other):
        return other.x == self.x

    def __gt__(self, other):
        return other.x > self.x


def install(batch=300):
    """Points webutil's ndb client at a fresh fake; returns (client, fake)."""
    from webutil.appengine_config import ndb_client
    logging.getLogger().setLevel(logging.CRITICAL)
    fake = FakeDatastore(batch=batch)
    ndb_client.stub = fake
    return ndb_client, fake
