"""Drives the real XRPC handlers, over HTTP (Flask's test client) and directly, and records
what they answer in the vocabulary of spec/XrpcTrace.tla.  Nothing is judged here."""
import contextlib
import hashlib
import json
import os
import sys
import types

import dag_cbor
import dag_json
from flask import Flask
from multiformats import CID

from . import carlib, core, mstlib
from .mstlib import cid_of
from .world import World, key_for, sig_ok, tid_num

with contextlib.suppress(ImportError):
    import flask_sock  # noqa: F401
if 'flask_sock' not in sys.modules:      # only websockets need it
    class Sock:
        def __init__(self, app):
            pass

        def route(self, path):
            return lambda fn: fn
    sys.modules['flask_sock'] = types.ModuleType('flask_sock')
    sys.modules['flask_sock'].Sock = Sock

TOKEN = 'towkin'
PASSWORD = 'sooper-sekret'
os.environ.setdefault('PDS_HOST', 'localhost:8080')
os.environ.setdefault('PLC_HOST', 'plc.local')

REPO, SYNC, SERVER = 'com.atproto.repo.', 'com.atproto.sync.', 'com.atproto.server.'

# how a caller authenticates: (REPO_TOKEN, Authorization header)
AUTH = {
    'ok': (TOKEN, f'Bearer {TOKEN}'),
    'none': (TOKEN, None),
    'empty': (TOKEN, ''),
    'bare': (TOKEN, TOKEN),
    'blank': (TOKEN, 'Bearer '),
    'prefix': (TOKEN, f'Bearer {TOKEN[:-1]}'),
    'longer': (TOKEN, f'Bearer {TOKEN}x'),
    'case': (TOKEN, f'Bearer {TOKEN.upper()}'),
    'scheme': (TOKEN, f'Basic {TOKEN}'),
    'other': (TOKEN, 'Bearer nope'),
    'password': (TOKEN, f'Bearer {PASSWORD}'),
    'unconfigured': (None, f'Bearer {TOKEN}'),
    'unconfigured-none': (None, None),
    'unconfigured-blank': (None, 'Bearer '),
    'unconfigured-None': (None, 'Bearer None'),
    'emptyconf': ('', 'Bearer '),
    'emptyconf-none': ('', None),
}


def did_key(pub):
    from cryptography.hazmat.primitives import serialization
    raw = pub.public_bytes(serialization.Encoding.X962, serialization.PublicFormat.CompressedPoint)
    data = (b'\xe7\x01' if pub.curve.name == 'secp256k1' else b'\x80\x24') + raw
    n = int.from_bytes(data, 'big')
    abc = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = abc[r] + out
    return 'z' + '1' * (len(data) - len(data.lstrip(b'\0'))) + out


class Resp:
    def __init__(self, obj=None, status=200, text=None):
        self.obj, self.status_code, self.text = obj, status, text or ''
        self.ok = status < 400
        self.content = json.dumps(obj).encode()

    def raise_for_status(self):
        if not self.ok:
            import requests
            raise requests.HTTPError(str(self.status_code))

    def json(self):
        return self.obj


class Api:
    """The XRPC side of one World."""

    def __init__(self, w, rng):
        import lexrpc.flask_server
        from lexrpc.server import Redirect
        from arroba import did, server, util, xrpc_repo, xrpc_server, xrpc_sync
        import webutil.util
        self.w, self.rng = w, rng
        self.Redirect = Redirect
        self.did_mod, self.server, self.util = did, server, util
        self.xrpc_repo, self.xrpc_sync = xrpc_repo, xrpc_sync
        self.app = Flask('verif')
        self.app.config['PROPAGATE_EXCEPTIONS'] = False
        lexrpc.flask_server.init_flask(server.server, self.app)
        self.client = self.app.test_client()
        self.docs = {}          # did -> document, or an exception
        self.blobs = []
        w.blocks.dynamic = True
        webutil.util.session.get = self.get
        for fn in did.resolve_plc, did.resolve_web, did.resolve_handle:
            fn.cache.clear()
        xrpc_repo.SUPPORTED_COLLECTIONS = frozenset()
        self.supported = None
        server.repo = None

    # -- the network ------------------------------------------------------------------
    def get(self, url, **kwargs):
        for did, doc in self.docs.items():
            if url in (f'https://plc.local/{did}',
                       f'https://{did.removeprefix("did:web:")}/.well-known/did.json'):
                if isinstance(doc, Exception):
                    raise doc
                return Resp(doc)
        import requests
        raise requests.ConnectionError(url)

    def doc(self, did, handle, key):
        return {'id': did, 'alsoKnownAs': [f'at://{handle}'] if handle else [],
                'verificationMethod': [{'id': f'{did}#atproto', 'type': 'Multikey', 'controller': did,
                                        'publicKeyMultibase': did_key(key)}] if key else []}

    # -- one call -----------------------------------------------------------------------
    def call(self, nsid, params=None, input=None, auth='ok', http=True, post=False):
        """(code, error name, output)"""
        token, header = AUTH[auth]
        os.environ.pop('REPO_TOKEN', None)
        if token is not None:
            os.environ['REPO_TOKEN'] = token
        headers = {'Authorization': header} if header is not None else {}
        params = {k: v for k, v in (params or {}).items() if v is not None}
        self.how = 'http' if http else 'direct'

        def by_http():
            q = [(k, x) for k, v in params.items() for x in (v if isinstance(v, list) else [v])]
            kw = dict(query_string=q, headers=headers)
            if post:
                data = input if isinstance(input, bytes) else dag_json.encode(input, dialect='atproto')
                r = self.client.post(f'/xrpc/{nsid}', data=data, content_type='application/vnd.ipld.car'
                                     if isinstance(input, bytes) else 'application/json', **kw)
            else:
                r = self.client.get(f'/xrpc/{nsid}', **kw)
            if r.status_code in (301, 302, 303, 307, 308):
                return r.status_code, '', r.headers['Location']
            if r.headers.get('Content-Type', '').startswith('application/json'):
                out = dag_json.decode(r.data, dialect='atproto') if r.data else None
                err = out.get('error', '') if r.status_code >= 400 and isinstance(out, dict) else ''
                return r.status_code, err, out
            return r.status_code, '', r.data

        def direct():
            with self.app.test_request_context(headers=headers):
                try:
                    # what the web server hands over: its own copy
                    inp = input if isinstance(input, bytes) else \
                        dag_cbor.decode(dag_cbor.encode(input or {}))
                    out = self.server.server._methods[nsid](inp, **params)
                    if isinstance(out, dict):
                        out = dag_json.decode(dag_json.encode(out, dialect='atproto'), dialect='atproto')
                    return 200, '', out
                except self.Redirect as r:
                    return r.status, '', r.to
                except NotImplementedError:
                    return 501, 'MethodNotImplemented', None
                except ValueError as e:
                    status = getattr(e, 'status', None)
                    return status if isinstance(status, int) else 400, getattr(e, 'name', 'InvalidRequest'), None
                except Exception as e:
                    self.last_exc = e
                    return 500, type(e).__name__, None

        r, got = self.w.run(by_http if http else direct)
        if r != 'ok':
            got = (504 if r == 'hang' else 500, r, None)
        return got

    def log(self, m, did, code, err, **kw):
        w = self.w
        w.log(op='x', m=m, did=did, code=code, err=err, how=self.how, cb='none',
              r='ok' if code == 200 else 'failed', hit=False, alloc=list(w.allocs), notes=[], **kw)

    def ident(self, did, http, sync=False):
        """Some way of naming a repo that the endpoint takes."""
        forms = [did]
        if not sync:
            forms.append((self.w.handles.get(did) or did))
        if not http:
            forms += [f'at://{f}' for f in [did, (self.w.handles.get(did) or did)]]
            if sync:
                forms.append((self.w.handles.get(did) or did))
        return self.rng.choice(forms)

    def cid(self, s):
        """Id of the block a CID string names; -1 if it is not one."""
        try:
            return self.w.blocks.id(CID.decode(s)) if isinstance(s, str) else self.w.blocks.id(s)
        except Exception:
            return -1

    def uri(self, u):
        """[did, key id]"""
        if not isinstance(u, str) or not u.startswith('at://') or u.count('/') != 4:
            return ['', 0]
        did, path = u[5:].split('/', 1)
        return [did, self.w.blocks.key(path)]

    def value(self, v):
        data = dag_cbor.encode(v)
        return self.w.blocks.id(cid_of(data), data)

    def record_row(self, r):
        try:
            return [*self.uri(r['uri']), self.cid(r['cid']), self.value(r['value'])]
        except Exception:
            return ['', 0, -1, -1]

    def head(self, did):
        with self.w.context():
            repo = self.w.storage.load_repo(did)
        return self.w.blocks.id(repo.head.cid, repo.head.encoded) if repo else 0

    def is_supported(self, coll, record=None):
        c = coll or (record or {}).get('$type')
        return self.supported is None or c in self.supported

    def restrict(self, colls):
        self.supported = colls and set(colls)
        self.xrpc_repo.SUPPORTED_COLLECTIONS = frozenset(colls or ())
        self.w.log(op='restrict', colls=sorted(colls or ()))

    # -- writes ---------------------------------------------------------------------------
    def write(self, m, did, k, v, auth='ok', swap=None, http=None, badpath=None):
        """m: create, put, delete.  k: key id; 0: badpath; for create, a collection name:
        the server picks the record key."""
        w, rng = self.w, self.rng
        http = rng.random() < .5 if http is None else http
        path = badpath if k == 0 else k if isinstance(k, str) else w.keys[k - 1]
        coll, rkey = (path.split('/', 1) if '/' in path else (path, None))
        inp = dict(repo=self.ident(did, http), collection=coll)
        if rkey is not None:
            inp['rkey'] = rkey
        if m != 'delete':
            inp['record'] = w.records[v - 1]
        if swap:
            inp[swap] = 'bafyreiblaotetvwobe7cu2uqvnddr6ew2q3cu75qsoweulzku2egca4dxq'
        code, err, out = self.call(REPO + m + 'Record', input=inp, auth=auth, http=http, post=True)
        ok = code == 200 and isinstance(out, dict)
        uri = self.uri(out.get('uri')) if ok and m != 'delete' else ['', 0]
        tid = tid_num(w.keys[uri[1] - 1].split('/', 1)[1]) if uri[1] else None
        same = uri[1] > 0 and w.keys[uri[1] - 1].split('/', 1)[0] == coll
        self.log(m, did, code, err, auth=auth, swap=bool(swap), supp=self.is_supported(coll),
                 gen=isinstance(k, str), k=uri[1] if isinstance(k, str) else k, v=v or 0,
                 uri=uri, tid=tid is not None, same=same,
                 cid=self.cid(out.get('cid')) if ok and m != 'delete' else 0,
                 head=self.head(did) if code == 200 else 0)

    # -- reads -------------------------------------------------------------------------------
    def get_record(self, did, k):
        http = self.rng.random() < .6
        coll, rkey = self.w.keys[k - 1].split('/', 1)
        code, err, out = self.call(REPO + 'getRecord', dict(
            repo=self.ident(did, http), collection=coll, rkey=rkey), http=http)
        self.log('get', did, code, err, k=k, supp=self.is_supported(coll), row=self.record_row(out) if code == 200 else ['', 0, 0, 0])

    def paged(self, nsid, params, items, limit, http, most=200):
        """Follows cursors to the end: (code, error, pages, whether it ended)."""
        pages, cursor = [], None
        for _ in range(most):
            code, err, out = self.call(nsid, dict(params, limit=limit, cursor=cursor), http=http)
            if code != 200:
                return code, err, pages, False
            pages.append(items(out))
            cursor = out.get('cursor')
            if not cursor:
                return 200, '', pages, True
        return 200, '', pages, False

    def list_records(self, did, coll, limit):
        http = self.rng.random() < .6
        code, err, pages, done = self.paged(
            REPO + 'listRecords', dict(repo=self.ident(did, http), collection=coll),
            lambda o: [self.record_row(r) for r in o['records']], limit, http)
        self.log('list', did, code, err, coll=coll, limit=limit or 50, pages=pages, done=done,
                 supp=self.is_supported(coll))

    def list_repos(self, limit):
        http = self.rng.random() < .6

        def rows(o):
            out = []
            for r in o['repos']:
                rev = tid_num(r.get('rev')) or (-1, -1)
                out.append(dict(did=r['did'], head=self.cid(r['head']), rev=rev[0], clock=rev[1],
                                active=r['active'] is True, status=str(r.get('status') or '')))
            return out
        code, err, pages, done = self.paged(SYNC + 'listRepos', {}, rows, limit, http)
        self.log('repos', '', code, err, limit=limit or 500, pages=pages, done=done)

    def list_blobs(self, did, limit):
        http = self.rng.random() < .6
        code, err, pages, done = self.paged(
            SYNC + 'listBlobs', dict(did=did), lambda o: list(o['cids']), limit, http)
        self.log('blobs', did, code, err, limit=limit or 500, pages=pages, done=done)

    def add_blob(self, url, dids, n=None, status=None):
        """A stored remote blob; n None: never fetched."""
        from arroba.datastore_storage import AtpRemoteBlob, AtpRepo
        cid = CID('base58btc', 1, 'raw', ('sha2-256', hashlib.sha256(b'%d' % n).digest())).encode('base32') \
            if n is not None else None
        with self.w.context():
            AtpRemoteBlob(id=url, url=url, cid=cid, status=status, size=1 if cid else None,
                          mime_type='text/plain',
                          repos=[AtpRepo(id=d).key for d in dids]).put()
        self.blobs.append(dict(url=url, dids=list(dids), cid=cid or '', status=status))
        order = sorted(b['url'] for b in self.blobs)
        self.w.log(op='blob', rows=[[b['dids'], b['cid']] for u in order
                                    for b in self.blobs if b['url'] == u])

    def head_of(self, did, which):
        """which: getHead, getLatestCommit"""
        http = self.rng.random() < .6
        code, err, out = self.call(SYNC + which, dict(did=self.ident(did, http, sync=True)), http=http)
        rev = tid_num(out.get('rev')) if code == 200 else None
        self.log('head', did, code, err, which=which,
                 head=self.cid(out.get('root' if which == 'getHead' else 'cid')) if code == 200 else 0,
                 rev=rev[0] if rev else -1, clock=rev[1] if rev else -1)

    def status(self, did):
        http = self.rng.random() < .6
        code, err, out = self.call(SYNC + 'getRepoStatus', dict(did=did), http=http)
        out = out if code == 200 else {}
        self.log('status', did, code, err, rdid=str(out.get('did')), active=out.get('active') is True,
                 status=str(out.get('status') or ''))

    def describe(self, did):
        http = self.rng.random() < .6
        doc = self.docs.setdefault(did, self.doc(did, self.w.handles[did], None))
        code, err, out = self.call(REPO + 'describeRepo', dict(repo=self.ident(did, http)), http=http)
        out = out if code == 200 else {}
        self.log('describe', did, code, err, rdid=str(out.get('did')), handle=str(out.get('handle')),
                 doc=out.get('didDoc') == doc, colls=sorted(out.get('collections', [])))

    def car(self, data):
        try:
            roots, blocks = carlib.read(data)
            return dict(roots=[self.w.blocks.id(r) for r in roots],
                        ids=[self.w.blocks.id(c, d) for c, d in blocks],
                        sound=all(bytes(cid_of(d)) == bytes(c) for c, d in blocks))
        except Exception:
            return dict(roots=[], ids=[], sound=False)

    NOCAR = dict(roots=[], ids=[], sound=True)

    def export(self, did, which='getRepo', since=None):
        http = self.rng.random() < .6
        params = dict(did=self.ident(did, http, sync=True))
        if since is not None:
            params['since'] = self.util.int_to_tid(since, clock_id=self.rng.choice([0, 0, 7]))
        code, err, out = self.call(SYNC + which, params, http=http)
        self.log('export', did, code, err, which=which, since=since if since is not None else -1,
                 **(self.car(out) if code == 200 else self.NOCAR))

    def proof(self, did, k, path=None):
        http = self.rng.random() < .6
        coll, rkey = (path or self.w.keys[k - 1]).split('/', 1)
        code, err, out = self.call(SYNC + 'getRecord', dict(
            did=self.ident(did, http, sync=True), collection=coll, rkey=rkey), http=http)
        self.log('proof', did, code, err, k=k, **(self.car(out) if code == 200 else self.NOCAR))

    def get_blocks(self, did, ids, odd=None):
        """odd: a malformed CID to put among them."""
        http = odd is not None or (bool(ids) and self.rng.random() < .6)
        known = {i: CID.decode(k) for k, i in self.w.blocks.ids.items()}
        cids = [known[i].encode('base32') if i else
                cid_of(dag_cbor.encode(self.rng.random())).encode('base32') for i in ids]
        if odd is not None:
            cids.insert(self.rng.randint(0, len(cids)), odd)
        code, err, out = self.call(SYNC + 'getBlocks', dict(
            did=self.ident(did, http, sync=True), cids=cids), http=http)
        self.log('blocks', did, code, err, want=ids, odd=odd is not None,
                 **(self.car(out) if code == 200 else self.NOCAR))

    def get_blob(self, did, cid):
        http = self.rng.random() < .6
        code, err, out = self.call(SYNC + 'getBlob', dict(did=did, cid=cid), http=http)
        self.log('blob', did, code, err, to=str(out) if code == 301 else '', cid=cid)

    # -- anything that needs a token ---------------------------------------------------------
    def guarded(self, m, did, auth, body=None):
        """Methods that no correctly authenticated call is expected to get far with here."""
        nsid = {'applyWrites': REPO, 'uploadBlob': REPO, 'getSession': SERVER,
                'refreshSession': SERVER}[m] + m
        with self.w.context():
            self.server.repo = self.w.storage.load_repo(did)
        http = self.rng.random() < .6
        post = m != 'getSession'
        inp = {'applyWrites': {'repo': did, 'writes': []}, 'uploadBlob': b'blob',
               'getSession': {}, 'refreshSession': {}}[m]
        code, err, out = self.call(nsid, input=inp, auth=auth, http=http, post=post)
        self.log('guarded', did, code, err, which=m, auth=auth, leak=TOKEN in json.dumps(out, default=str),
                 rdid=str(out.get('did')) if isinstance(out, dict) else '')

    def session(self, did, password):
        http = self.rng.random() < .6
        os.environ.pop('REPO_PASSWORD', None)
        conf = PASSWORD
        if password == 'unconfigured':
            conf = None
        elif password == 'emptyconf':
            conf, password = '', ''
        if conf is not None:
            os.environ['REPO_PASSWORD'] = conf
        inp = {'identifier': self.rng.choice([did, (self.w.handles.get(did) or did)]), 'password': password}
        auth = self.rng.choice(['none', 'other'])
        code, err, out = self.call(SERVER + 'createSession', input=inp, auth=auth, http=http, post=True)
        self.log('session', did, code, err, good=conf is not None and conf != '' and password == conf,
                 leak=TOKEN in json.dumps(out, default=str),
                 rdid=str(out.get('did')) if isinstance(out, dict) else '')

    # -- import ----------------------------------------------------------------------------------
    def import_repo(self, a, auth='ok'):
        """a: an Archive."""
        w = self.w
        did = a.did
        self.docs[did] = a.doc
        for fn in self.did_mod.resolve_plc, self.did_mod.resolve_web:
            fn.cache.clear()
        ids = [w.blocks.id(c, d) if bytes(cid_of(d)) == bytes(c) else -1 for c, d in a.blocks]
        roots = [w.blocks.id(c) for c in a.roots]
        commit = next((d for c, d in a.blocks if a.roots and c == a.roots[0]), None)
        obj = dag_cbor.decode(commit) if commit else None
        http = self.rng.random() < .6
        code, err, out = self.call(REPO + 'importRepo', input=a.car(), auth=auth, http=http, post=True)
        signed = isinstance(obj, dict) and a.dockey is not None and sig_ok(obj, a.dockey)
        claimed = obj.get('did') if isinstance(obj, dict) else None
        if code == 200:
            with w.context():
                repo = w.storage.load_repo(claimed)
            if repo:
                w.signing[claimed], w.rotation[claimed] = repo.signing_key, repo.rotation_key
                w.blocks.pubkeys[claimed] = repo.signing_key.public_key()
                w.handles[claimed] = repo.handle or ''
                if not a.named:
                    a.handle = repo.handle
        self.log('import', claimed or did, code, err, auth=auth, roots=roots, ids=ids,
                 signed=bool(signed), claimed=isinstance(claimed, str), handle=a.handle or '', named=a.named, what=a.what)


class Archive:
    """A repo archive, built without arroba: contents {path: record}, signed."""

    def __init__(self, did, handle, contents, signer, dockey=None, rev='3jzfcijpj2z2a', what='good'):
        self.did, self.handle, self.what = did, handle, what
        self.named = True           # the DID document's names are as they should be
        blocks, self.records = {}, []
        pairs = []
        for path, rec in sorted(contents.items()):
            data = dag_cbor.encode(rec)
            blocks[cid_of(data)] = data
            self.records.append(cid_of(data))
            pairs.append((path, cid_of(data)))
        root, nodes = tree(pairs)
        self.nodes, self.root = list(nodes), root
        blocks.update(nodes)
        self.commit = sign(dict(did=did, version=3, data=root, rev=rev, prev=None), signer)
        data = dag_cbor.encode(self.commit)
        self.head = cid_of(data)
        self.roots = [self.head]
        self.blocks = [(self.head, data), *blocks.items()]
        self.dockey = signer.public_key() if dockey is None else dockey
        self.doc = None

    def car(self):
        return carlib.write(self.roots, self.blocks)

    def drop(self, cid):
        self.blocks = [(c, d) for c, d in self.blocks if c != cid]


def sign(obj, key):
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import ec
    from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
    from .world import ORDER
    r, s = decode_dss_signature(key.sign(dag_cbor.encode(obj), ec.ECDSA(hashes.SHA256())))
    s = min(s, ORDER[key.curve.name] - s)
    return dict(obj, sig=r.to_bytes(32, 'big') + s.to_bytes(32, 'big'))


def tree(pairs):
    """The canonical tree of sorted (path, CID) pairs: (root CID, {CID: bytes})."""
    blocks = {}

    def put(l, es):
        data = dag_cbor.encode({'l': l, 'e': es})
        blocks[cid_of(data)] = data
        return cid_of(data)

    def build(ps, ly):
        l, es, prev, run = None, [], '', []

        def close(run):
            return build(run, ly - 1) if run else None
        for path, cid in ps:
            if mstlib.layer_of(path) < ly:
                run.append((path, cid))
                continue
            if es:
                es[-1]['t'] = close(run)
            else:
                l = close(run)
            run = []
            n = mstlib.lcp(prev, path)
            es.append({'p': n, 'k': path[n:].encode(), 'v': cid, 't': None})
            prev = path
        if es:
            es[-1]['t'] = close(run)
        else:
            l = close(run)
        return put(l, es)
    return build(pairs, max((mstlib.layer_of(p) for p, _ in pairs), default=0)), blocks
