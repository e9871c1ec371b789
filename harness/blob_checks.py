"""B01: blobs at other servers, with the servers, the clock and the datastore replaced by
stand-ins; judged by spec/BlobTrace.tla."""
import base64
from datetime import datetime, timedelta, timezone
from hashlib import sha256
import io
import json
import logging
import os
import random
import threading
from unittest import mock

import requests
import urllib3

from lib import core, fakeds  # noqa: F401

MAX = 2000
T0 = datetime(2024, 3, 1, tzinfo=timezone.utc)
LONG = 'http://h/' + 'x' * 1600


def cid(data):
    return 'b' + base64.b32encode(b'\x01\x55\x12\x20' + sha256(data).digest()).decode().lower().rstrip('=')


# contents: bytes and duration as MediaInfo would report it (None: no tracks)
CONTENTS = [
    (b'blob contents', None, 0),
    (b'', None, 0),
    (b'x' * MAX, None, 0),
    (b'y' * (MAX + 1), None, 0),
    (b'image', (20, 10, None), 0),
    (b'z' * 600, (20, 10, 0), 0),
    (b'video 3m', (640, 480, 180000), 180000),
    (b'video 3m+', (640, 480, '180001.4'), 180001),
    (b'video short', (640, 480, '4740.000001'), 4740),
    (b'video long', (640, 480, 300000), 300000),
]
BY_BYTES = {c[0]: c for c in CONTENTS}
TYPES = {'image/png': ['image/png', 'image/jpeg', 'image/gif', ''],
         'text/plain': ['text/plain', 'video/mp4', 'application/octet-stream', 'imagery/x', '']}
EXT = {'': '', '.png': 'image/png', '.mp4': 'video/mp4', '.txt': 'text/plain'}
ACCEPT = [[], [], [], ['*/*'], ['image/*'], ['image/png', 'image/jpeg'], ['video/*', 'text/plain'], ['image', 'image/p*']]
LIMITS = [0, 0, 0, 12, 13, 599, 600, MAX + 5]
DOWN = [requests.ConnectionError, requests.Timeout, requests.exceptions.SSLError, requests.exceptions.ReadTimeout]


class Broken:
    """A body that breaks off."""
    def __init__(self, how):
        self.how = how

    def stream(self, *args, **kwargs):
        yield b'some'
        raise self.how

    def read(self, *args, **kwargs):
        raise self.how

    def close(self):
        pass

    def release_conn(self):
        pass


class Adapter(requests.adapters.BaseAdapter):
    def __init__(self, s):
        super().__init__()
        self.s = s

    def send(self, request, **kwargs):
        return self.s.answer(request.url)

    def close(self):
        pass


class Session:
    def __init__(self, seed):
        from flask import Flask
        from lib import world
        from arroba import datastore_storage, server, xrpc_sync  # noqa: F401
        from lib import api  # noqa: F401 (stands in for flask_sock)
        import lexrpc.flask_server
        import webutil.util
        self.ds = datastore_storage
        self.rng = random.Random(seed)
        self.secs = 0.0
        self.dids = ['did:web:b1.com', 'did:web:b2.com']
        self.w = world.World('datastore', keys=[], records=[], dids=self.dids)
        for d in self.dids:
            self.w.create(d, d)
        if any(e.get('r') != 'ok' for e in self.w.ev):
            raise core.MachineryError('B01: no repos')
        app = Flask('verif')
        app.config['PROPAGATE_EXCEPTIONS'] = False
        lexrpc.flask_server.init_flask(server.server, app)
        self.client = app.test_client()
        self.http = webutil.util.session
        self.ev = [dict(ev='init', max=MAX)]
        self.web = {}
        self.fetched = []
        self.during = None
        exts = list(EXT)
        self.urls = [f'http://h/{i}' + ('x' * 1600 if self.rng.random() < .05 else '') for i in range(self.rng.choice([1, 2, 2, 3, 4]))]
        self.urls = [u if len(u) > 100 else u + self.rng.choice(exts) for u in self.urls]
        self.contents = [self.rng.choice(CONTENTS) for _ in range(3)] + [self.rng.choice([c for c in CONTENTS if c[2]])]
        for u in self.urls:
            self.serve(u, dict(kind='down'))

    # -- stand-ins
    def now(self, tz=timezone.utc):
        self.secs += .001
        return (T0 + timedelta(seconds=self.secs)).astimezone(tz)

    def utcnow(self):
        return self.now().replace(tzinfo=None)

    def answer(self, url):
        self.fetched.append(url)
        if self.during:
            fn, self.during = self.during, None
            fn()
        o, raw = self.web.get(url, (dict(kind='down'), requests.ConnectionError))
        if isinstance(raw, type):
            raise raw('injected')
        status, headers, body = raw
        r = requests.Response()
        r.status_code, r.url = status, url
        r.headers.update(headers)
        r.raw = body if isinstance(body, Broken) else io.BytesIO(body)
        return r

    def media(self, f, *args, **kwargs):
        c = BY_BYTES.get(f.read())
        if c is None or c[1] is None:
            if self.rng.random() < .3:
                raise OSError('no libmediainfo')
            return mock.Mock(video_tracks=[], image_tracks=[])
        track = mock.Mock(width=c[1][0], height=c[1][1], duration=c[1][2])
        return mock.Mock(video_tracks=[track] if c[1][2] else [], image_tracks=[track])

    # -- what a URL serves
    def serve(self, url, x):
        rng, kind = self.rng, x['kind']
        guess = EXT[next((e for e in EXT if e and url.endswith(e)), '')]
        o = dict(kind=kind, type='', guess=guess, declared=-1, cid='', size=0, dur=0)
        if kind == 'client':
            raw = rng.choice([404, 404, 410, 403, 401, 400, 400, 402, 405, 406, 409, 416, 421, 429, 431, 451, 499]), {}, b'no'
        elif kind == 'server':
            raw = rng.choice([500, 502, 503, 599]), {'Content-Type': 'text/html'}, b'oops'
        elif kind == 'down':
            raw = rng.choice(DOWN)
        else:
            body, _, dur = x['content']
            headers = {}
            if x['type']:
                headers['Content-Type'] = o['type'] = x['type']
            declared = x['declared']
            if declared is not None:
                headers['Content-Length'] = str(declared)
                o['declared'] = declared if isinstance(declared, int) else -1
            o.update(cid=cid(body), size=len(body), dur=dur)
            if kind == 'cut':
                body = Broken(rng.choice([urllib3.exceptions.ProtocolError('cut'),
                                          urllib3.exceptions.ReadTimeoutError(None, url, 'slow')]))
            raw = 200 if rng.random() < .9 else 203, headers, body
        self.web[url] = o, raw
        self.ev.append(dict(ev='serve', u=url, o=o))

    def pick(self, x):
        """Something concrete for what the model says."""
        rng = self.rng
        kind = x['o']
        out = dict(kind=kind)
        if kind in ('ok', 'cut'):
            c = self.contents[int(x['c']) % 4]
            declared = rng.choice([len(c[0]), len(c[0]), None, None, 'abc', '', 5, MAX]) if not x['big'] else \
                rng.choice([MAX + 1, MAX + 1, 10 ** 9])
            if declared == len(c[0]) and declared > MAX:
                declared = None
            out.update(content=c, type=rng.choice(TYPES[x['m']]), declared=declared)
        return out

    # -- calls
    def run(self, fn):
        self.fetched = []
        try:
            with core.time_limit(20), self.fake_world(), self.w.ndb_client.context():
                return 'ok', fn()
        except core.Hang:
            return 'hang', None
        except Exception as e:
            return 'raised', e

    def fake_world(self):
        import contextlib
        import webutil.util
        from google.cloud.ndb import model
        from pymediainfo import MediaInfo
        stack = contextlib.ExitStack()
        for obj, name, val in ((webutil.util, 'now', self.now), (model.DateTimeProperty, '_now', staticmethod(self.utcnow)),
                               (MediaInfo, 'parse', self.media),
                               (requests.Session, 'get_adapter', lambda s, url=None: Adapter(self))):
            stack.enter_context(mock.patch.object(obj, name, val))
        stack.enter_context(mock.patch.object(type(self.http), 'get_adapter', lambda s, url=None: Adapter(self)))
        return stack

    def stored(self):
        out = []
        with self.w.ndb_client.context():
            for b in self.ds.AtpRemoteBlob.query().fetch():
                out.append(dict(url=b.url or b.key.id(), key=b.key.id(), cid=b.cid or '',
                                size=b.size if b.size is not None else -1, mime=b.mime_type, inactive=bool(b.status),
                                dids=[self.dids.index(k.id()) + 1 for k in b.repos],
                                updated=b.updated))
        times = sorted({x['updated'] for x in out})
        return [dict(x, updated=times.index(x['updated'])) for x in out]

    def end(self, e):
        fetched = self.fetched
        self.ev.append(dict(e, fetched=fetched, stored=self.stored(), now=int(self.secs)))
        self.secs = int(self.secs) + 1.0

    def seed(self, url):
        c = self.rng.choice(self.contents)
        mime = self.rng.choice(['image/png', 'text/plain'])

        def fn():
            self.ds.AtpRemoteBlob(id=url, cid=cid(c[0]), size=len(c[0]), mime_type=mime).put()
        self.run(fn)
        self.end(dict(ev='seed', u=url, cid=cid(c[0]), size=len(c[0]), mime=mime))

    def register(self, url, did, limit=0, accept=(), get=True):
        """(r, cid, size, mime)"""
        def fn():
            repo = self.ds.AtpRepo.get_by_id(self.dids[did - 1]) if did else None
            kw = dict(get_fn=self.http.get) if get else {}
            b = self.ds.AtpRemoteBlob.get_or_create(url=url, repo=repo, max_size=limit or None,
                                                    accept_types=list(accept) or None, name='x', **kw)
            return b.as_object()
        r, got = self.run(fn)
        if r == 'ok':
            return dict(r='ok', cid=got['ref'].encode('base32') if got else '', size=got['size'] if got else -1,
                        mime=got['mimeType'] if got else '')
        if r == 'raised':
            from lexrpc import ValidationError
            r = 'http' if isinstance(got, requests.RequestException) else \
                'invalid' if isinstance(got, ValidationError) else 'raised'
        return dict(r=r, cid='', size=-1, mime='', exc=repr(got)[:80])

    def reg(self, url, did, other=None, **kw):
        """other: a second worker registers the URL for that repo while the first one's fetch
        is under way."""
        rng = self.rng
        args = kw or dict(limit=rng.choice(LIMITS), accept=rng.choice(ACCEPT), get=rng.random() < .7)
        e = dict(ev='reg', u=url, d=did, limit=args.get('limit', 0), accept=list(args.get('accept', ())), nested=False)
        if other is not None:
            def inner():
                self.ev.append(dict(ev='begin', u=url, d=did, now=int(self.secs)))
                keep = self.fetched
                res = []
                t = threading.Thread(target=lambda: res.append(self.inner(url, other, args)))
                t.start()
                t.join()
                self.fetched = keep
                e['nested'] = True
            self.during = inner
        res = self.register(url, did, **args)
        self.during = None
        self.end(dict(e, **res))

    def inner(self, url, other, args):
        at = self.secs
        self.fetched = []
        try:
            with self.w.ndb_client.context():
                repo = self.ds.AtpRepo.get_by_id(self.dids[other - 1])
                b = self.ds.AtpRemoteBlob.get_or_create(url=url, repo=repo, get_fn=self.http.get)
                o = b.as_object()
                res = dict(r='ok', cid=o['ref'].encode('base32') if o else '', size=o['size'] if o else -1,
                           mime=o['mimeType'] if o else '')
        except Exception as x:
            from lexrpc import ValidationError
            r = 'http' if isinstance(x, requests.RequestException) else \
                'invalid' if isinstance(x, ValidationError) else 'raised'
            res = dict(r=r, cid='', size=-1, mime='', exc=repr(x)[:80])
        self.ev.append(dict(ev='reg', u=url, d=other, limit=0, accept=[], nested=False, fetched=self.fetched,
                            now=int(at), stored=self.stored(), **res))

    def get(self, c, did=1):
        def fn():
            return self.client.get('/xrpc/com.atproto.sync.getBlob', query_string=dict(did=self.dids[did - 1], cid=c))
        r, got = self.run(fn)
        e = dict(ev='get', cid=c, r=r, to='')
        if r == 'ok':
            if got.status_code in (301, 302, 303, 307, 308):
                e.update(r='redirect', to=got.headers['Location'])
            elif got.status_code == 400:
                e.update(r='none', exc=got.get_data(as_text=True)[:100])
            else:
                e.update(r='raised', exc=str(got.status_code))
        self.end(e)

    def list(self, did):
        limit = self.rng.choice([None, 1, 2, 500])

        def fn():
            cids, cursor = [], None
            for _ in range(20):
                q = dict(did=self.dids[did - 1], **({'limit': limit} if limit else {}),
                         **({'cursor': cursor} if cursor else {}))
                r = self.client.get('/xrpc/com.atproto.sync.listBlobs', query_string=q)
                if r.status_code != 200:
                    raise ValueError(r.status_code)
                cids += r.json['cids']
                cursor = r.json.get('cursor')
                if not cursor:
                    return cids
            raise ValueError('endless')
        r, got = self.run(fn)
        self.end(dict(ev='list', d=did, r=r, cids=got if r == 'ok' else []))

    def tick(self, days):
        self.secs += days * 86400


def play(item):
    i, h, seed = item
    s = Session(f'{seed}-blob-{i}')
    rng = s.rng
    for u in s.urls:
        if len(u) < 1500 and rng.random() < .08:
            s.seed(u)
    for x in h:
        u = s.urls[(x['u'] - 1) % len(s.urls)] if x['u'] else None
        if x['op'] == 'serve':
            s.serve(u, s.pick(x))
        elif x['op'] == 'reg':
            s.reg(u, x['x'], other=rng.choice([1, 2]) if rng.random() < .2 else None)
        elif x['op'] == 'get':
            known = sorted({b['cid'] for b in s.ev[-1].get('stored', ()) if b['cid']})
            s.get(rng.choice(known) if known and rng.random() < .6 else cid(s.contents[int(x['c']) % 4][0]))
        elif x['op'] == 'list':
            s.list(x['x'])
        else:
            s.tick(x['x'])
    if rng.random() < .5:
        recheck(s)
    return s.ev


def recheck(s):
    """What a URL that served a blob serves when it's looked at again, whenever that is."""
    rng = s.rng
    u = rng.choice(s.urls)
    images = [c for c in s.contents if len(c[0]) <= MAX]
    if not images:
        return
    ok = dict(kind='ok', content=rng.choice(images), type='image/png', declared=None)
    s.serve(u, ok)
    for _ in range(rng.randint(1, 2)):
        s.reg(u, 1, limit=0, accept=[], get=True)
        s.tick(rng.choice([6, 7, 8, 8, 8, 30]))
        s.serve(u, dict(kind=rng.choice(['client', 'client', 'client', 'server', 'down'])))
        if rng.random() < .5:
            s.reg(u, rng.choice([1, 2]), limit=0, accept=[], get=True)
        else:
            s.get(cid(ok['content'][0]))
        if rng.random() < .3:
            s.serve(u, ok)
            s.tick(rng.choice([1, 8]))
        s.get(cid(ok['content'][0]))


def changed_served():
    """The re-check that a request makes finds other content there, but redirects there."""
    s = Session('finding')
    u = s.urls[0]
    s.serve(u, dict(kind='ok', content=CONTENTS[0], type='image/png', declared=None))
    s.reg(u, 1, limit=0)
    s.tick(8)
    s.serve(u, dict(kind='ok', content=CONTENTS[4], type='image/png', declared=None))
    s.get(cid(CONTENTS[0][0]))
    return s.ev


def long_urls():
    """Two URLs that start with the same 1500 bytes are taken for the same one."""
    s = Session('finding')
    a, b = LONG + 'a', LONG + 'b'
    for u, c in ((a, CONTENTS[0]), (b, CONTENTS[4])):
        s.serve(u, dict(kind='ok', content=c, type='image/png', declared=None))
    s.reg(a, 1, limit=0)
    s.reg(b, 2, limit=0)
    return s.ev


def check_B01(ctx):
    os.environ.update(BLOB_MAX_BYTES=str(MAX), BLOB_REFETCH_DAYS='7', BLOB_REFETCH_TYPES='image')
    logging.disable(logging.CRITICAL)
    cfg = ('SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Dump\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Urls = {u}\n Dids = 2\n'
           ' Contents = {c}\n Depth = {d}\n Sim = {s}\n ClearTooBig = {k}\n CompareAfter = {p}\n')
    depth = ctx.pick(6, 7)
    ctx.model('BlobGen', cfg.format(u=2, c=2, d=depth, s=0, k='TRUE', p='TRUE'), env=dict(DUMP='/dev/null'))
    for k, p in (('FALSE', 'TRUE'), ('TRUE', 'FALSE')):
        if not core.tlc('BlobGen', cfg.format(u=2, c=2, d=6, s=0, k=k, p=p), env=dict(DUMP='/dev/null'), check=False).violation:
            raise core.MachineryError(f'BlobGen should fail with ClearTooBig={k} CompareAfter={p}')
    n, depth = ctx.pick(600, 12000), 30
    dump = os.path.join(ctx.tmp, 'blob')
    ctx.model('BlobGen', cfg.format(u=4, c=4, d=depth, s=n, k='TRUE', p='TRUE'), env=dict(DUMP=dump), workers=1,
              args=['-simulate', f'num={n}', '-depth', depth + 2, '-seed', ctx.seed])
    hs = [json.loads(json.loads(line)) for line in open(dump)]
    traces = core.parallel(play, [(i, h, ctx.seed) for i, h in enumerate(hs)])
    ctx.sample(traces[0][:20])
    ctx.validate('BlobTrace', traces, clauses={'B01'}, shards=8, consts=dict(Strict='FALSE'))
    ctx.findings('BlobTrace', {'changed-served': changed_served, 'long-urls': long_urls}, consts=dict(Strict='TRUE'))
    ctx.assumptions += ['URLs, clock and MediaInfo are stand-ins; answers are 200/203, 4xx, 5xx, failures to connect and bodies that break off',
                        'URLs differ within their first 1500 bytes']
