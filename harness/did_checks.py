"""D01: resolution of handles and DIDs, with DNS and HTTPS answers from stand-ins; judged by
spec/ResolveTrace.tla."""
import json
import logging
import os
import random
from unittest import mock

import dns.exception
import dns.flags
import dns.message
import dns.name
import dns.rdata
import dns.rdataclass
import dns.rdatatype
import dns.resolver
import requests

from lib import core, plcdir

HOST = 'plc.dir.test'


# -- outcomes --------------------------------------------------------------------------------
def answer(name, recs):
    name = dns.name.from_text(name)
    msg = dns.message.make_query(name, dns.rdatatype.TXT)
    resp = dns.message.make_response(msg)
    from dns.rdtypes.ANY.TXT import TXT
    rds = [TXT(dns.rdataclass.IN, dns.rdatatype.TXT, [s.encode('latin-1') for s in r]) for r in recs]
    rr = resp.find_rrset(resp.answer, name, dns.rdataclass.IN, dns.rdatatype.TXT, create=True)
    for rd in rds:
        rr.add(rd, 300)
    return dns.resolver.Answer(name, dns.rdatatype.TXT, dns.rdataclass.IN, resp)


# DNS: records (with a DID first), or an exception
DNS = [
    [['did=did:plc:dns1']],
    [['v=spf1 -all'], ['did=did:web:dns2.com']],
    [['did=did:plc:', 'split3']],                      # one record in several strings
    [['did=did:web:dns4.com%3A80:x'], ['other']],
    [['']],
    [['did:plc:nope']],
    [['did=']],
    [['did=plc:nope']],
    [['did=did:'], ['did']],
    [['xdid=did:plc:nope']],
    [['DID=did:plc:nope'], ['did =did:plc:nope']],
    [['did=did:plc:no pe']],
    [['quo"te\\'], ['did=did:plc:q"x']],
    dns.resolver.NXDOMAIN,
    dns.resolver.NoAnswer,
    dns.resolver.NoNameservers,
    dns.exception.Timeout,
    dns.resolver.LifetimeTimeout,
    dns.resolver.YXDOMAIN,
    dns.name.LabelTooLong,
    dns.resolver.NoResolverConfiguration,
]
GOOD_DNS = 4
# HTTPS: (status, body), or an exception
HTTPS = [
    (200, 'did:plc:web1'),
    (200, '  did:web:web2.com \n'),
    (201, 'did:plc:web3\r\n'),
    (200, ''),
    (200, 'did:'),
    (200, 'nope did:plc:x'),
    (200, '<html>did:plc:x</html>'),
    (200, 'did:plc:two\nlines'),
    (200, 'did:plc:a b'),
    (200, 'DID:plc:x'),
    (404, 'did:plc:gone'),
    (500, 'did:plc:down'),
    (403, ''),
    requests.ConnectionError,
    requests.Timeout,
    requests.exceptions.SSLError,
    requests.TooManyRedirects,
    requests.exceptions.InvalidURL,
    requests.exceptions.ChunkedEncodingError,
]
GOOD_HTTPS = 3
DOCS = [(200, '{"id": "d", "n": 1}'), (200, '{"alsoKnownAs": ["at://x"], "n": 2}'), (200, '{}'), (200, 'not json'),
        (200, ''), (404, '{"message": "no"}'), (410, '{"id": "d", "n": 3}'), (500, '{"n": 4}'), (429, ''),
        requests.ConnectionError, requests.Timeout, requests.exceptions.SSLError]


class Session:
    def __init__(self, mod):
        self.mod = mod
        self.events = [dict(ev='init', host=HOST)]
        self.dns = self.http = None
        self.reqs = []

    def get(self, url, *args, **kwargs):
        self.reqs.append(['get', url])
        if not isinstance(self.http, tuple):
            raise self.http('injected')
        return plcdir.response(self.http[0], self.http[1].encode(), url)

    def resolve(self, qname, rdtype='A', *args, **kwargs):
        self.reqs.append(['dns', str(qname)])
        if not isinstance(self.dns, list):
            raise (self.dns(timeout=1, errors=[]) if self.dns is dns.resolver.LifetimeTimeout else self.dns())
        return answer(str(qname), self.dns)

    def call(self, fn, arg, d, w):
        self.dns, self.http, self.reqs = d, w, []
        name = dict(handle='resolve_handle', resolve='resolve', plc='resolve_plc', web='resolve_web')[fn]
        status, body = w if isinstance(w, tuple) else (0, '')
        try:
            doc = json.dumps(json.loads(body), sort_keys=True)
        except ValueError:
            doc = ''
        e = dict(ev='call', fn=fn, str=isinstance(arg, str), input=arg if isinstance(arg, str) else repr(arg),
                 recs=d if isinstance(d, list) else [], status=status, body=body, doc=doc, r='ok', val='',
                 exc='', value=False, request=False)
        try:
            with core.time_limit(10), mock.patch('dns.resolver.resolve', self.resolve), \
                    mock.patch('dns.resolver.Resolver.resolve', lambda s, *a, **k: self.resolve(*a, **k)):
                res = getattr(self.mod, name)(arg, get_fn=self.get)
            if res is None:
                e['r'] = 'none'
            else:
                e['val'] = res if isinstance(res, str) else json.dumps(res, sort_keys=True)
        except core.Hang:
            e['r'] = 'hang'
        except Exception as x:
            e.update(r='raised', exc=repr(x)[:100], value=isinstance(x, ValueError),
                     request=isinstance(x, (requests.RequestException, ValueError)))
        e['reqs'] = self.reqs
        self.events.append(e)


LABEL = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-'


def handles(rng, n):
    """Handles around the boundaries of the syntax, valid and not."""
    out = ['', 'foo', '.', 'a.', '.a', 'a..b', 'a.b.', '-a.b', 'a-.b', 'a.-b', 'a.b-', 'a_b.c', 'a b.c', 'a.1', 'a.1b',
           'a.b1', '1.b', 'a.b\n', '\na.b', 'a.b ', ' a.b', 'A.B', 'xn--ls8h.test', 'a.b:80', 'a.b/c', 'a@b.c', 'é.com',
           'a.cöm', 'a\u0661.com', 'a.b?x', 'a.b#x', 'did:plc:x', 'at://a.b', 'a--b.c', 'a' * 63 + '.b', 'a' * 64 + '.b',
           'a.' + 'b' * 63, 'a.' + 'b' * 64, '.'.join(['a' * 49] * 5) + '.com', '.'.join(['a' * 49] * 5) + '.comm',
           'a.' * 125 + 'com', 'a.' * 126 + 'c', 'a.' * 126 + 'co', 'a.' * 400 + 'com', '127.0.0.1', 'a.b.c.d.e.f', '*.com']
    for _ in range(n):
        h = '.'.join(''.join(rng.choice(LABEL) for _ in range(rng.choice([1, 2, 3, 5, 62, 63, 64])))
                     for _ in range(rng.choice([1, 2, 2, 3, 4])))
        if rng.random() < .3:
            i = rng.randrange(len(h) + 1)
            h = h[:i] + rng.choice('.-_ \n/:é@%') + h[i:]
        out.append(h)
    return out + [None, 1, b'a.b', 1.5, True, ('a.b',)]


PATHS = ['', ':a', ':a:b', ':user:alice', ':a%20b', ':a%3Ab', ':a%3Fb', ':x.y:z', ':.well-known', ':A-b_c', ':%2E%2E:x',
         ':a%2Fb', ':a%25b']


def dids(rng, i):
    u = f'u{i}'
    webs = [f'did:web:{u}.com{p}' for p in PATHS] + [f'did:web:{u}.com%3A{port}{p}' for port in (80, 3000)
                                                     for p in ('', ':a', ':a%3ab')]
    webs += [f'did:web:localhost%3a80{i}', f'did:web:{u}-x.co.uk', f'did:web:{u.upper()}.COM']
    plcs = [f'did:plc:{u}{"a" * 22}', f'did:plc:{u}', f'did:plc:{u}:x', f'did:plc:{u.upper()}']
    bad = ['', 'did', 'did:', 'did:plc', 'did:web', 'did:key:z' + u, 'did:PLC:' + u, 'DID:plc:' + u, ' did:plc:' + u,
           u + 'did:plc:x', 'did:webs:' + u, 'did:plcx:' + u, u + '.com', 'https://' + u + '.com', 'at://did:plc:' + u,
           'did:web' + u, '\ndid:web:' + u + '.com']
    return webs, plcs, bad


def gen(ctx, dns_n, http_n, good_dns, good_http, calls, sim=None):
    dump = os.path.join(ctx.tmp, f'res-{dns_n}-{calls}')
    cfg = ('SPECIFICATION Spec\nINVARIANT Inv\n{inv}CHECK_DEADLOCK FALSE\nCONSTANTS\n'
           f' Dns = {dns_n}\n Https = {http_n}\n GoodDns = {good_dns}\n GoodHttps = {good_http}\n Calls = {calls}\n'
           f' CacheFailures = {{cf}}\n Sample = {"TRUE" if sim else "FALSE"}\n')
    args = ['-simulate', f'num={sim}', '-depth', calls + 3, '-seed', ctx.seed] if sim else []
    res = ctx.model('ResolveGen', cfg.format(inv='INVARIANT Dump\n', cf='FALSE'), env=dict(DUMP=dump), workers=1,
                    args=args)
    bad = core.tlc('ResolveGen', cfg.format(inv='', cf='TRUE').replace(f'Calls = {calls}', 'Calls = 2').replace('Sample = TRUE', 'Sample = FALSE'), check=False)
    if not bad.violation:
        raise core.MachineryError('ResolveGen: caching failures should fail')
    return [json.loads(json.loads(line)) for line in open(dump)]


def check_D01(ctx):
    os.environ['PLC_HOST'] = HOST
    logging.disable(logging.CRITICAL)
    from arroba import did as mod
    traces = []
    # every two outcomes in a row, then sampled longer sequences
    pairs = gen(ctx, len(DNS), len(HTTPS), GOOD_DNS, GOOD_HTTPS, 2)
    rng = random.Random(ctx.seed)
    if not ctx.thorough:
        pairs = rng.sample(pairs, 16000)
    longer = gen(ctx, len(DNS), len(HTTPS), GOOD_DNS, GOOD_HTTPS, 6, ctx.pick(1500, 20000))

    def handle_trace(x):
        i, seq = x
        s = Session(mod)
        for d, w in seq:
            s.call('handle', f'h{i}.Example-{i % 7}.com', DNS[d - 1], HTTPS[w - 1])
        return s.events
    traces += core.parallel(handle_trace, list(enumerate(pairs + longer)))
    docseqs = gen(ctx, 1, len(DOCS), 0, 3, 3) if ctx.thorough else rng.sample(gen(ctx, 1, len(DOCS), 0, 3, 3), 400)

    def doc_trace(x):
        i, seq = x
        rng = random.Random(f'{ctx.seed}-doc-{i}')
        webs, plcs, bad = dids(rng, i)
        s = Session(mod)
        for kind in (webs, plcs):
            for did in rng.sample(kind, 2) if i else kind:
                fns = ['resolve', 'web' if kind is webs else 'plc']
                for _, w in seq:
                    s.call(rng.choice(fns), did, dns.resolver.NXDOMAIN, DOCS[w - 1])
        for did in rng.sample(bad, 2) if i else bad + [None]:
            for fn in ('resolve', 'plc', 'web'):
                s.call(fn, did, DNS[0], DOCS[0])
        s.call('plc', webs[i % len(webs)], DNS[0], DOCS[0])
        s.call('web', plcs[i % len(plcs)], DNS[0], DOCS[0])
        return s.events
    traces += core.parallel(doc_trace, list(enumerate(docseqs)))

    def syntax_trace(x):
        i, h = x
        s = Session(mod)
        s.call('handle', h, dns.resolver.NXDOMAIN if i % 2 else dns.name.NameTooLong if len(str(h)) > 244 else DNS[0],
               HTTPS[0])
        return s.events
    hs = {repr(h): h for h in handles(rng, ctx.pick(1500, 20000))}
    traces += core.parallel(syntax_trace, list(enumerate(hs.values())))
    ctx.sample(traces[0])
    ctx.extra['handles of varied syntax'] = len(hs)
    ctx.validate('ResolveTrace', traces, clauses={'D01'}, shards=8)
    ctx.assumptions += ['DNS and HTTPS are stand-ins; answers without CNAMEs and with at most one DID',
                        'caches are not followed over their time to live']
