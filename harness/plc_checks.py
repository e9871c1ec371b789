"""P01: did:plc operations, sent to a validating directory; histories generated from
spec/PlcGen.tla, traces validated against spec/PlcTrace.tla."""
import copy
import json
import logging
import os
import random

from cryptography.hazmat.primitives.asymmetric import ec

from lib import core, plcdir

PDS_HOST, PLC_HOST = 'pds.local', 'plc.local'
NKEYS = 4


class Runner:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.dir = plcdir.Directory()
        self.priv = {i: ec.derive_private_key(7919 * i + 13, ec.SECP256K1()) for i in range(1, NKEYS + 1)}
        self.ids = {plcdir.did_key(k): i for i, k in self.priv.items()}
        self.dids = {}          # history's number -> DID
        self.events = [dict(ev='init', dflt=f'https://{PDS_HOST}')]
        self.fault, self.cur, self.raced = '', None, False

    def key_id(self, s, new=None):
        new = new or 1000 + len(self.ids)
        if s not in self.ids and plcdir.pubkey(s):
            # a made-up key of an earlier creation that failed is forgotten
            self.ids = {k: i for k, i in self.ids.items() if i != new}
            self.ids[s] = new
        return self.ids.get(s, -1)

    def abstract(self, did, op):
        op = op if isinstance(op, dict) else {}
        log = self.dir.logs.get(did, [])
        prev = op.get('prev')
        at = [i + 1 for i, e in enumerate(log) if e['cid'] == prev]

        def get(*path):
            x = op
            for p in path:
                x = x.get(p) if isinstance(x, dict) else None
            return x
        n = self.cur or 0
        rot = get('rotationKeys')
        rot = rot if isinstance(rot, list) else []
        sk = self.key_id(get('verificationMethods', 'atproto'), 100 + n)
        rids = [self.key_id(k, 200 + n) for k in rot]
        aka = get('alsoKnownAs')
        by = sorted(self.ids[k] for k in plcdir.signers(op, list(self.ids)))
        return dict(prev=0 if prev is None else at[-1] if at else -1, rot=rids, by=by,
                    aka=[str(a) for a in aka] if isinstance(aka, list) else [],
                    pds=str(get('services', 'atproto_pds', 'endpoint')), sk=sk)

    def num(self, did):
        for n, d in self.dids.items():
            if d == did:
                return n
        return self.cur if self.kind == 'create' else -1

    # what the library is given to make requests with
    def get(self, url, *args, **kwargs):
        prefix = f'https://{PLC_HOST}/'
        known = url.startswith(prefix + str(self.dids.get(self.cur)) + '/log')
        f = self.fault
        status, obj = self.dir.get(url.removeprefix(prefix))
        ok, down = True, False
        if f in ('get-404', 'get-500'):
            status, obj, ok, down = int(f[4:]), {'message': 'injected'}, False, True
        elif f == 'get-empty':
            obj, ok = [], False
        elif f == 'get-down':
            ok, down = False, True
        elif status != 200:
            ok = down = False
        self.events.append(dict(ev='get', known=known, ok=ok, down=down))
        if f == 'race':
            self.race()
        if f == 'get-down':
            import requests
            raise requests.ConnectionError('injected')
        return plcdir.response(status, obj, url)

    def race(self):
        if self.raced or self.cur not in self.dids:
            return
        self.raced = True
        cur = [e for e in self.dir.logs[self.dids[self.cur]] if not e['nullified']][-1]
        i = self.ids.get(cur['operation']['rotationKeys'][0])
        self.foreign(self.cur, dict(prev=0, by=i, rot=cur['operation']['rotationKeys'], aka=['at://race.r'],
                                    pds='https://else', sk=1), head=True)

    def foreign(self, n, c, head=False):
        did = self.dids.get(n)
        log = self.dir.logs.get(did, [])
        if not log or c['by'] not in self.priv or c['prev'] > len(log):
            return
        keys = {v: k for k, v in self.ids.items()}
        prev = log[-1] if head else log[c['prev'] - 1]
        op = plcdir.sign(dict(
            type='plc_operation', rotationKeys=[k if isinstance(k, str) else keys[k] for k in c['rot']],
            verificationMethods={'atproto': keys.get(c['sk'], keys[1])}, alsoKnownAs=c['aka'],
            services={'atproto_pds': dict(type='AtprotoPersonalDataServer', endpoint=c['pds'])}, prev=prev['cid']),
            self.priv[c['by']])
        ab = self.abstract(did, op)
        self.events.append(dict(ev='foreign', d=n, op=ab, stored=self.dir.accept(did, op)))

    def post(self, url, *args, json=None, data=None, **kwargs):
        import requests
        import json as js
        body = copy.deepcopy(json) if json is not None else js.loads(data)
        prefix = f'https://{PLC_HOST}/'
        did = url.removeprefix(prefix)
        n = self.num(did)
        good = url.startswith(prefix) and plcdir.well_formed(body)
        derived = good and plcdir.plc_did(body) == did
        ab = self.abstract(did, body)
        f = self.fault
        stored = f in ('', 'race', 'post-lost') or f.startswith('get')
        stored = stored and self.dir.accept(did, body)
        if stored and self.kind == 'create':
            self.dids[self.cur] = did
        ok = stored and f != 'post-lost'
        self.events.append(dict(ev='post', d=n, op=ab, shape=good, derived=derived, ok=ok, stored=stored,
                                down=not ok))
        if f in ('post-down', 'post-lost'):
            raise requests.ConnectionError('injected')
        if f in ('post-400', 'post-500'):
            return plcdir.response(int(f[5:]), {'message': 'injected'}, url)
        return plcdir.response(200 if stored else 400, {} if stored else {'message': 'Invalid operation'}, url)

    # calls
    def run(self, hist):
        for h in hist:
            c = h['c']
            if c['kind'] == 'skip':
                continue
            self.cur, self.kind = h['d'], c['kind']
            if c['kind'] == 'foreign':
                self.foreign(h['d'], c)
                continue
            if (c['kind'] == 'create') == (h['d'] in self.dids):
                continue         # the history went another way (only after a violation)
            self.call(h['d'], c)
        return self.events

    def either(self, key):
        return key.public_key() if self.rng.random() < .5 else key

    def call(self, n, c):
        import requests
        from arroba import did as mod
        rng = self.rng
        c = dict(c)
        bad = c['bad']
        if c['kind'] == 'update' and c['rk'] not in self.priv:
            c['rk'] = 1
        if bad == 'slash' and not c['pds']:
            c['pds'] = 'https://p.q'
        if c['kind'] != 'create' and c['sk'] not in self.priv and c['kind'] == 'update':
            c['sk'] = 1
        self.fault, self.raced = c['fault'], False
        if c['kind'] == 'rollback' and c['rk'] not in self.priv:
            c['rk'] = 1
        self.events.append(dict(ev='call', d=n, c=c))
        kw = dict(post_fn=self.post)
        if c['kind'] != 'create' or rng.random() < .3:
            kw['get_fn'] = self.get
        args = []
        if c['kind'] == 'rollback':
            kw['rotation_key'] = self.priv[c['rk']]
            if c['n'] != 1 or rng.random() < .5:
                kw['num_operations'] = c['n']
        else:
            handle = c['handle'].removeprefix('at://')
            if bad == 'handle':
                handle = rng.choice([17, ['h.x'], b'h.x'] + ([None, ''] if c['kind'] == 'create' else []))
            if c['kind'] == 'create' and rng.random() < .5:
                args.append(handle)
            elif handle or c['kind'] == 'create':
                kw['handle'] = handle
            elif rng.random() < .3:
                kw['handle'] = None
            if c['aka'][0]:
                a = c['aka'][1]
                kw['also_known_as'] = a[0] if len(a) == 1 and rng.random() < .5 else rng.choice([list, tuple])(a)
            if c['pds']:
                kw['pds_url'] = c['pds'] + ('/' if bad == 'slash' else '')
            elif rng.random() < .3:
                kw['pds_url'] = None
            if c['sk'] in self.priv:
                kw['signing_key'] = self.either(self.priv[c['sk']])
            if c['rk'] in self.priv:
                kw['rotation_key'] = self.priv[c['rk']]
            if c['nrk']:
                kw['new_rotation_key'] = self.either(self.priv[c['nrk']])
            elif rng.random() < .3:
                kw['new_rotation_key'] = None
            p256 = ec.derive_private_key(99, ec.SECP256R1())
            if bad == 'curve-signing':
                kw['signing_key'] = self.either(p256)
            elif bad == 'curve-rotation':
                kw[rng.choice(['rotation_key', 'new_rotation_key'])] = p256
            elif bad == 'public-rotation':
                kw['rotation_key'] = self.priv[1].public_key()
        ret = dict(ev='ret', r='ok', exc='', returned=False, request=False)
        try:
            with core.time_limit(20):
                if c['kind'] == 'create':
                    x = mod.create_plc(*args, **kw)
                elif c['kind'] == 'update':
                    x = mod.update_plc(self.dids[n], **kw)
                else:
                    x = mod.rollback_plc(self.dids[n], **kw)
            ret.update(self.result(mod, n, x))
        except core.Hang:
            ret['r'] = 'hang'
        except Exception as e:
            ret.update(r='raised', exc=repr(e)[:120], request=isinstance(e, requests.RequestException))
        if self.fault == 'race':
            self.race()
        self.events.append(ret)
        self.fault = ''

    def result(self, mod, n, x):
        if x is None or not hasattr(x, 'doc'):
            return dict(returned=False)
        doc, did = x.doc, x.did
        vm = doc.get('verificationMethod') or [{}]
        sv = doc.get('service') or [{}]
        shape = (len(vm) == len(sv) == 1 and doc.get('id') == did and vm[0].get('id') == f'{did}#atproto'
                 and vm[0].get('controller') == did and vm[0].get('type') == 'Multikey'
                 and sv[0].get('id') in ('#atproto_pds', f'{did}#atproto_pds')
                 and sv[0].get('type') == 'AtprotoPersonalDataServer'
                 and set(doc) == {'@context', 'id', 'alsoKnownAs', 'verificationMethod', 'service'})
        ksk = krk = -1
        if x.signing_key:
            ksk = self.key_id(plcdir.did_key(x.signing_key))
        if x.rotation_key:
            k = plcdir.did_key(x.rotation_key)
            krk = self.key_id(k)
            if isinstance(x.rotation_key, ec.EllipticCurvePrivateKey):
                self.priv.setdefault(krk, x.rotation_key)
        if x.signing_key and isinstance(x.signing_key, ec.EllipticCurvePrivateKey):
            self.priv.setdefault(ksk, x.signing_key)
        handle, rsk = mod.get_handle(doc), mod.get_signing_key(doc)
        return dict(returned=True, did=did == self.dids.get(n), docshape=shape, aka=doc.get('alsoKnownAs') or [],
                    pds=str(sv[0].get('serviceEndpoint')),
                    sk=self.key_id('did:key:' + str(vm[0].get('publicKeyMultibase'))),
                    handle=f'at://{handle}', rsk=self.key_id(plcdir.did_key(rsk)) if rsk else -1, ksk=ksk, krk=krk)


PLC_CFG = """SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
 Keys = {keys}
 Handles = {handles}
 Endpoints = {{"p"}}
 MaxLog = {maxlog}
 MaxForeign = {foreign}
 SkipNullified = {skip}
CHECK_DEADLOCK FALSE
"""


def histories(ctx, n, depth, ndids):
    dump = os.path.join(ctx.tmp, f'plc-{depth}-{ndids}')
    cfg = f'SPECIFICATION Spec\nINVARIANT Dump\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NDids = {ndids}\n' \
          f' NKeys = {NKEYS}\n Depth = {depth}\n'
    res = core.tlc('PlcGen', cfg, env=dict(DUMP=dump), workers=1,
                   args=['-simulate', f'num={n}', '-depth', depth + 3, '-seed', ctx.seed])
    ctx.states += res.generated
    ctx.transitions += res.generated
    return [json.loads(json.loads(line)) for line in open(dump)]


def check_P01(ctx):
    os.environ.update(PDS_HOST=PDS_HOST, PLC_HOST=PLC_HOST)
    logging.disable(logging.CRITICAL)
    runs = ctx.pick([(3, 2)], [(4, 1), (3, 3)])
    for maxlog, foreign in runs:
        ctx.model('Plc', PLC_CFG.format(keys='{1, 2}', handles='{"h1"}', maxlog=maxlog, foreign=foreign, skip='TRUE'))
    res = core.tlc('Plc', PLC_CFG.format(keys='{1, 2}', handles='{"h1"}', maxlog=5, foreign=3, skip='FALSE'),
                   check=False)
    if not res.violation:
        raise core.MachineryError('Plc: counting nullified operations should fail')
    hists = histories(ctx, ctx.pick(400, 6000), 12, 2)
    if ctx.thorough:
        hists += histories(ctx, 2000, 40, 1)
    traces = core.parallel(lambda i: Runner(f'{ctx.seed}-{i}').run(hists[i]), range(len(hists)))
    from collections import Counter
    k = Counter()
    for t in traces:
        for e in t:
            k[e['ev'] + (' ' + e['c']['kind'] if e['ev'] == 'call' else ' ' + e['r'] if e['ev'] == 'ret' else '')] += 1
    ctx.extra['events'] = dict(k)
    ctx.sample(traces[0][:6])
    ctx.validate('PlcTrace', traces, clauses={'P01'}, shards=8)
    ctx.assumptions += ['the directory is a stand-in written from the did:plc specification',
                        'SHA-256, ECDSA and dag_cbor are trusted']
