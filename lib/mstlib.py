"""Independent view of MSTs: key universes, node decoding, canonical encoding.

Nothing here uses arroba's own tree code."""
from hashlib import sha256
import os
import random

import dag_cbor
from multiformats import CID, multihash


def cid_of(data):
    return CID('base58btc', 1, 'dag-cbor', multihash.wrap(sha256(data).digest(), 'sha2-256'))


def layer_of(key):
    n = 0
    for b in sha256(key.encode()).digest():
        for shift in (6, 4, 2, 0):
            if (b >> shift) & 3:
                return n
            n += 1
    return n


def lcp(a, b):
    return len(os.path.commonprefix((a, b)))


_cache = {}


def key_with_layer(prefix, layer, rng=None):
    """A key starting with prefix whose hash has the given layer."""
    k = (prefix, layer)
    if rng is None and k in _cache:
        return _cache[k]
    i = rng.randrange(10**6) if rng else 0
    while True:
        key = f'{prefix}{i}'
        if layer_of(key) == layer:
            if rng is None:
                _cache[k] = key
            return key
        i += 1


CHARS = 'ABCXYZabcxyz0189_-:.'


def random_key(rng, colls):
    coll = rng.choice(colls)
    n = rng.choice([1, 1, 2, 3, 5, 13, 13, 13, 40])
    rkey = ''.join(rng.choice(CHARS) for _ in range(n))
    if rkey in ('.', '..'):
        rkey += 'x'
    return f'{coll}/{rkey}'


# keys whose hashes start with 12 to 22 zero bits
DEEP = ['app.bsky.feed.post/Y30b8', 'x:y_z.w/Z33fb', 'a.b/X479d', 'app.bsky.feed.post/bb4d',
        'app.bsky.feed.post/Y6db4', 'a.b/a822c', 'app.bsky.feed.post/b12aab', 'x:y_z.w/c27fe0', 'a.b/X353c1',
        'a.b/a6a3e6', 'x:y_z.w/Z826fd', 'a.b/Xbc79f', 'app.bsky.feed.post/Y1732ea', 'a.b/X17ee33',
        'x:y_z.w/Z42fa2b']

COLLS = ['app.bsky.feed.post', 'app.bsky.feed.postgate', 'app.bsky.graph.follow', 'a.b', 'a.b.c', 'Z-z.q', 'x:y_z.w']


def random_keys(rng, n, maxlen=256):
    """n distinct valid keys, in byte order, with shared prefixes and odd shapes."""
    keys = set()
    colls = rng.sample(COLLS, rng.randint(1, len(COLLS)))
    while len(keys) < n:
        r = rng.random()
        if keys and r < .4:
            base = rng.choice(sorted(keys))
            coll, rkey = base.split('/')
            m = rng.randint(0, len(rkey))
            rkey = rkey[:m] + ''.join(rng.choice(CHARS) for _ in range(rng.randint(1, 4)))
            key = f'{coll}/{rkey}'
        elif r < .43:
            coll = rng.choice(colls)
            key = f'{coll}/' + 'k' * (maxlen - len(coll) - 2) + rng.choice(CHARS)
        elif r < .45:
            key = rng.choice(DEEP)
        elif r < .55:
            key = key_with_layer(random_key(rng, colls), rng.choice([1, 2, 3, 4]), rng)
        else:
            key = random_key(rng, colls)
        if len(key) <= maxlen:
            keys.add(key)
    return sorted(keys)


def layered_keys(layers, rng=None):
    """Keys whose sort position is their index and whose layers are as given."""
    keys = []
    for i, ly in enumerate(layers):
        pre = f'c.d/{chr(ord("a") + i // 26)}{chr(ord("a") + i % 26)}'
        keys.append(key_with_layer(pre, ly, rng))
    assert keys == sorted(keys) and [layer_of(k) for k in keys] == list(layers)
    return keys


def encode_canonical(tree, keys, vals):
    """tree: nested entries as printed by MST!Canon.  Returns (CID, {CID: bytes})."""
    blocks = {}

    def enc(es):
        l = None
        out = []
        prev = ''
        for e in es:
            if 'n' in e:
                c = enc(e['n'])
                if out:
                    out[-1]['t'] = c
                else:
                    l = c
            else:
                key = keys[e['k'] - 1]
                p = lcp(prev, key)
                out.append({'p': p, 'k': key[p:].encode(), 'v': vals[e['v'] - 1], 't': None})
                prev = key
        data = dag_cbor.encode({'l': l, 'e': out})
        c = cid_of(data)
        blocks[c] = data
        return c

    return enc(tree), blocks


class NodeTable:
    """Interns node blocks by CID as ids 1.., decoded into [l, entries] for TLC."""
    def __init__(self, keys, vals):
        self.keyid = {k: i + 1 for i, k in enumerate(keys)}
        self.valid = {v: i + 1 for i, v in enumerate(vals)}
        self.ids = {}
        self.nodes = []
        self.bad = []

    def val(self, cid):
        if cid is None:
            return 0
        return self.valid.get(cid, -1)

    def add(self, cid, read):
        """Interns the node cid and everything below it; read(cid) -> bytes or None."""
        if cid is None:
            return 0
        if not isinstance(cid, CID):
            cid = CID.decode(cid)
        if cid in self.ids:
            return self.ids[cid]
        id = self.ids[cid] = len(self.nodes) + 1
        node = {'l': 0, 'e': []}
        self.nodes.append(node)
        data = read(cid)
        ok = data is not None and cid_of(data) == cid
        if ok:
            obj = dag_cbor.decode(data)
            ok = (dag_cbor.encode(obj) == data and isinstance(obj, dict)
                  and set(obj) == {'l', 'e'} and isinstance(obj['e'], list))
        if not ok:
            self.bad.append(id)
            return id
        key = ''
        node['l'] = self.add(obj['l'], read)
        for e in obj['e']:
            if set(e) != {'p', 'k', 'v', 't'} or not isinstance(e['k'], bytes):
                self.bad.append(id)
                return id
            try:
                key = key[:e['p']] + e['k'].decode()
            except UnicodeDecodeError:
                key = '?'
            node['e'].append([e['p'], self.keyid.get(key, 0), self.val(e['v']),
                              self.add(e['t'], read)])
        return id
