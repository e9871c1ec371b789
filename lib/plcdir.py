"""A did:plc directory, written from its specification and independent of arroba: parses,
verifies and stores operations, and answers HTTP requests."""
import base64
import copy
import json
from hashlib import sha256

import dag_cbor
import requests
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
FIELDS = {'type', 'rotationKeys', 'verificationMethods', 'alsoKnownAs', 'services', 'prev', 'sig'}


def b32(data):
    return base64.b32encode(data).decode().lower().rstrip('=')


def cid(op):
    return 'b' + b32(b'\x01\x71\x12\x20' + sha256(dag_cbor.encode(op)).digest())


def plc_did(op):
    return 'did:plc:' + b32(sha256(dag_cbor.encode(op)).digest())[:24]


def did_key(pub):
    if isinstance(pub, ec.EllipticCurvePrivateKey):
        pub = pub.public_key()
    raw = b'\xe7\x01' + pub.public_bytes(serialization.Encoding.X962, serialization.PublicFormat.CompressedPoint)
    n = int.from_bytes(raw, 'big')
    out = ''
    while n:
        n, r = divmod(n, 58)
        out = B58[r] + out
    return 'did:key:z' + '1' * (len(raw) - len(raw.lstrip(b'\0'))) + out


def pubkey(key):
    """The public key of a did:key, None if it is not a secp256k1 one."""
    if not isinstance(key, str) or not key.startswith('did:key:z'):
        return None
    n = 0
    for c in key.removeprefix('did:key:z'):
        if c not in B58:
            return None
        n = n * 58 + B58.index(c)
    raw = n.to_bytes(35, 'big') if n < 1 << 280 else b''
    if raw[:2] != b'\xe7\x01':
        return None
    try:
        return ec.EllipticCurvePublicKey.from_encoded_point(ec.SECP256K1(), raw[2:])
    except ValueError:
        return None


def signers(op, keys):
    """Which of these did:keys the operation's signature is valid for, if it is well-formed."""
    sig = op.get('sig')
    if not isinstance(sig, str) or '=' in sig:
        return []
    try:
        raw = base64.b64decode(sig + '=' * (-len(sig) % 4), altchars=b'-_', validate=True)
    except ValueError:
        return []
    if len(raw) != 64:
        return []
    r, s = int.from_bytes(raw[:32], 'big'), int.from_bytes(raw[32:], 'big')
    if s > ORDER // 2:
        return []
    try:
        data = dag_cbor.encode({k: v for k, v in op.items() if k != 'sig'})
    except Exception:
        return []
    out = []
    for k in keys:
        pub = pubkey(k)
        if pub:
            try:
                pub.verify(encode_dss_signature(r, s), data, ec.ECDSA(hashes.SHA256()))
                out.append(k)
            except InvalidSignature:
                pass
    return out


def sign(op, key):
    from cryptography.hazmat.primitives.asymmetric.utils import decode_dss_signature
    op = {k: v for k, v in op.items() if k != 'sig'}
    r, s = decode_dss_signature(key.sign(dag_cbor.encode(op), ec.ECDSA(hashes.SHA256())))
    s = min(s, ORDER - s)
    return dict(op, sig=base64.urlsafe_b64encode(r.to_bytes(32, 'big') + s.to_bytes(32, 'big')).decode().rstrip('='))


def well_formed(op):
    def strs(x):
        return isinstance(x, list) and all(isinstance(s, str) and 0 < len(s) <= 256 for s in x)
    if not isinstance(op, dict) or set(op) != FIELDS or op['type'] != 'plc_operation':
        return False
    vm, sv = op['verificationMethods'], op['services']
    return (strs(op['rotationKeys']) and 1 <= len(op['rotationKeys']) <= 5
            and len(set(op['rotationKeys'])) == len(op['rotationKeys'])
            and all(pubkey(k) for k in op['rotationKeys'])
            and isinstance(vm, dict) and set(vm) == {'atproto'} and bool(pubkey(vm['atproto']))
            and strs(op['alsoKnownAs']) and len(set(op['alsoKnownAs'])) == len(op['alsoKnownAs'])
            and isinstance(sv, dict) and set(sv) == {'atproto_pds'} and isinstance(sv['atproto_pds'], dict)
            and set(sv['atproto_pds']) == {'type', 'endpoint'}
            and sv['atproto_pds']['type'] == 'AtprotoPersonalDataServer'
            and isinstance(sv['atproto_pds']['endpoint'], str)
            and (op['prev'] is None or isinstance(op['prev'], str)))


class Directory:
    def __init__(self):
        self.logs = {}          # did -> [dict(did, operation, cid, nullified, by)]

    def accept(self, did, op):
        """Stores the operation if the rules allow it."""
        if not well_formed(op):
            return False
        log = self.logs.get(did, [])
        if not log:
            by = signers(op, op['rotationKeys'])
            if op['prev'] is not None or not by or plc_did(op) != did:
                return False
        else:
            at = [i for i, e in enumerate(log) if e['cid'] == op['prev'] and not e['nullified']]
            if not at:
                return False
            after = [e for e in log[at[0] + 1:] if not e['nullified']]
            rot = log[at[0]]['operation']['rotationKeys']
            if after:
                rot = rot[:min([rot.index(k) for k in after[0]['by'] if k in rot], default=0)]
            by = signers(op, rot)
            if not by:
                return False
            for e in after:
                e['nullified'] = True
        self.logs.setdefault(did, []).append(dict(did=did, operation=copy.deepcopy(op), cid=cid(op), nullified=False,
                                                  createdAt='2024-01-01T00:00:00.000Z', by=by))
        return True

    def audit(self, did):
        return [{k: copy.deepcopy(v) for k, v in e.items() if k != 'by'} for e in self.logs.get(did, [])]

    def get(self, path):
        """(status, JSON) of a GET."""
        did, _, what = path.partition('/')
        log = self.audit(did)
        if not log:
            return 404, {'message': f'DID not registered: {did}'}
        live = [e['operation'] for e in log if not e['nullified']]
        out = {'log/audit': log, 'log': live, 'log/last': live[-1]}.get(what)
        return (200, out) if out is not None else (404, {'message': 'Not found'})


def response(status, obj, url=''):
    r = requests.Response()
    r.status_code, r.url = status, url
    r._content = json.dumps(obj).encode() if not isinstance(obj, bytes) else obj
    r.headers['Content-Type'] = 'application/json'
    return r
