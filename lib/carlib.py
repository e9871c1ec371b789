"""A small independent reader of CAR v1 archives."""
import dag_cbor
from multiformats import CID


class BadCar(Exception):
    pass


def varint(data, i):
    n = shift = 0
    while True:
        b = data[i]
        i += 1
        n |= (b & 0x7f) << shift
        shift += 7
        if b < 0x80:
            return n, i


def read(data):
    """(root CIDs, [(CID, bytes), ...])"""
    n, i = varint(data, 0)
    header = dag_cbor.decode(data[i:i + n])
    i += n
    blocks = []
    while i < len(data):
        n, i = varint(data, i)
        sec = data[i:i + n]
        if len(sec) != n:
            raise BadCar('truncated')
        i += n
        # CIDv1: version, codec, hash code, digest size, digest
        ver, j = varint(sec, 0)
        codec, j = varint(sec, j)
        code, j = varint(sec, j)
        size, j = varint(sec, j)
        blocks.append((CID.decode(sec[:j + size]), sec[j + size:]))
    return header['roots'], blocks


def _varint(n):
    out = b''
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out += bytes([b | 0x80])
        else:
            return out + bytes([b])


def write(roots, blocks):
    """blocks: [(CID, bytes)]; nothing is checked, so broken archives can be built."""
    header = dag_cbor.encode({'version': 1, 'roots': list(roots)})
    out = _varint(len(header)) + header
    for cid, data in blocks:
        sec = bytes(cid) + data
        out += _varint(len(sec)) + sec
    return out
