"""Reference codec: how a primitive with given sizes is laid out as text and as bytes (written from the CESR layout, not from the code)."""
import base64
import json
import os

T = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'codes.json')))
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
IDX = {c: i for i, c in enumerate(B64)}


def b64(n, l):
    s = ''
    for _ in range(l):
        s = B64[n % 64] + s
        n //= 64
    return s


def unb64(s):
    n = 0
    for c in s:
        n = n * 64 + IDX[c]
    return n


def bits_to_text(v, nbits):
    return b64(v, nbits // 6)


def lay(prefix, ls, raw):
    """text: prefix chars, pad so that everything is a multiple of 24 bits, ls zero bytes, raw"""
    cs = len(prefix)
    nbytes = (cs * 6 + 7) // 8 + ls + len(raw)      # prefix left aligned in its bytes
    v = 0
    for c in prefix:
        v = v * 64 + IDX[c]
    v <<= ((cs * 6 + 7) // 8) * 8 - cs * 6
    v = (v << 8 * (ls + len(raw))) | int.from_bytes(raw, 'big')
    if nbytes % 3:
        return None, None
    return b64(v, nbytes // 3 * 4), v.to_bytes(nbytes, 'big')


def read(text, cs, ls, fs):
    """raw bytes after cs prefix chars and ls zero bytes in text[:fs]; None when not canonical"""
    t = text[:fs]
    if any(c not in IDX for c in t) or len(t) % 4:
        return None
    b = unb64(t).to_bytes(len(t) // 4 * 3, 'big') if t else b''
    k = (cs * 6 + 7) // 8
    if cs * 6 % 8:
        if b[k - 1] & ((1 << (8 - cs * 6 % 8)) - 1):
            return None
    if len(b) < k + ls or any(b[k:k + ls]):
        return None
    return b[k + ls:]


def to_text(b):
    """text of whole triplets"""
    return base64.urlsafe_b64encode(bytes(b[:len(b) // 3 * 3])).decode()
