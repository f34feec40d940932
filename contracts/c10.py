"""C10: version strings round trip and are recognised at the right place only."""
from .base import *

K = 'src/keri/kering.py:'
FN = [K + x for x in ('versify', 'deversify', 'rematch', 'smell')] + ['src/keri/help/helping.py:' + x for x in ('intToB64', 'b64ToInt')]
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
PROTOS, KINDS = ('KERI', 'ACDC'), ('JSON', 'MGPK', 'CBOR', 'CESR')
HEX = '0123456789abcdef'
V1, V2 = 17, 19


def b64(n, l):
    s = ''
    for _ in range(l):
        s = B64[n % 64] + s
        n //= 64
    return s


def unb64(s):
    n = 0
    for c in s:
        n = n * 64 + B64.index(c)
    return n


def shape(s):
    """1, 2 or None: which form of version string the text s starts with"""
    def up(t):
        return len(t) == 4 and all('A' <= c <= 'Z' for c in t)
    if not up(s[:4]):
        return None
    t = s[:V2]
    if len(t) == V2 and t[18] == '.' and up(t[10:14]) and all(c in B64 for c in t[4:10] + t[14:18]):
        return 2
    t = s[:V1]
    if len(t) == V1 and t[16] == '_' and up(t[6:10]) and all(c in HEX for c in t[4:6] + t[10:16]):
        return 1
    return None


def meaning(s):
    """(proto, pvrsn, kind, size, gvrsn) of the version string at the start of s, None when it must be refused"""
    f = shape(s)
    if f is None or s[:4] not in PROTOS:
        return None
    if f == 2:
        pv, gv = (unb64(s[4]), unb64(s[5:7])), (unb64(s[7]), unb64(s[8:10]))
        if pv[0] != 2 or gv[0] != 2 or s[10:14] not in KINDS:
            return None
        return s[:4], pv, s[10:14], unb64(s[14:18]), gv
    pv = int(s[4], 16), int(s[5], 16)
    if pv[0] > 1 or s[6:10] not in KINDS or s[6:10] == 'CESR':
        return None
    return s[:4], pv, s[6:10], int(s[10:16], 16), None


def size(rng, bits):
    k = rng.random()
    if k < .3:
        return rng.choice([0, 1, 63, 64, 65, 4095, 4096, 255, 256, 65535, 65536, 1 << 20, (1 << 24) - 1, (1 << 18) - 1, 1 << 18])
    return rng.getrandbits(rng.randint(1, bits))


def gen_rt(rng):
    if rng.random() < .5:
        pv = (rng.choice([1, 1, 1, 0]), rng.randrange(16))
        return rng.choice(PROTOS), pv, rng.choice(KINDS[:3]), size(rng, 24), rng.choice([None, pv])
    pv = (2, rng.choice([0, 0, 1, 63, 64, 65, 4095, rng.randrange(4096)]))
    return rng.choice(PROTOS), pv, rng.choice(KINDS), size(rng, 24), rng.choice([None, (2, 0), (2, 1), (2, rng.randrange(4096))])


def check_rt(case):
    from keri.kering import versify, deversify, smell, Versionage
    proto, pv, kind, sz, gv = case
    vs = versify(proto=proto, pvrsn=Versionage(*pv), kind=kind, size=sz, gvrsn=Versionage(*gv) if gv is not None else None)
    width = V1 if pv[0] < 2 else V2
    want = (proto, pv, kind, sz, None if pv[0] < 2 else (gv if gv is not None else pv))
    if not isinstance(vs, str) or len(vs) != width:
        return f'versify{case} is {vs!r}'
    if meaning(vs) != want:
        return f'versify{case} is {vs!r}, which says {meaning(vs)}'
    for f in (vs, vs.encode()):
        got = tuple(deversify(f))
        if got != want:
            return f'deversify({f!r}) is {got}, not {want}'
    for off in range(9):
        got = tuple(smell(b'{"v":" ::'[:off].ljust(off, b' ') + vs.encode() + b'}' * 30))
        if got != want:
            return f'smell of {vs!r} at offset {off} is {got}, not {want}'
    return None


def mut(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        c = rng.choice(B64 + './+=_.-é\n ' + 'AFGgf019')
        k = rng.random()
        if k < .6 and i < len(s):
            s = s[:i] + c + s[i + 1:]
        elif k < .8:
            s = s[:i] + c + s[i:]
        else:
            s = s[:i] + s[i + 1:]
    return s


def vstr(rng):
    p = rng.choice(PROTOS + ('KERI', 'KERX', 'AAAA', 'keri'))
    k = rng.choice(KINDS + ('JSON', 'MSON', 'json'))
    if rng.random() < .5:
        return '%s%x%x%s%06x_' % (p, rng.choice([1, 1, 1, 0, 2, 9, 15]), rng.randrange(16), k, size(rng, 24))
    return p + b64(rng.choice([2, 2, 2, 1, 3, 0, 52]), 1) + b64(size(rng, 12) % 4096, 2) + b64(rng.choice([2, 2, 2, 1, 3, 0]), 1) + \
        b64(size(rng, 12) % 4096, 2) + k + b64(size(rng, 24), 4) + '.'


def gen_text(rng):
    s = vstr(rng)
    k = rng.random()
    if k < .5:
        s = mut(rng, s)
    elif k < .6:
        s += rng.choice(['_', '.', 'A', ' ', '\n', '"', vstr(rng)])
    elif k < .65:
        s = rng.choice([' ', 'A', '"']) + s
    return s


def check_text(s):
    from keri.kering import deversify, KeriError, VersionError, ProtocolError, KindError
    f = shape(s)
    want = meaning(s) if f and len(s) == (V1 if f == 1 else V2) else None
    for x in (s, s.encode()):
        try:
            got = tuple(deversify(x))
        except (VersionError, ProtocolError, KindError):
            got = None
        if got != want:
            return f'deversify({x!r}) is {got}, must be {want or "refused"}'
    return None


def gen_smell(rng):
    s = vstr(rng)
    if rng.random() < .3:
        s = mut(rng, s)
    pre = ''.join(rng.choice(['{', '"', 'v', ':', 'A', 'K', '\x89', '0', '_', 'J']) for _ in range(rng.choice([0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20])))
    if rng.random() < .2:
        pre = vstr(rng)[:rng.randint(1, 19)] + pre
    return (pre + s + ''.join(rng.choice('AB"}_.1') for _ in range(rng.choice([0, 3, 30])))).encode('latin-1', 'replace')


def check_smell(raw):
    from keri.kering import smell, VersionError, ProtocolError, KindError, ShortageError
    t = raw.decode('latin-1')
    want = None
    if len(raw) >= 8 + V2:
        for o in range(len(t)):
            if shape(t[o:]):
                want = meaning(t[o:]) if o <= 8 else None
                break
    for x in (raw, bytearray(raw)):
        try:
            got = tuple(smell(x))
        except ShortageError:
            if len(raw) >= 8 + V2:
                return f'smell({raw!r}) asks for more than it needs'
            got = None
        except (VersionError, ProtocolError, KindError):
            if len(raw) < 8 + V2:
                return f'smell({raw!r}) refuses instead of waiting for the rest'
            got = None
        if got != want:
            return f'smell({raw!r}) is {got}, must be {want or "refused"}'
    return None


def gen_refuse(rng):
    sz = size(rng, 24)
    pv = (rng.choice([0, 1, 2, 3, 4, 15]), rng.choice([0, 1, 2, 9, 15]))
    gv = rng.choice([None, pv, (0, 0), (1, 0), (2, 0), (3, 0), (63, 1), (rng.randrange(4), rng.randrange(4))])
    return rng.choice(PROTOS + ('KERX', 'KER', '', 'keri', 'ACD1', 'KERIX')), pv, rng.choice(KINDS + ('JSO', 'XXXX', 'json', '')), sz, gv


def check_refuse(case):
    from keri.kering import versify, Versionage, VersionError, ProtocolError, KindError
    proto, pv, kind, sz, gv = case
    try:
        vs = versify(proto=proto, pvrsn=Versionage(*pv), kind=kind, size=sz, gvrsn=Versionage(*gv) if gv is not None else None)
    except (VersionError, ProtocolError, KindError, ValueError):
        return None
    want = (proto, pv, kind, sz, None if pv[0] < 2 else (gv if gv is not None else pv))
    if len(vs) != (V1 if pv[0] < 2 else V2) or meaning(vs) != want:
        return f'versify{case} makes {vs!r}, which says {meaning(vs)}'
    return None


def units():
    return []


GROUPS = [
    Group('round_trip', gen_rt, check_rt, 4000, FN, 'random protocol, versions, kind and size, sizes and minors at the width limits'),
    Group('text', gen_text, check_text, 6000, FN, 'version strings of random parts with up to 3 character edits or trailing text'),
    Group('refusals', gen_refuse, check_refuse, 6000, FN, 'supported and unsupported protocols, kinds and versions: what versify makes can be read back'),
    Group('smelled', gen_smell, check_smell, 6000, FN, 'version strings behind prefixes of 0 to 30 bytes'),
]
RULE = 'random parts plus the boundary values listed; distinct cases counted by value'
ASSUMPTIONS = COMMON_ASSUMPTIONS + ['sizes and minor versions beyond the width of their field are outside the property']
