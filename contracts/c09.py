"""C09: indexed signatures and group counters encode exactly."""
from .base import *
from .codec import *

I = 'src/keri/core/indexing.py:Indexer.'
K = 'src/keri/core/counting.py:Counter.'
FI = [I + x for x in ('__init__', '_infil', '_exfil', '_binfil', '_bexfil')] + ['src/keri/core/indexing.py:Siger.__init__']
FC = [K + x for x in ('__init__', '_infil', '_exfil', '_binfil', '_bexfil', 'byteCount', 'byteSize', 'enclose', 'makeGVC', 'verToB64', 'b64ToVer', 'countToB64')]
SZ = {k: v for k, v in T['indexer'].items() if not k.endswith('z')}
CODES = sorted(SZ)
CRT, BTH = set(T['crt']), set(T['both'])
CS = T['counter']


def rbytes(rng, n):
    k = rng.random()
    return bytes(n) if k < .1 else b'\xff' * n if k < .2 else bytes(rng.randrange(256) for _ in range(n))


def num(rng, l):
    """a number around the capacity of l sextets"""
    m = 64 ** l
    return rng.choice([0, 1, 2, 63, 64, m - 1, m, m + 1, m // 2, -1, rng.randrange(m), rng.randrange(m), rng.randrange(max(1, m // 64 + 1))])


def gen(rng):
    code = rng.choice(CODES)
    hs, ss, os, fs, ls = SZ[code]
    i = num(rng, ss - os)
    o = rng.choice([None, None, i, i, num(rng, max(1, os)), num(rng, max(1, os)), 0])
    n = (fs - hs - ss) * 3 // 4
    return code, i, o, rbytes(rng, n)


def meaning(case):
    """(index, ondex, text, bytes) or None when it must be refused"""
    code, i, o, raw = case
    hs, ss, os, fs, ls = SZ[code]
    ms = ss - os
    if not 0 <= i < 64 ** ms:
        return None
    if code in CRT:
        if o is not None:
            return None
    elif os:
        o = i if o is None else o
        if not 0 <= o < 64 ** os:
            return None
    else:
        if o is not None and o != i:
            return None
        o = i
    t, b = lay(code + b64(i, ms) + (b64(o or 0, os) if os else ''), ls, raw)
    return i, o, t, b


def check(case):
    from keri.core.indexing import Indexer, Siger
    from keri.kering import ShortageError
    code, i, o, raw = case
    if code not in Indexer.Sizes or list(Indexer.Sizes[code]) != SZ[code]:
        return f'sizes of code {code} changed'
    w = meaning(case)
    for cls in (Indexer, Siger):
        try:
            m = cls(raw=raw, code=code, index=i, ondex=o)
            got = m.qb64
        except Exception:
            got = None
        if (got is None) != (w is None):
            return f'{cls.__name__}(code={code}, index={i}, ondex={o}) is {"refused" if got is None else "accepted as " + got}'
        if w is None:
            continue
        wi, wo, t, b = w
        ms = [('', m), (' with more raw', cls(raw=raw + b'\x01', code=code, index=i, ondex=o))]
        for tail in ('', 'AA~'):
            for x in (t + tail, (t + tail).encode(), bytearray((t + tail).encode())):
                ms.append((f' from {x!r}', cls(qb64b=x)))
            ms.append((f' from qb64 {t + tail}', cls(qb64=t + tail)))
            ms.append((' from qb2', cls(qb2=b + tail.encode())))
            x = bytearray((t + tail).encode())
            cls(qb64b=x, strip=True)
            y = bytearray(b + tail.encode())
            cls(qb2=y, strip=True)
            if x != tail.encode() or y != tail.encode():
                return f'stripping {t} leaves {bytes(x)} and {bytes(y)} of {tail!r}'
        for what, m in ms:
            g = m.code, m.index, m.ondex, m.raw, m.qb64, m.qb64b, m.qb2
            if g != (code, wi, wo, raw, t, t.encode(), b):
                return f'{cls.__name__}(code={code}, index={i}, ondex={o}){what} is {g}, must be {(code, wi, wo, raw, t, b)}'
        for k in {0, 1, 2, 3, 4, 5, 7, len(t) // 2, len(t) - 1}:
            try:
                cls(qb64b=t[:k].encode())
                return f'{t[:k]!r} is accepted'
            except ShortageError:
                pass
        for k in {0, 1, 2, 3, 4, 5, len(b) // 2, len(b) - 1}:
            try:
                cls(qb2=b[:k])
                return f'{b[:k]!r} is accepted'
            except ShortageError:
                pass
    if raw:
        try:
            return f'a signature of {len(raw) - 1} bytes is accepted as {Indexer(raw=raw[:-1], code=code, index=i, ondex=o).qb64}'
        except Exception:
            pass
    return None


def canonical(t):
    for code in (t[:1], t[:2]):
        if code in SZ and len(code) == SZ[code][0]:
            break
    else:
        return None
    hs, ss, os, fs, ls = SZ[code]
    if len(t) < fs or any(c not in IDX for c in t[:hs + ss]):
        return None
    i = unb64(t[hs:hs + ss - os])
    o = unb64(t[hs + ss - os:hs + ss]) if os else i
    if code in CRT:
        if os and o:
            return None
        o = None
    raw = read(t, hs + ss, ls, fs)
    if raw is None:
        return None
    return code, i, o, raw, t[:fs]


AL = B64 + B64 + '+/=.~ \n\té$'


def edit_text(rng, t, al):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, len(t) - 1, rng.randrange(len(t))]) % len(t)
        k = rng.random()
        c = rng.choice(al)
        t = t[:i] + c + t[i + 1:] if k < .85 else t[:i] + t[i + 1:] if k < .93 else t[:i] + c + t[i:]
        if not t:
            return 'A'
    return t


def edit_bin(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not b:
            break
        i = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, len(b) - 1, rng.randrange(len(b))]) % len(b)
        k = rng.random()
        if k < .85:
            b[i] ^= 1 << rng.randrange(8)
        elif k < .93:
            del b[i]
        else:
            b.insert(i, rng.randrange(256))
    return bytes(b)


def some(rng):
    w = None
    while w is None:
        w = meaning(gen(rng))
    return w


def gen_text(rng):
    return edit_text(rng, some(rng)[2], AL)


def check_text(t):
    from keri.core.indexing import Siger
    want = canonical(t)
    for x in (t, t.encode(), bytearray(t.encode())):
        try:
            m = Siger(qb64b=x)
            got = m.code, m.index, m.ondex, m.raw, m.qb64
        except Exception:
            got = None
        if got != want:
            return f'Siger(qb64b={x!r}) reads {got}, must be {want or "refused"}'
    return None


def gen_bin(rng):
    return edit_bin(rng, some(rng)[3])


def check_bin(b):
    from keri.core.indexing import Siger
    want = canonical(to_text(b + bytes(-len(b) % 3)))
    if want and len(want[4]) // 4 * 3 > len(b):
        want = None
    for x in (b, bytearray(b)):
        try:
            m = Siger(qb2=x)
            got = m.code, m.index, m.ondex, m.raw, m.qb64
        except Exception:
            got = None
        if got != want:
            return f'Siger(qb2={b.hex()}) reads {got}, must be {want or "refused"}'
    return None


# ---- counters
def gen_ctr(rng):
    v = rng.choice(['1.0', '2.0', '2.0'])
    code = rng.choice(sorted(CS[v]))
    return v, code, num(rng, CS[v][code][1]), rbytes(rng, rng.choice([0, 3, 6, 12, 4, 60, 5]))


def ctr_meaning(v, code, n):
    """(code, text) or None when the count cannot be carried"""
    hs, ss, fs = CS[v][code]
    if n < 0:
        return None
    if n >= 64 ** ss:
        if hs != 2 or '-' + code not in CS[v]:
            return None
        code = '-' + code
        hs, ss, fs = CS[v][code]
        if n >= 64 ** ss:
            return None
    return code, code + b64(n, ss)


def check_ctr(case):
    import base64
    from keri.core.counting import Counter
    from keri.kering import ShortageError, Versionage, Colds
    v, code, n, body = case
    ver = Versionage(*map(int, v.split('.')))
    tab = Counter.Sizes[ver.major][ver.minor]
    if code not in tab or list(tab[code]) != CS[v][code]:
        return f'sizes of counter code {code} changed'
    w = ctr_meaning(v, code, n)
    try:
        m = Counter(code=code, count=n, version=ver)
        got = m.code, m.qb64
    except Exception:
        got = None
    if got != w:
        return f'Counter({code}, count={n}, version={v}) is {got}, must be {w or "refused"}'
    if w is None:
        return None
    code, t = w
    hs, ss, fs = CS[v][code]
    b = base64.urlsafe_b64decode(t)
    ms = [('', m)]
    for name, c in ((m.name, n),):
        if CS[v][code][0] == 2 or n >= 4096 or hs == 5:
            ms.append((f' by name {name}', Counter(code=name, count=c, version=ver)))
    if n < 64 ** ss:
        ms.append((' countB64', Counter(code=code, countB64=b64(n, ss), version=ver)))
    for tail in ('', '-A', 'AAAA~'):
        for x in (t + tail, (t + tail).encode(), bytearray((t + tail).encode())):
            ms.append((f' from {x!r}', Counter(qb64b=x, version=ver)))
        ms.append((' from qb64', Counter(qb64=t + tail, version=ver)))
        ms.append((' from qb2', Counter(qb2=b + tail.encode(), version=ver)))
        x = bytearray((t + tail).encode())
        Counter(qb64b=x, strip=True, version=ver)
        y = bytearray(b + tail.encode())
        Counter(qb2=y, strip=True, version=ver)
        if x != tail.encode() or y != tail.encode():
            return f'stripping {t} leaves {bytes(x)} and {bytes(y)} of {tail!r}'
    for what, m in ms:
        g = m.code, m.count, m.qb64, m.qb64b, m.qb2, m.fullSize, m.soft, m.hard, m.both, m.countToB64()
        e = code, n, t, t.encode(), b, len(t), t[hs:], code, t, t[hs:]
        if g != e:
            return f'Counter({code}, {n}, version={v}){what} is {g}, must be {e}'
        g = m.byteCount(), m.byteCount(Colds.bny), m.byteSize(), m.byteSize(Colds.bny)
        if g != (n * 4, n * 3, len(t), len(b)):
            return f'Counter({code}, {n}) announces {g}'
    for k in range(len(t)):
        try:
            Counter(qb64b=t[:k].encode(), version=ver)
            return f'{t[:k]!r} is accepted'
        except ShortageError:
            pass
    for k in range(len(b)):
        try:
            Counter(qb2=b[:k], version=ver)
            return f'{b[:k]!r} is accepted'
        except ShortageError:
            pass
    if v == '2.0' and hs == 2:
        for dom, size in (('qb64', 4), ('qb2', 3)):
            try:
                g = bytes(Counter.enclose(**{dom: body}, code=code, version=ver))
            except ValueError:
                g = None
            e = None
            if len(body) % size == 0:
                h = code + b64(len(body) // size, 2)
                e = (h.encode() if dom == 'qb64' else base64.urlsafe_b64decode(h)) + body
            if g != e:
                return f'enclosing {len(body)} bytes of {dom} in {code} gives {g!r}, must be {e!r}'
    return None


def ctr_canonical(v, t):
    for code in (t[:2], t[:3], t[:5]):
        if code in CS[v] and len(code) == CS[v][code][0]:
            break
    else:
        return None
    hs, ss, fs = CS[v][code]
    if len(t) < fs or any(c not in IDX for c in t[:fs]):
        return None
    return code, unb64(t[hs:fs]), t[:fs]


def gen_ctrtext(rng):
    v = rng.choice(['1.0', '2.0'])
    code = rng.choice(sorted(CS[v]))
    ss = CS[v][code][1]
    t = code + ''.join(rng.choice(B64) for _ in range(ss))
    return v, edit_text(rng, t, AL) if rng.random() < .7 else ''.join(rng.choice('-_-A0a+') for _ in range(rng.randint(1, 9)))


def check_ctrtext(case):
    from keri.core.counting import Counter
    from keri.kering import Versionage
    v, t = case
    ver = Versionage(*map(int, v.split('.')))
    want = ctr_canonical(v, t)
    for x in (t, t.encode(), bytearray(t.encode())):
        try:
            m = Counter(qb64b=x, version=ver)
            got = m.code, m.count, m.qb64
        except Exception:
            got = None
        if got != want:
            return f'Counter(qb64b={x!r}, version={v}) reads {got}, must be {want or "refused"}'
    return None


def gen_ctrbin(rng):
    import base64
    v = rng.choice(['1.0', '2.0'])
    code = rng.choice(sorted(CS[v]))
    t = code + ''.join(rng.choice(B64) for _ in range(CS[v][code][1]))
    return v, edit_bin(rng, base64.urlsafe_b64decode(t))


def check_ctrbin(case):
    from keri.core.counting import Counter
    from keri.kering import Versionage
    v, b = case
    ver = Versionage(*map(int, v.split('.')))
    want = ctr_canonical(v, to_text(b + bytes(-len(b) % 3)))
    if want and len(want[2]) // 4 * 3 > len(b):
        want = None
    for x in (b, bytearray(b)):
        try:
            m = Counter(qb2=x, version=ver)
            got = m.code, m.count, m.qb64
        except Exception:
            got = None
        if got != want:
            return f'Counter(qb2={b.hex()}, version={v}) reads {got}, must be {want or "refused"}'
    return None


def gen_ver(rng):
    return rng.choice([0, 1, 2, 63, 64, -1, rng.randrange(64)]), rng.choice([0, 1, 63, 64, 4095, 4096, -1, rng.randrange(4096)])


def check_ver(case):
    from keri.core.counting import Counter
    from keri.kering import Versionage
    M, m = case
    for how in (dict(version=Versionage(M, m)), dict(major=M, minor=m), dict(text=f'{M}.{m}')):
        try:
            t = Counter.verToB64(**how)
        except ValueError:
            t = None
        if t != (b64(M, 1) + b64(m, 2) if 0 <= M < 64 and 0 <= m < 4096 else None):
            return f'verToB64({how}) is {t!r}'
        if t is not None and (tuple(Counter.b64ToVer(t)) != (M, m) or Counter.b64ToVer(t, texted=True) != f'{M}.{m}'):
            return f'b64ToVer({t!r}) is {Counter.b64ToVer(t)}'
    return None


def units():
    return []


GROUPS = [
    Group('signatures', gen, check, 2500, FI, 'every signature code, index pairs in and around their range, random raw values'),
    Group('signature_text', gen_text, check_text, 5000, FI, 'encodings with up to 3 character edits'),
    Group('signature_bytes', gen_bin, check_bin, 5000, FI, 'encodings with up to 3 byte edits'),
    Group('counters', gen_ctr, check_ctr, 4000, FC, 'every counter code of both versions, counts in and around their range'),
    Group('counter_text', gen_ctrtext, check_ctrtext, 5000, FC, 'encodings with up to 3 character edits and short random texts'),
    Group('counter_bytes', gen_ctrbin, check_ctrbin, 5000, FC, 'encodings with up to 3 byte edits'),
    Group('versions', gen_ver, check_ver, 500, FC),
]
RULE = 'random codes, values and edits; distinct cases counted by value'
ASSUMPTIONS = COMMON_ASSUMPTIONS + ['the code tables of contracts/data/codes.json are the specification of the sizes of the codes', 'reserved codes 0z, 1z, 4z are not signatures and left out']
