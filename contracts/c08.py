"""C08: primitive encoding is canonical and lossless."""
import datetime
from .base import *
from .codec import *

C = 'src/keri/core/coring.py:'
H = 'src/keri/help/helping.py:'
FN = [C + 'Matter.' + x for x in ('__init__', '_infil', '_exfil', '_binfil', '_bexfil', '_rawSize', '_fullSize', '_leadSize', 'both', 'fullSize', 'size')]
FH = [H + x for x in ('intToB64', 'intToB64b', 'b64ToInt', 'codeB64ToB2', 'codeB2ToB64', 'nabSextets', 'sceil')]
FV = [C + x for x in ('Number', 'Seqner', 'Dater', 'Tagger', 'Ilker', 'Traitor', 'Verser', 'Bexter', 'Texter', 'Pather', 'Labeler', 'Decimer', 'Diger', 'Noncer', 'Cigar')]
SZ = T['matter']
CODES = sorted(SZ)


def rawlen(code):
    hs, ss, xs, fs, ls = SZ[code]
    return None if fs is None else (fs - hs - ss) * 3 // 4 - ls


def rbytes(rng, n):
    k = rng.random()
    if k < .15:
        return bytes(n)
    if k < .25:
        return b'\xff' * n
    if k < .35 and n:
        return bytes([0] * (n - 1) + [rng.randrange(256)])
    return bytes(rng.randrange(256) for _ in range(n))


def rtext(rng, n, al=B64):
    return ''.join(rng.choice(al) for _ in range(n))


def gen(rng):
    code = rng.choice(CODES)
    hs, ss, xs, fs, ls = SZ[code]
    if fs is None:
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, rng.randint(0, 60)])
        if rng.random() < .01:
            n = rng.choice([64 ** 2 * 3 - 3, 64 ** 2 * 3 - 2, 64 ** 2 * 3, 64 ** 2 * 3 - 4, 64 ** 2 * 3 + 1])
        soft = ''
    else:
        n = rawlen(code)
        soft = rtext(rng, ss - xs)
    return code, soft, rbytes(rng, n)


def expected(code, soft, raw):
    """(code, soft, text, bytes) that raw of this code must encode to"""
    hs, ss, xs, fs, ls = SZ[code]
    if fs is None:
        ls = -len(raw) % 3
        size = (len(raw) + ls) // 3
        small = code[0] in '456' and size < 64 ** 2
        if small:
            code = '456'[ls] + code[1]
        elif code[0] in '456':
            code = '789'[ls] + 'AA' + code[1]
        else:
            code = '789'[ls] + code[1:]
        soft = b64(size, 2 if small else 4)
        xs = 0
    t, b = lay(code + '_' * xs + soft, ls, raw)
    return code, soft, t, b


def same(m, code, soft, raw, t, b, what):
    for nm, w in (('code', code), ('soft', soft), ('raw', raw), ('qb64', t), ('qb64b', t.encode()), ('qb2', b), ('fullSize', len(t)), ('hard', code)):
        g = getattr(m, nm)
        if g != w:
            return f'{what}: {nm} is {g!r}, must be {w!r}'
    return None


def check(case):
    from keri.core.coring import Matter
    code, soft, raw = case
    if code not in Matter.Sizes:
        return f'code {code} is gone'
    if SZ[code][3] is not None and (list(Matter.Sizes[code]) != SZ[code] or Matter._rawSize(code) != rawlen(code)
                                    or Matter._fullSize(code) != SZ[code][3] or Matter._leadSize(code) != SZ[code][4] or Matter._xtraSize(code) != SZ[code][2]):
        return f'sizes of code {code} are {tuple(Matter.Sizes[code])}, must be {tuple(SZ[code])}'
    c2, s2, t, b = expected(code, soft, raw)
    m = Matter(raw=raw, code=code, soft=soft)
    for extra in (b'', b'\x00\x07'):
        if extra and SZ[code][3] is None:
            continue
        m = Matter(raw=raw + extra, code=code, soft=soft)
        e = same(m, c2, s2, raw, t, b, f'Matter(raw={(raw + extra)!r}, code={code!r}, soft={soft!r})')
        if e:
            return e
    if not m.composable:
        return f'{t} is not composable'
    if raw == b'' and soft:
        if SZ[code][3] is not None:
            e = same(Matter(code=code, soft=soft), c2, s2, raw, t, b, f'Matter(code={code!r}, soft={soft!r})')
            if e:
                return e
    for tail in ('', 'AA', '-_0A~'):
        for x in (t + tail, (t + tail).encode(), bytearray((t + tail).encode()), memoryview((t + tail).encode())):
            e = same(Matter(qb64b=x), c2, s2, raw, t, b, f'Matter(qb64b={x!r})')
            if e:
                return e
        x = b + tail.encode()
        e = same(Matter(qb2=x), c2, s2, raw, t, b, f'Matter(qb2={x!r})')
        if e:
            return e
        x = bytearray((t + tail).encode())
        Matter(qb64b=x, strip=True)
        if x != tail.encode():
            return f'stripping {t!r} from a stream leaves {bytes(x)!r} of {tail!r}'
        x = bytearray(b + tail.encode())
        Matter(qb2=x, strip=True)
        if x != tail.encode():
            return f'stripping {b!r} from a stream leaves {bytes(x)!r} of {tail!r}'
    # a cut primitive is waited for
    from keri.kering import ShortageError
    for k in sorted({0, 1, 2, 3, 4, 5, len(t) // 2, len(t) - 1} - {len(t)}):
        if k < len(t):
            try:
                Matter(qb64b=t[:k].encode())
                return f'Matter(qb64b={t[:k]!r}) is accepted'
            except ShortageError:
                pass
    for k in sorted({0, 1, 2, 3, 4, len(b) // 2, len(b) - 1}):
        if k < len(b):
            try:
                Matter(qb2=b[:k])
                return f'Matter(qb2={b[:k]!r}) is accepted'
            except ShortageError:
                pass
    return None


def canonical(t):
    """(code, soft, raw, text) at the start of text t, None when there is no canonical primitive"""
    for code in (t[:1], t[:2], t[:4]):
        if code in SZ and len(code) == SZ[code][0]:
            break
    else:
        return None
    hs, ss, xs, fs, ls = SZ[code]
    both = t[hs:hs + ss]
    if len(both) < ss or any(c not in IDX for c in both) or both[:xs] != '_' * xs:
        return None
    if fs is None:
        fs = hs + ss + 4 * unb64(both)
    if len(t) < fs:
        return None
    raw = read(t, hs + ss, ls, fs)
    if raw is None:
        return None
    return code, both[xs:], raw, t[:fs]


AL = B64 + B64 + '+/=.~ \n\té$'


def gen_text(rng):
    code, soft, raw = gen(rng)
    if len(raw) > 200:
        raw = raw[:9]
    t = expected(code, soft, raw)[2]
    k = rng.random()
    if k < .1:
        return rtext(rng, rng.randint(0, 12), AL)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not t:
            break
        i = rng.choice([0, 1, 2, 3, 4, 5, len(t) - 1, rng.randrange(len(t))]) % len(t)
        c = rng.choice(AL)
        k = rng.random()
        if k < .75:
            t = t[:i] + c + t[i + 1:]
        elif k < .87:
            t = t[:i] + t[i + 1:]
        else:
            t = t[:i] + c + t[i:]
    return t


def check_text(t):
    from keri.core.coring import Matter
    want = canonical(t)
    for x in (t, t.encode(), bytearray(t.encode()), memoryview(t.encode())):
        try:
            m = Matter(qb64b=x)
            got = m.code, m.soft, m.raw, m.qb64
        except Exception:
            got = None
        if got != want:
            return f'Matter(qb64b={x!r}) reads {got}, must be {want or "refused"}'
    return None


def gen_bin(rng):
    code, soft, raw = gen(rng)
    if len(raw) > 200:
        raw = raw[:9]
    b = bytearray(expected(code, soft, raw)[3])
    k = rng.random()
    if k < .1:
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if b:
            i = rng.choice([0, 1, 2, 3, 4, 5, len(b) - 1, rng.randrange(len(b))]) % len(b)
            k = rng.random()
            if k < .8:
                b[i] ^= 1 << rng.randrange(8)
            elif k < .9:
                del b[i]
            else:
                b.insert(i, rng.randrange(256))
    return bytes(b)


def check_bin(b):
    from keri.core.coring import Matter
    pad = -len(b) % 3
    want = canonical(to_text(b + bytes(pad)))
    if want and len(want[3]) // 4 * 3 > len(b):
        want = None
    for x in (b, bytearray(b), memoryview(b)):
        try:
            m = Matter(qb2=x)
            got = m.code, m.soft, m.raw, m.qb64
        except Exception:
            got = None
        if got != want:
            return f'Matter(qb2={b.hex()}) reads {got}, must be {want or "refused"}'
    return None


def gen_bad(rng):
    code = rng.choice(CODES)
    hs, ss, xs, fs, ls = SZ[code]
    k = rng.choice(['short', 'soft', 'code', 'softlen', 'type'])
    if k == 'short':
        n = rawlen(code)
        if not n:
            return k, rng.choice(['', 'Z9', '1ZZZ', '-A', '_'] ), '', b'x' * 99
        return k, code, rtext(rng, ss - xs), rbytes(rng, rng.randrange(n))
    if k in ('soft', 'softlen'):
        code = rng.choice([c for c in CODES if SZ[c][3] is not None and SZ[c][1]])
        hs, ss, xs, fs, ls = SZ[code]
        n = ss - xs
        if k == 'softlen':
            return k, code, rtext(rng, rng.randrange(n)), rbytes(rng, rawlen(code))
        s = list(rtext(rng, n))
        s[rng.randrange(n)] = rng.choice('+/=. ~\né')
        return k, code, ''.join(s), rbytes(rng, rawlen(code))
    if k == 'type':
        return k, code, rtext(rng, ss - xs), rng.choice(['A' * 200, 7, [1] * 99])
    return 'code', rng.choice(['', 'c', 'd', 'zz', '1AAX', '0Z', '2AAA', '-A', '--A', '_', '3AAA', '1AA']), '', b'x' * 99


def check_bad(case):
    from keri.core.coring import Matter
    k, code, soft, raw = case
    try:
        m = Matter(raw=raw, code=code, soft=soft)
    except Exception:
        return None
    return f'Matter(raw={raw!r}, code={code!r}, soft={soft!r}) gives {m.qb64!r} instead of being refused ({k})'


# ---- helpers
def gen_help(rng):
    l = rng.randint(1, 12)
    return rng.getrandbits(rng.randint(0, 70)), l, rtext(rng, l), bytes(rng.randrange(256) for _ in range(rng.randint(0, 14)))


def check_help(case):
    from keri.help import intToB64, intToB64b, b64ToInt, codeB64ToB2, codeB2ToB64, nabSextets, sceil
    n, l, s, b = case
    t = intToB64(n, l)
    w = l
    while 64 ** w <= n:
        w += 1
    if t != b64(n, w) or intToB64b(n, l) != t.encode() or b64ToInt(t) != n or b64ToInt(t.encode()) != n:
        return f'intToB64({n},{l}) is {t!r}'
    if b64ToInt(s) != unb64(s):
        return f'b64ToInt({s!r}) is {b64ToInt(s)}'
    k = (6 * len(s) + 7) // 8
    e = (unb64(s) << (8 * k - 6 * len(s))).to_bytes(k, 'big')
    if codeB64ToB2(s) != e or codeB2ToB64(e, len(s)) != s or codeB2ToB64(e + b'\xff', len(s)) != s:
        return f'codeB64ToB2({s!r}) is {codeB64ToB2(s)!r}, back {codeB2ToB64(e, len(s))!r}'
    k = (6 * l + 7) // 8
    try:
        got = nabSextets(b, l)
    except ValueError:
        got = None
    if k > len(b):
        want = None
    else:
        v = int.from_bytes(b[:k], 'big') >> (8 * k - 6 * l) << (8 * k - 6 * l)
        want = v.to_bytes(k, 'big')
    if got != want:
        return f'nabSextets({b!r},{l}) is {got!r}'
    if sceil(l * 3 / 4) != -(-l * 3 // 4):
        return f'sceil({l * 3 / 4}) is {sceil(l * 3 / 4)}'
    for bad in ('', s + '+', '/' + s, s + '=', s + ' '):
        try:
            return f'b64ToInt({bad!r}) is {b64ToInt(bad)}'
        except (ValueError, KeyError):
            pass
    return None


# ---- values
def gen_val(rng):
    k = rng.choice(['number', 'number', 'seqner', 'dater', 'tagger', 'bexter', 'bexter', 'texter', 'pather', 'labeler', 'labeler', 'decimer', 'verser', 'diger', 'numcode'])
    if k in ('number', 'seqner', 'numcode'):
        n = rng.choice([0, 1, 15, 16, 255, 256, 65535, 65536, 2 ** 40 - 1, 2 ** 40, 2 ** 64 - 1, 2 ** 64, 2 ** 88 - 1, 2 ** 88, 2 ** 112 - 1, 2 ** 112,
                        2 ** 128 - 1, 2 ** 128, 2 ** 136 - 1, 2 ** 136, rng.getrandbits(rng.randint(1, 136))])
        return k, n, rng.choice(['M', '0H', 'R', 'N', 'S', 'T', 'U', '0A'])
    if k == 'dater':
        d = datetime.datetime(rng.randint(1, 9999), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([0, 1, 999999, rng.randrange(1000000)]))
        return k, d.isoformat(timespec='microseconds') + rng.choice(['+', '-']) + '%02d:%02d' % (rng.randrange(24), rng.randrange(60)), None
    if k == 'tagger':
        return k, rtext(rng, rng.randint(1, 11)), None
    if k == 'bexter':
        return k, rng.choice(['', 'A', '-', 'AA', '-A', '--']) + rtext(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20, rng.randint(0, 40)]), rng.choice([B64, 'A-', 'AB'])), rng.random() < .7
    if k == 'texter':
        return k, ''.join(rng.choice('aZ09 -_é\n/.\u4e2d') for _ in range(rng.randint(0, 20))), None
    if k == 'pather':
        al = rng.choice(['abA0_', 'abA0_', 'a b.é', 'A'])
        return k, [''.join(rng.choice(al) for _ in range(rng.randint(1, 6))) for _ in range(rng.randint(0, 4))], rng.random() < .5
    if k == 'labeler':
        if rng.random() < .6:
            return k, rng.choice('abAZ_') + rtext(rng, rng.randint(0, 20), B64[:63].replace('-', '') + '_'), 'label'
        return k, ''.join(rng.choice(rng.choice(['aA-9', 'a é~A'])) for _ in range(rng.randint(0, 18))), 'text'
    if k == 'decimer':
        m = rng.random()
        if m < .4:
            return k, rng.choice([0, 1, -1, 7, -10, 10 ** rng.randint(0, 30), -rng.getrandbits(60), rng.getrandbits(90)]), None
        return k, rng.choice([0.0, 0.5, -1.25, 1e20, -2.5e30, 1e-7, 3.14159, 1e16, 1e15, 123456.789, rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 10 ** rng.randint(-30, 30)]), None
    if k == 'verser':
        return k, (rng.choice(['KERI', 'ACDC']), (rng.randrange(64), rng.randrange(4096)), rng.choice([None, (rng.randrange(64), rng.randrange(4096))])), None
    return 'diger', bytes(rng.randrange(256) for _ in range(rng.randint(1, 200))), None


def forms(kind, m, **kw):
    """the primitive read back from its three forms"""
    return [kind(qb64=m.qb64, **kw), kind(qb64b=m.qb64b, **kw), kind(qb2=m.qb2, **kw)]


def check_val(case):
    from keri.core import coring
    from keri.core.coring import Number, Seqner, Dater, Tagger, Bexter, Texter, Pather, Labeler, Decimer, Verser, Diger
    from keri.kering import Versionage
    import hashlib
    k, v, x = case

    def every(m, kind, f, want, what, **kw):
        for i, y in enumerate([m] + forms(kind, m, **kw)):
            g = f(y)
            if g != want:
                return f'{what} gives {g!r} {("directly", "from qb64", "from qb64b", "from qb2")[i]}, must be {want!r}'
            if (y.code, y.raw, y.soft) != (m.code, m.raw, m.soft):
                return f'{what}: {m.qb64} reads as another primitive'
        return None
    if k == 'number':
        for how in (dict(num=v), dict(num='%x' % v), dict(numh='%x' % v), dict(sn=v), dict(snh='%x' % v)):
            try:
                m = Number(**how)
            except Exception:
                if v < 2 ** 136:
                    return f'Number({how}) is refused'
                continue
            if v >= 2 ** 136:
                return f'Number({how}) is accepted as {m.qb64}'
            e = every(m, Number, lambda y: (y.num, y.numh, y.sn, y.snh, y.positive, y.inceptive), (v, '%x' % v, v, '%x' % v, v > 0, v == 0), f'Number({how})')
            if e:
                return e
        for bad in (-1, -v - 1, '-1', 1.5, 'g'):
            try:
                m = Number(num=bad)
                return f'Number(num={bad!r}) is accepted as {m.qb64}'
            except Exception:
                pass
        return None
    if k == 'numcode':
        try:
            m = Number(num=v, code=x)
        except Exception:
            m = None
        if (m is not None) != (x in coring.NumDex and v < 256 ** rawlen(x)):
            return f'Number({v}, code={x}) is {"accepted" if m else "refused"}'
        return every(m, Number, lambda y: (y.num, y.code), (v, x), f'Number({v}, code={x})') if m else None
    if k == 'seqner':
        try:
            m = Seqner(sn=v)
        except Exception:
            m = None
        if (m is not None) != (v < 2 ** 128):
            return f'Seqner({v}) is {"accepted" if m else "refused"}'
        return every(m, Seqner, lambda y: (y.sn, y.snh), (v, '%x' % v), f'Seqner({v})') if m else None
    if k == 'dater':
        return every(Dater(dts=v), Dater, lambda y: (y.dts, y.dtsb, y.datetime), (v, v.encode(), datetime.datetime.fromisoformat(v)), f'Dater({v})')
    if k == 'tagger':
        if len(v) > 10 and len(v) != 11:
            return None
        return every(Tagger(tag=v), Tagger, lambda y: y.tag, v, f'Tagger({v!r})')
    if k == 'bexter':
        if not x and v[:1] == 'A' and len(v) % 4 in (0, 3):
            return None        # the form without escape is documented as losing a leading A
        return every(Bexter(bext=v, escapive=x), Bexter, lambda y: y.bext, v, f'Bexter({v!r}, escapive={x})', escapive=x)
    if k == 'texter':
        return every(Texter(text=v), Texter, lambda y: y.text, v, f'Texter({v!r})')
    if k == 'pather':
        parts = v if x else ([''] + v if v else ['', ''])
        if x and not v:
            return None
        return every(Pather(parts=list(v), relative=x, pathive=False), Pather, lambda y: (y.parts, y.path, y.rparts),
                     (parts, '/'.join(parts), v if not x or v else v), f'Pather({v!r}, relative={x})', relative=x, pathive=False)
    if k == 'labeler':
        if x == 'label':
            return every(Labeler(label=v), Labeler, lambda y: y.label, v, f'Labeler(label={v!r})')
        return every(Labeler(text=v), Labeler, lambda y: y.text, v, f'Labeler(text={v!r})')
    if k == 'decimer':
        e = every(Decimer(decimal=v), Decimer, lambda y: (y.decimal, type(y.decimal)), (v, type(v)), f'Decimer({v!r})')
        return e or every(Decimer(dns=str(v)), Decimer, lambda y: (y.decimal, type(y.decimal)), (v, type(v)), f'Decimer(dns={str(v)!r})')
    if k == 'verser':
        p, pv, gv = v
        return every(Verser(proto=p, pvrsn=Versionage(*pv), gvrsn=Versionage(*gv) if gv else None), Verser,
                     lambda y: tuple(y.versage), (p, pv, gv), f'Verser{v}')
    for code, f in (('H', hashlib.sha3_256), ('I', hashlib.sha256), ('F', lambda s: hashlib.blake2b(s, digest_size=32)), ('G', lambda s: hashlib.blake2s(s, digest_size=32)),
                    ('0E', hashlib.blake2b), ('0F', hashlib.sha3_512), ('0G', hashlib.sha512), ('E', None)):
        m = Diger(ser=v, code=code)
        if f and m.raw != f(v).digest():
            return f'Diger({v!r}, code={code}) is not that digest'
        if not m.verify(v) or m.verify(v + b'x') or (v and m.verify(v[:-1])):
            return f'Diger({v!r}, code={code}) verifies wrongly'
        e = every(m, Diger, lambda y: y.code, code, 'Diger')
        if e:
            return e
    return None


# ---- kinds: what each class takes
BIG = lambda c: ['4' + c, '5' + c, '6' + c, '7AA' + c, '8AA' + c, '9AA' + c]
DIGS = ['E', 'F', 'G', 'H', 'I', '0D', '0E', '0F', '0G']
TAGS = {1: '0J', 2: '0K', 3: 'X', 4: '1AAF', 5: '0L', 6: '0M', 7: 'Y', 8: '1AAN', 9: '0N', 10: '0O', 11: 'Z'}
NTRANS = ['B', '1AAA', '1AAC', '1AAI']
TAKES = dict(Number=['M', '0H', 'R', 'N', 'S', 'T', '0A', 'U'], Seqner=['0A'], Dater=['1AAG'], Tagger=list(TAGS.values()), Verser=['Y', '0O'], Bexter=BIG('A'), Texter=BIG('B'),
             Decimer=BIG('H'), Labeler=['1AAP', 'V', 'W'] + BIG('A') + BIG('B') + list(TAGS.values()), Verfer=['B', 'D', '1AAA', '1AAB', '1AAI', '1AAJ'], Diger=DIGS,
             Prefixer=['B', 'D', '1AAA', '1AAB', '1AAC', '1AAD', '1AAE', '1AAI', '1AAJ'] + DIGS, Noncer=['1AAP', '0A', 'a'] + DIGS, Saider=DIGS, Pather=BIG('A') + BIG('B'))
ILKS = 'icp rot ixn dip drt rct qry rpy xip exn pro bar vcp vrt iss rev bis brv rip bup upd acm act acg ace sch att agg edg rul'.split()
TRAITS = ['EO', 'DND', 'RB', 'NB', 'NRB', 'DID']


def gen_kind(rng):
    k = rng.choice(['class'] * 6 + ['ilk', 'trait', 'nonce', 'numh', 'verser', 'validate'])
    if k == 'class':
        code = rng.choice(CODES)
        hs, ss, xs, fs, ls = SZ[code]
        n = rawlen(code)
        if n is None:
            n = 3 * rng.randint(0, 8) - ls
            n = n if n >= 0 else 3 - ls
        return k, code, rtext(rng, ss - xs) if fs is not None and ss else '', rbytes(rng, n), rng.choice(list(TAKES))
    if k in ('ilk', 'trait'):
        return k, rng.choice(ILKS + TRAITS + ['xyz', 'ICP', 'ic', 'icpp', 'abc', 'EOO', 'eo', 'N', rtext(rng, 3), rtext(rng, 2)])
    if k == 'nonce':
        return k, rng.choice([None] + TAKES['Noncer']), rbytes(rng, 64)
    if k == 'numh':
        return k, rng.choice([0, 1, 255, 256, 2 ** 16 - 1, 2 ** 16, 2 ** 40 - 1, 2 ** 40, 2 ** 64 - 1, 2 ** 64, 2 ** 88 - 1, 2 ** 88, 2 ** 112 - 1, 2 ** 112, 2 ** 136 - 1, rng.getrandbits(136),
                              rng.getrandbits(rng.randint(1, 136))])
    if k == 'verser':
        return k, rng.choice(['KERI', 'ACDC', 'KERX', 'KER', '']), (rng.choice([0, 1, 2, 63, 64, -1]), rng.choice([0, 1, 4094, 4095, 4096, -1])), rng.choice([None, (rng.choice([0, 2, 63, 64]), rng.choice([0, 4095, 4096]))])
    return k, rng.choice([0, 1, 2, 2 ** 128 - 1, 2 ** 128, 2 ** 136 - 1, rng.getrandbits(136)]), rng.choice([None, True, False])


def check_kind(case):
    from keri.core import coring
    from keri.kering import Versionage
    k = case[0]

    def made(f):
        try:
            return f()
        except Exception:
            return None
    if k == 'class':
        _, code, soft, raw, name = case
        code, soft, t, b = expected(code, soft, raw)
        K = getattr(coring, name)
        m = coring.Matter(qb64=t)
        if (m.code, m.raw, m.soft) != (code, raw, soft) or m.transferable != (code not in NTRANS) or m.digestive != (code in DIGS) or m.prefixive != (code in TAKES['Prefixer']):
            return f'{t} reads as code {m.code}, transferable {m.transferable}, digestive {m.digestive}, prefixive {m.prefixive}'
        if name == 'Verser' and code in TAKES['Verser'] or name == 'Decimer' and code in TAKES['Decimer'] or name == 'Dater' or name == 'Pather':
            return None if name != 'Dater' or code == '1AAG' or made(lambda: K(qb64=t)) is None else f'{t} is taken as Dater'
        for how in (dict(qb64=t), dict(qb64b=t.encode()), dict(qb2=b)) + ((dict(raw=raw, code=code),) if (SZ[code][3] is None or not soft) and name in ('Number', 'Seqner', 'Verfer', 'Diger', 'Prefixer', 'Noncer', 'Bexter', 'Texter', 'Decimer', 'Labeler') else ()):
            m = made(lambda: K(**how))
            if (m is not None) != (code in TAKES[name]):
                return f'{name}({how}) of code {code} is {"accepted" if m is not None else "refused"}'
            if m is not None and (m.code, m.raw, m.soft, m.qb64, m.qb2) != (code, raw, soft, t, b):
                return f'{name}({how}) reads as {m.code} {m.raw} {m.qb64}'
        return None
    if k in ('ilk', 'trait'):
        v = case[1]
        K, ok = (coring.Ilker, v in ILKS) if k == 'ilk' else (coring.Traitor, v in TRAITS)
        t = expected(TAGS[len(v)], v, b'')[2:]
        for how in ({k: v}, dict(tag=v), dict(qb64=t[0]), dict(qb2=t[1])):
            m = made(lambda: K(**how))
            if (m is not None) != ok:
                return f'{K.__name__}({how}) is {"accepted" if m is not None else "refused"}'
            if m is not None and (getattr(m, k), m.qb64, m.qb2) != (v, *t):
                return f'{K.__name__}({how}) reads as {getattr(m, k)} {m.qb64}'
        return None
    if k == 'nonce':
        _, code, raw = case
        if code is None:
            m = coring.Noncer()
            return None if m.code == '0A' and coring.Noncer(qb64=m.qb64).raw == m.raw and coring.Noncer(nonce=m.nonce).raw == m.raw and m.raw != coring.Noncer().raw else 'fresh nonce is not one'
        raw = raw[:rawlen(code)]
        t = expected(code, '', raw)[2:]
        n = t[0] if code != '1AAP' else ''
        for how in (dict(nonce=n), dict(nonce=n.encode()), dict(qb64=t[0]), dict(qb64b=t[0].encode()), dict(qb2=t[1])) + ((dict(raw=raw, code=code),) if raw else ()):
            m = coring.Noncer(**how)
            if (m.code, m.raw, m.qb64, m.nonce, m.nonceb) != (code, raw, t[0], n, n.encode()):
                return f'Noncer({how}) is {m.code} {m.raw} {m.nonce!r}'
        return None
    if k == 'numh':
        v = case[1]
        code = next(c for c, w in (('M', 2), ('R', 5), ('N', 8), ('S', 11), ('T', 14), ('U', 17)) if v < 256 ** w)
        for how in (dict(num=v), dict(numh=v), dict(num='%x' % v), dict(snh='%x' % v)):
            m = coring.Number(**how)
            if (m.num, m.code, m.raw) != (v, code, v.to_bytes(rawlen(code), 'big')):
                return f'Number({how}) is {m.code} {m.num}'
        if v < 2 ** 128 and (m.huge != expected('0A', '', v.to_bytes(16, 'big'))[2] or coring.Number(qb64=m.huge).num != v):
            return f'Number({v}).huge is {m.huge}'
        for how in (dict(), dict(num=''), dict(numh='')):
            if coring.Number(**how).num != 0:
                return f'Number({how}) is {coring.Number(**how).num}'
        return None
    if k == 'verser':
        _, p, pv, gv = case
        ok = p in ('KERI', 'ACDC') and all(0 <= a <= 63 and 0 <= b <= 4095 for a, b in [pv] + ([gv] if gv else []))
        m = made(lambda: coring.Verser(proto=p, pvrsn=Versionage(*pv), gvrsn=Versionage(*gv) if gv else None))
        if ok and (m is None or tuple(m.versage) != (p, pv, gv)):
            return f'Verser{case[1:]} is {"refused" if m is None else m.versage}'
        if m is not None and not ok and tuple(m.versage) != (p, pv, gv):
            return f'Verser{case[1:]} is accepted as {m.versage}'
        return None
    _, v, inc = case
    ok = v < 2 ** 128 and (inc is None or (v == 0) == inc)
    m = made(lambda: coring.Number(num=v).validate(inceptive=inc))
    return None if (m is not None) == ok and (m is None or m.num == v) else f'Number({v}).validate({inc}) {"refuses" if ok else "accepts"}'


def units():
    return []


GROUPS = [
    Group('encoding', gen, check, 2500, FN + FH, 'every code of the table, random and extreme raw values, variable sizes up to 60 bytes and around the small/large boundary'),
    Group('text_refused', gen_text, check_text, 8000, FN, 'encodings with up to 3 character edits and short random texts'),
    Group('binary_refused', gen_bin, check_bin, 8000, FN, 'encodings with up to 3 byte edits and short random bytes'),
    Group('raw_refused', gen_bad, check_bad, 1500, FN),
    Group('base64', gen_help, check_help, 3000, FH),
    Group('kinds', gen_kind, check_kind, 9000, FV + FN, 'every class on every code and the boundary values listed'),
    Group('values', gen_val, check_val, 3000, FV),
]
RULE = 'random codes, values and edits; distinct cases counted by value'
ASSUMPTIONS = COMMON_ASSUMPTIONS + ['the code table of contracts/data/codes.json is the specification of the sizes of the codes', 'the digest algorithm of blake3 is a stand-in here']
