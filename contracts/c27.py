"""C27: compact and expanded forms of nested data, generic maps and lists, aggregates and fixed field structures."""
import copy
import hashlib
import json
from .base import *
from . import kel
from .kel import dig, b64

M = 'src/keri/core/mapping.py:'
S = 'src/keri/core/structing.py:'
KINDS = ['CESR', 'JSON', 'JSON', 'MGPK', 'CBOR']


# ------------------------------------------------------------ values
def said_(rng, code='E'):
    return code + b64(b'\0' + rng.randbytes(32))[1:]


def text(rng):
    return rng.choice(['', 'a', 'abc', 'A b', 'é∞', 'x' * 70, '1AAK', '1AAL', '1AAM', '1AAO', '1AAP', '-AAB', 'VAAA', 'Xabc', '0Jx', '4AAA', '4HABAAAB', '{"a":1}', '0', '1.5', '"',
                       said_(rng), 'D' + said_(rng)[1:], 'MAAB', '0AAA' + 'b' * 20, '#' * 44, 'Ytag7___', '6AADAAAA', 'z' * 4096 if rng.random() < .03 else 'zz', '-', '_', ' ', '\x00', 'E' * 44, 'AAAA', '5BABAA--'])


def scalar(rng, kind):
    k = rng.random()
    if k < .5:
        return text(rng)
    if k < .6:
        return None
    if k < .7:
        return rng.random() < .5
    if k < .9:
        return rng.choice([0, 1, -1, 12345678901234567890, -7, 255, 10 ** 6])
    return rng.choice([0.5, -2.25, 1e-5, 12.75, 100.125, 1.5])


def label(rng, strict=True):
    if not strict and rng.random() < .3:
        return rng.choice(['$id', 'a b', 'a-b', '1x', 'é', 'x/y', '$', '-'])
    return rng.choice(['a', 'b', 'c', 'i', 'x1', 'name', '_u', 'Long_label_' + 'q' * rng.randint(0, 30), 'zz', 'A', 'dt', 'abcd', 'abcde'])


def value(rng, kind, strict, d=0):
    k = rng.random()
    if d > 3 or k < .6:
        return scalar(rng, kind)
    if k < .8:
        return {label(rng, strict): value(rng, kind, strict, d + 1) for _ in range(rng.randint(0, 4))}
    return [value(rng, kind, strict, d + 1) for _ in range(rng.randint(0, 3))]


def same(a, b):
    """equal and of the same types (a number is a number)"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    return not isinstance(b, (dict, list, tuple)) and a == b


def dumps(v, kind):
    """independent serialization for the kinds other than native CESR"""
    if kind == 'JSON':
        return json.dumps(v, separators=(',', ':'), ensure_ascii=False).encode()
    import cbor2, msgpack
    return cbor2.dumps(v) if kind == 'CBOR' else msgpack.dumps(v)


HASH = {'E': lambda b: dig(b), 'H': lambda b: 'H' + b64(b'\0' + hashlib.sha3_256(b).digest())[1:], 'I': lambda b: 'I' + b64(b'\0' + hashlib.sha256(b).digest())[1:]}


def raw_of(mad, kind, strict):
    from keri.core.mapping import Mapper
    if kind == 'CESR':
        return Mapper(mad=mad, strict=strict, kind=kind).raw
    return dumps(mad, kind)


def digest(mad, kind, strict, lab, code='E'):
    """SAID of a block whose nested sections are compact already"""
    m = dict(mad)
    c = m[lab][0] if isinstance(m[lab], str) and len(m[lab]) == 44 and m[lab][0] in HASH else code
    m[lab] = '#' * 44
    if kind == 'CESR':          # the dummy is not a primitive, so give it the length of one
        z = 'E' + 'A' * 43
        m[lab] = z
        a = raw_of(m, kind, strict)
        m[lab] = 'E' + 'A' * 42 + 'B'
        b = raw_of(m, kind, strict)
        i = next(j for j in range(len(a)) if a[j] != b[j]) - 43
        return HASH[c](a[:i] + b'#' * 44 + a[i + 44:])
    return HASH[c](dumps(m, kind))


# ------------------------------------------------------------ maps
def gen_map(rng):
    kind = rng.choice(KINDS)
    strict = rng.random() < .7
    m = value(rng, kind, strict)
    while not isinstance(m, dict):
        m = {label(rng, strict): value(rng, kind, strict, 1) for _ in range(rng.randint(0, 5))}
    return dict(kind=kind, strict=strict, mad=m, qb2=rng.random() < .3, said=rng.random() < .4, code=rng.choice('EEEHI'), tail=rng.choice([b'', b'-AAB', b'xyz']))


def check_map(c):
    from keri.core.mapping import Mapper
    from keri import kering
    kind, strict, mad = c['kind'], c['strict'], c['mad']
    if c['said']:
        mad = {'d': '' if c['code'] == 'E' else said_(__import__('random').Random(1), c['code']), **mad}
    kw = dict(strict=strict, kind=kind)
    try:
        m = Mapper(mad=mad, makify=c['said'], saidive=c['said'], **kw)
    except kering.SerializeError:
        raise Skip
    if c['said']:
        need(m.said == digest(mad, kind, strict, 'd'), 'said of a map is not the digest of its serialization')
        mad = {**mad, 'd': m.said}
    need(same(m.mad, mad), f'map holds {m.mad} and not {mad}')
    raw = m.raw
    if kind != 'CESR':
        need(raw == dumps(mad, kind), 'serialization of a map differs')
    else:
        need(m.size == len(raw) and m.count * 4 == len(raw), 'size of a map differs from its serialization')
    n = Mapper(raw=raw, saidive=c['said'], **kw) if not c['qb2'] or kind != 'CESR' else Mapper(qb2=m.qb2, saidive=c['said'], **kw)
    need(same(n.mad, mad), f'map {mad} reads back as {n.mad}')
    need(n.raw == raw, 'map read back has another serialization')
    if kind == 'CESR':
        buf = bytearray(raw + c['tail'])
        n = Mapper(raw=buf, strip=True, **kw)
        need(same(n.mad, mad) and bytes(buf) == c['tail'], 'map is not taken from the front of a stream')
        need(n.raw == raw, 'map taken from a stream has another serialization')
    if c['said']:
        for k in list(mad):
            bad = {**mad, k: said_(__import__('random').Random(2)) if k == 'd' else 'other' if mad[k] != 'other' else None}
            need(raises((kering.KeriError, ValueError), Mapper, mad=bad, saidive=True, **kw), f'map with field {k} altered verifies')
        if len(mad) > 1:
            ks = list(mad)
            bad = {k: mad[k] for k in ks[1:] + ks[:1]}
            need(raises((kering.KeriError, ValueError), Mapper, mad=bad, saidive=True, **kw), 'map with fields in another order verifies')
            bad = {k: mad[k] for k in ks[:-1]}
            need(raises((kering.KeriError, ValueError), Mapper, mad=bad, saidive=True, **kw), 'map with a missing field verifies')


# ------------------------------------------------------------ malformed native maps
def gen_bad(rng):
    strict = rng.random() < .6
    m = {label(rng, strict): value(rng, 'CESR', strict, 1) for _ in range(rng.randint(1, 4))}
    return dict(strict=strict, mad=m, how=rng.choice(['flip', 'flip', 'cut', 'dup', 'dupin', 'grow', 'shrink', 'insert', 'label']), at=rng.random(), ch=rng.choice(b'AB-_19EVWX4056H'))


def check_bad(c):
    from keri.core.mapping import Mapper
    from keri.core.coring import Labeler
    from keri.core.counting import Counter, Codens
    from keri import kering
    strict = c['strict']
    try:
        raw = bytearray(Mapper(mad=c['mad'], strict=strict).raw)
    except kering.SerializeError:
        raise Skip
    i = int(c['at'] * len(raw))
    how = c['how']
    if how == 'flip':
        raw[i] = c['ch']
    elif how == 'cut':
        del raw[i:]
    elif how == 'insert':
        raw[i:i] = bytes([c['ch']]) * 4
    else:
        h = 4 if raw[1:2] != b'-' else 8
        body = raw[h:]
        if how in ('dup', 'dupin'):
            inner = bytes(Mapper(mad={'dup': 1}, strict=strict).raw)
            hh = 4
            two = inner[hh:] + bytes(Mapper(mad={'dup': 2}, strict=strict).raw)[hh:]
            if how == 'dup':
                body = two + body
            else:
                body = body + bytes(Labeler(label='nest').qb64b) + bytes(Counter.enclose(qb64=bytearray(two), code=Codens.GenericMapGroup))
        elif how == 'grow':
            body = body + b'AAAA'
        elif how == 'shrink':
            body = body[:-4]
        elif how == 'label':
            body = body + bytes(Labeler(text='last').qb64b)
        raw = bytearray(Counter.enclose(qb64=bytearray(body), code=Codens.GenericMapGroup))
    if not raw:
        raise Skip
    try:
        m = Mapper(raw=bytes(raw), strict=strict)
    except (kering.KeriError, ValueError):
        return
    except Exception as e:
        raise Bad(f'{how}: malformed map is refused with {type(e).__name__}: {e}')
    need(how not in ('dup', 'dupin'), f'map with a repeated label reads as {m.mad}')
    # what is taken is a serialization: reading it again gives the same
    n = Mapper(mad=m.mad, strict=strict)
    need(same(Mapper(raw=n.raw, strict=strict).mad, m.mad), f'{how}: map read from malformed serialization does not round trip')
    need(len(m.raw) == m.size and bytes(raw[:len(m.raw)]) == m.raw, f'{how}: map of truncated serialization is taken')


# ------------------------------------------------------------ sections
def section(rng, kind, strict, lab, d=0, top=True):
    m = {}
    if rng.random() < (.9 if top else .65):
        m[lab] = '' if rng.random() < .75 else said_(rng, rng.choice('EEHI'))
    for _ in range(rng.randint(0, 4)):
        l = label(rng, strict)
        if l in m or l == lab:
            continue
        k = rng.random()
        if k < .5 and d < 4:
            m[l] = section(rng, kind, strict, lab, d + 1, False)
        elif k < .6:
            m[l] = [value(rng, kind, strict, 3) for _ in range(rng.randint(0, 2))] + ([{lab: said_(rng), 'q': 1}] if rng.random() < .3 else [])
        else:
            m[l] = scalar(rng, kind)
    if lab in m and rng.random() < .15 and not (set(m) - {lab}):
        m['z'] = 1
    return m


def gen_comp(rng):
    kind = rng.choice(KINDS)
    strict = rng.random() < .6
    lab = 'd' if strict or rng.random() < .5 else '$id'
    return dict(kind=kind, strict=strict, lab=lab, mad=section(rng, kind, strict, lab), pick=rng.random(), greedy=rng.random() < .5)


def has(m, lab):
    return lab in m or any(has(v, lab) for v in m.values() if isinstance(v, dict))


def full(m, kind, strict, lab, code=None):
    """(expanded form with every said computed, compact form); saids left empty are of the kind of that of the container"""
    code = code or (m[lab][0] if m.get(lab) else 'E')
    e, c = {}, {}
    for k, v in m.items():
        if isinstance(v, dict) and k != lab and has(v, lab):
            e[k], x = full(v, kind, strict, lab, code)
            c[k] = x[lab] if lab in x else x
        else:
            e[k] = c[k] = v
    if lab in m:
        s = digest(c, kind, strict, lab, code)
        e[lab] = c[lab] = s
    return e, c


def sections(m, lab, p=()):
    for k, v in m.items():
        if isinstance(v, dict):
            yield from sections(v, lab, p + (k,))
            if lab in v:
                yield p + (k,)


def put(m, p, v):
    for k in p[:-1]:
        m = m[k]
    m[p[-1]] = v


def get(m, p):
    for k in p:
        m = m[k]
    return m


def check_comp(c):
    import random
    from keri.core.mapping import Compactor
    from keri import kering
    kind, strict, lab, mad = c['kind'], c['strict'], c['lab'], c['mad']
    kw = dict(strict=strict, kind=kind)
    if lab != 'd':
        kw['saids'] = {lab: 'E'}
    try:
        e, x = full(mad, kind, strict, lab)
    except kering.SerializeError:
        raise Skip
    if not has(mad, lab):
        raise Skip
    rng = random.Random(c['pick'])
    # 1. compacted from what it was made of
    q = Compactor(mad=mad, makify=True, **kw)
    q.compact()
    need(same(q.mad, x), f'compact form of {mad} is {q.mad} and not {x}')
    need(q.said == x.get(lab), 'said of compacted container differs')
    for p in sections(e, lab):
        path = ''.join('.' + k for k in p)
        need(path in q.leaves, f'section {path} is not among those compacted')
        need(q.leaves[path].said == get(e, p)[lab], f'said of section {path} differs')
    need(q.iscompact is (True if lab in mad else False), 'compacted container does not know that it is')
    # 2. any sections already replaced by their saids, in any mixture
    for _ in range(3):
        part = copy.deepcopy(e)
        for p in sorted(sections(e, lab), key=len, reverse=True):
            if rng.random() < .4:
                put(part, p, get(e, p)[lab])
        r = Compactor(mad=part, makify=True, **kw)
        r.compact()
        need(same(r.mad, x), f'partly compacted form {part} compacts to {r.mad} and not {x}')
    # 3. made compact and expanded again
    f = Compactor(mad=mad, makify=True, compactify=True, **kw)
    need(same(f.mad, x) , 'container made compact is not')
    if not c['greedy']:
        f.expand(greedy=False)
    best = None
    for idx, part in f.partials.items():
        for path in idx:
            s = part.getTail(path)
            need(isinstance(s, dict) and lab in s, f'partial names {path} which is no section of it')
            need(same(s[lab], get(e, tuple(path.split('.')[1:]))[lab]), f'section {path} of an expansion has another said')
        g = copy.deepcopy(part.mad)
        r = Compactor(mad=g, makify=True, **kw)
        r.compact()
        need(same(r.mad, x), f'expansion {part.mad} compacts to {r.mad} and not {x}')
        if best is None or len(str(part.mad)) > len(str(best)):
            best = part.mad
    if f.partials and (len(list(sections(e, lab))) or lab in e):
        need(same(best, e), f'full expansion is {best} and not the original {e}')


def fixed_comp():
    s = lambda n: {'d': '', 'q': n}
    for m in ({'d': '', 'a.b': s(1)}, {'d': '', 'a': {'b': s(1)}, 'a.b': s(2)}, {'d': '', 'a.b': s(2), 'a': {'b': s(1)}}, {'d': '', '': s(1)}, {'d': '', 'a': {'': s(1)}},
              {'d': '', 'a': {'': s(1), 'b': s(2)}, 'a.': s(3)}):
        yield dict(dots=True, mad=m)


def check_dots(c):
    """labels that look like paths: the right digest or a refusal, and an answer"""
    from keri.core.mapping import Compactor
    from keri import kering
    import signal

    class Late(BaseException):
        pass

    def late(*a):
        raise Late
    e, x = full(c['mad'], 'JSON', True, 'd')
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(5)
    try:
        q = Compactor(mad=c['mad'], makify=True, kind='JSON')
        q.compact()
    except (kering.KeriError, ValueError):
        return
    except Late:
        raise Bad(f'compacting {c["mad"]} does not end')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    need(same(q.mad, x), f'compact form of {c["mad"]} is {q.mad} and not {x}')


def gen_dots(rng):
    L = ['a', 'b', 'a.b', '', 'b.a', '.', 'a.', '.a', 'd.a']

    def mk(d=0):
        m = {'d': ''} if rng.random() < .8 else {}
        for _ in range(rng.randint(1, 3)):
            m[rng.choice(L)] = mk(d + 1) if d < 3 and rng.random() < .7 else rng.randint(0, 9)
        return m
    m = mk()
    m.setdefault('d', '')
    return dict(dots=True, mad=m)


# ------------------------------------------------------------ aggregates
def gen_agg(rng):
    kind = rng.choice(KINDS)
    n = rng.randint(0, 5)
    els = [section(rng, kind, True, 'd', 3) if rng.random() < .8 else said_(rng) for _ in range(n)]
    for e in els:
        if isinstance(e, dict):
            e.pop('d', None)
    els = [{'d': '', **e} if isinstance(e, dict) else e for e in els]
    return dict(kind=kind, els=els, pick=rng.random())


def check_agg(c):
    import random
    from keri.core.mapping import Aggor
    from keri import kering
    kind = c['kind']
    rng = random.Random(c['pick'])
    try:
        els = [{**e, 'd': digest(e, kind, True, 'd')} if isinstance(e, dict) else e for e in c['els']]
        g = Aggor(ael=[''] + c['els'], makify=True, kind=kind)
    except kering.KeriError:
        raise Skip
    saids = [e['d'] if isinstance(e, dict) else e for e in els]
    if kind != 'CESR':
        agid = dig(dumps(['#' * 44] + saids, kind))
        need(g.agid == agid, 'aggregate id is not the digest of the ids of its elements')
    need(same(g.ael, [g.agid] + els), 'aggregate holds other elements')
    for how in range(6):
        part = [e if rng.random() < .5 else s for e, s in zip(els, saids)]
        ael = [g.agid] + part
        need(Aggor.verifyDisclosure(ael, kind=kind), 'a disclosure of some elements does not verify')
        h = Aggor(ael=ael, kind=kind)
        need(h.agid == g.agid, 'aggregate id depends on what is disclosed')
        r = Aggor(raw=h.raw, kind=kind)
        need(same(r.ael, ael) and r.raw == h.raw, 'aggregate does not read back')
        need(Aggor(ael=[''] + part, makify=True, kind=kind).agid == g.agid, 'aggregate made of disclosed elements has another id')
        if part:
            bad = copy.deepcopy(part)
            i = rng.randrange(len(bad))
            z = rng.choice(['drop', 'add', 'swap', 'alter', 'said'])
            if z == 'drop':
                del bad[i]
            elif z == 'add':
                bad.insert(i, said_(rng))
            elif z == 'swap':
                j = rng.randrange(len(bad))
                bad[i], bad[j] = bad[j], bad[i]
                if saids[i] == saids[j]:
                    continue
            elif z == 'alter':
                if not isinstance(bad[i], dict):
                    continue
                bad[i]['extra'] = 1
            else:
                bad[i] = said_(rng)
            need(not Aggor.verifyDisclosure([g.agid] + bad, kind=kind), f'aggregate with elements altered ({z}) verifies')


# ------------------------------------------------------------ structures
def nonce(rng):
    return rng.choice([said_(rng), '0A' + b64(b'\0\0' + rng.randbytes(16))[2:], ''])


def num(rng):
    return '%x' % rng.choice([0, 1, 15, 16, 255, 256, 65535, 65536, 2 ** 32, 2 ** 64 + 3])


FIELD = {
    'SealDigest': dict(d=said_), 'SealRoot': dict(rd=said_), 'SealSource': dict(s=num, d=said_),
    'SealEvent': dict(i=said_, s=num, d=said_), 'SealLast': dict(i=said_), 'SealBack': dict(bi=lambda r: 'B' + said_(r)[1:], d=said_),
    'SealKind': dict(t=lambda r: r.choice(['YKERIBAA', 'YACDCBAA', '0OKERICAACAA', '0OACDCCAACAA']), d=said_),
    'BlindState': dict(d=said_, u=nonce, td=nonce, ts=lambda r: r.choice(['', 'issued', 'revoked', 'a b', 'é', 'x' * 90])),
    'BoundState': dict(d=said_, u=nonce, td=nonce, ts=lambda r: r.choice(['', 'issued', 'revoked']), bn=num, bd=nonce),
    'TypeMedia': dict(d=said_, u=nonce, mt=lambda r: r.choice(['text/plain', 'application/json', '']), mv=lambda r: r.choice(['', 'hello', 'é∞', 'q' * 100, '{"a":1}'])),
    'FirstSeen': dict(f=num, dt=lambda r: '2021-06-%02dT12:00:00.%06d+00:00' % (r.randint(1, 28), r.randrange(10 ** 6))),
}


def gen_struct(rng):
    name = rng.choice(list(FIELD))
    rows = [{k: f(rng) for k, f in FIELD[name].items()} for _ in range(rng.randint(1, 4))]
    return dict(name=name, rows=rows, bny=rng.random() < .4, how=rng.choice(['missing', 'extra', 'order', 'rename', 'tuple', 'long', 'short']), said=rng.random() < .5,
                cut=rng.random(), tail=rng.choice([b'', b'-AAB', b'1234']))


def check_struct(c):
    from keri.core import structing
    from keri.core.structing import Structor, Sealer, Blinder, Mediar
    from keri import kering
    name, rows = c['name'], c['rows']
    cls = {'S': Sealer, 'B': Blinder, 'T': Mediar}.get(name[0], Structor)
    if name == 'FirstSeen':
        cls = Structor
    clan = getattr(structing, name)
    kw = dict(saidive=False) if cls in (Blinder, Mediar) else {}
    REF = (kering.KeriError, ValueError, TypeError)
    if c['said'] and cls in (Blinder, Mediar):
        rows = [{**r, 'd': ''} for r in rows]
        out = []
        for r in rows:
            s = cls(crew=clan(**r), makify=True, saidive=True)
            z = cls(crew=clan(**{**r, 'd': said_(__import__('random').Random(3))}), saidive=False).qb64
            need(s.said == dig('#' * 44 + z[44:]), 'said of a structure is not the digest of its serialization')
            need(s.asdict == {**r, 'd': s.said}, 'structure holds other fields')
            t = cls(clan=clan, qb64=s.qb64)
            need(t.said == s.said and t.asdict == s.asdict, 'structure does not read back')
            for k in r:
                b = {**s.asdict, k: said_(__import__('random').Random(4)) if k in 'dutdbd' else '5' if k == 'bn' and r[k] != '5' else 'other'}
                need(raises(REF, cls, crew=clan(**b)), f'structure with field {k} altered verifies')
            out.append(s.asdict)
        rows = out
    ss = []
    for r in rows:
        for crew in (r, clan(**r), list(r.values())):
            s = cls(clan=clan, crew=crew, **kw) if isinstance(crew, list) else cls(crew=crew, **kw)
            need(s.clan is clan and s.asdict == r, f'structure made of {crew} holds {s.asdict}')
        t = cls(clan=clan, qb2=s.qb2, **kw) if c['bny'] else cls(clan=clan, qb64=s.qb64, **kw)
        need(t.asdict == r and t.qb64 == s.qb64 and t.qb2 == s.qb2, f'structure of {r} reads back as {t.asdict}')
        ss.append(s)
    # groups
    g = cls.enclose(ss, cold='bny' if c['bny'] else 'txt')
    buf = bytearray(g + c['tail'])
    back = cls.extract(strip=True, **({'qb2': buf} if c['bny'] else {'qb64b': buf})) if not kw else None
    if kw:
        g1 = bytes(g)
        try:
            back = cls.extract(strip=True, **({'qb2': buf} if c['bny'] else {'qb64b': buf}))
        except kering.KeriError:
            back = None                # saids of the structures are not theirs
        need(not c['said'] or back is not None, 'group of structures does not read back')
    if back is not None:
        need([b.asdict for b in back] == rows and bytes(buf) == c['tail'], 'group of structures reads back as another')
    # malformed
    short = bytes(g[:int(c['cut'] * len(g))])
    try:
        back = cls.extract(**({'qb2': short} if c['bny'] else {'qb64b': short}))
    except Exception as e:
        need(isinstance(e, REF), f'truncated group is refused with {type(e).__name__}: {e}')
    else:
        raise Bad(f'truncated group of {len(rows)} is read as {len(back)}')
    r = rows[0]
    ks = list(r)
    how = c['how']
    if how == 'missing':
        bad = {k: r[k] for k in ks[:-1]}
    elif how == 'extra':
        bad = {**r, 'zz': r[ks[0]]}
    elif how == 'order':
        if len(ks) < 2:
            return
        bad = {k: r[k] for k in reversed(ks)}
    elif how == 'rename':
        bad = {('q' if i == 0 else k): r[k] for i, k in enumerate(ks)}
    elif how == 'tuple':
        from collections import namedtuple
        bad = namedtuple('Other', ['q'] + ks[1:])(*r.values())
    elif how == 'long':
        bad = list(r.values()) + [said_(__import__('random').Random(5))]
    else:
        bad = list(r.values())[:-1]
        if not bad:
            return
    try:
        s = cls(clan=clan, crew=bad, **kw)
    except REF:
        return
    except Exception as e:
        raise Bad(f'fields {how} are refused with {type(e).__name__}: {e}')
    raise Bad(f'fields {how} are taken as {s.asdict}')


def units():
    return []


GROUPS = [
    Group('maps', gen_map, check_map, 1200, [M + 'Mapper.' + x for x in ('__init__', '_exhale', '_inhale', '_serialize', '_deserialize')], chunks=4,
          bound='maps nested 4 deep with up to 5 fields per level, all kinds'),
    Group('malformed', gen_bad, check_bad, 1200, [M + 'Mapper._inhale', M + 'Mapper._deserialize'], chunks=4, bound='one change to the serialization of a map nested 4 deep'),
    Group('sections', gen_comp, check_comp, 800, [M + 'Compactor.' + x for x in ('trace', '_trace', '_hassaid', 'getTail', 'getMad', 'compact', 'expand')], chunks=4,
          bound='sections nested 5 deep with up to 5 fields per level, all kinds, 3 partly compacted forms and all expansions of each'),
    Group('labels', gen_dots, check_dots, 400, [M + 'Compactor._trace', M + 'Compactor.compact'], fixed=lambda: list(fixed_comp()), chunks=2, bound='sections nested 4 deep under 9 labels with dots'),
    Group('aggregates', gen_agg, check_agg, 400, [M + 'Aggor.' + x for x in ('__init__', 'verifyDisclosure', '_exhale', '_inhale')], chunks=4, bound='up to 5 elements, 6 disclosures each'),
    Group('structures', gen_struct, check_struct, 1200, [S + 'Structor.' + x for x in ('__init__', 'enclose', 'extract')] + [S + 'Blinder.__init__', S + 'Mediar.__init__', S + 'Sealer.__init__'], chunks=4,
          bound='all 11 kinds of structures, groups of up to 4'),
]
ASSUMPTIONS = ['the digests are collision free', 'serialization by json, cbor2 and msgpack of plain values is that of the libraries']
RULE = 'what is decoded is what was encoded and every form of nested data compacts to the same digest'
