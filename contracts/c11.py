"""C11: a message's self-addressing digest covers its whole content."""
import copy
import json
import os
from .base import *
from .c10 import meaning

S = 'src/keri/core/serdering.py:'
FN = [S + 'Serder.' + x for x in ('__init__', '_verify', '_validate', 'makify', '_makify', '_compute', '_inhale', '_exhale', 'loads', '_loads', 'dumps', '_dumps')] + \
     [S + 'SerderKERI._verify', S + 'SerderACDC._verify', S + 'SerderACDC._compute', 'src/keri/core/coring.py:Diger', 'src/keri/core/coring.py:Saider']
TAB = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'fields.json')))
KEYED = ('icp', 'rot', 'dip', 'drt', 'vcp')
KINDS = ('JSON', 'MGPK', 'CBOR', 'CESR')
_P = {}


def pool():
    if not _P:
        from keri.core.coring import Matter, Diger
        _P['keys'] = [Matter(raw=bytes([i]) * 32, code='D').qb64 for i in range(6)]
        _P['nkeys'] = [Matter(raw=bytes([i]) * 32, code='B').qb64 for i in range(6)]
        _P['digs'] = [Matter(raw=bytes([i + 40]) * 32, code='E').qb64 for i in range(6)]
        _P['salts'] = [Matter(raw=bytes([i + 80]) * 16, code='0A').qb64 for i in range(4)]
    return _P


def text(rng):
    return ''.join(rng.choice('abcXYZ019_é\u4e2d "\\/') for _ in range(rng.randint(0, 8)))


def leaf(rng):
    return rng.choice([None, True, False, 0, 1, -7, 10 ** 12, 1.5, '', 'a', text(rng), text(rng)])


def obj(rng, d=0):
    n = rng.choice([0, 1, 2, 3]) if d else rng.choice([1, 2, 3])
    o = {}
    for _ in range(n):
        k = rng.choice(['x', 'y', 'zed', 'name', 'i', 'r', 's', 'pre'])
        r = rng.random()
        o[k] = obj(rng, d + 1) if r < .2 and d < 2 else [leaf(rng) for _ in range(rng.randint(0, 3))] if r < .35 else leaf(rng)
    return o


def field(rng, l, ilk, proto, major, kind):
    p = pool()
    if l in ('i', 'di', 'ii'):
        if ilk in ('drt', 'dip') and l == 'i':
            return rng.choice(p['digs'])
        return rng.choice(p['keys'] + p['digs'])
    if l in ('p', 'x', 'td', 'rd') or (l == 'ri' and proto == 'ACDC'):
        return rng.choice(p['digs'])
    if l == 'ri':
        return rng.choice(p['digs'] if major == 1 else p['keys'])
    if l == 'rp':
        return rng.choice(p['keys'])
    if l == 's' and proto == 'ACDC':
        return rng.choice(p['digs'])
    if l in ('s', 'n') and proto == 'KERI' and ilk not in KEYED or l == 's':
        return '%x' % rng.choice([1, 2, 15, 16, 255, rng.getrandbits(40)])
    if l == 'n' and ilk == 'vcp':
        return rng.choice(p['salts'])
    if l == 'n' and proto == 'ACDC':
        return '%x' % rng.randrange(1, 300)
    if l in ('k', 'b', 'ba', 'br'):
        ks = p['keys'] if l == 'k' else p['nkeys']
        return rng.sample(ks, rng.randint(1 if l == 'k' else 0, 3))
    if l == 'n':
        return rng.sample(p['digs'], rng.randint(0, 3))
    if l in ('kt', 'nt'):
        return rng.choice(['1', '2', ['1/2', '1/2', '1/2']])
    if l == 'bt':
        return rng.choice(['0', '1', '2'])
    if l == 'c':
        return rng.sample(['EO', 'DND', 'NRB', 'RB'], rng.randint(0, 2))
    if l == 'dt':
        return '20%02d-08-22T17:50:09.988921+00:00' % rng.randint(10, 40)
    if l in ('r', 'rr') and proto == 'KERI':
        return '/' + '/'.join(rng.choice(['ksn', 'oobi', 'a', 'end', 'role']) for _ in range(rng.randint(1, 3)))
    if l == 'u':
        return rng.choice(p['salts'])
    if l == 'q':
        return obj(rng)
    if l == 'a' and proto == 'KERI':
        if ilk in ('rpy', 'bar', 'exn', 'xip'):
            return obj(rng)
        if kind == 'CESR' or rng.random() < .6:
            return [dict(d=rng.choice(p['digs'])) if rng.random() < .4 else dict(i=rng.choice(p['keys']), s='%x' % rng.randrange(40), d=rng.choice(p['digs'])) for _ in range(rng.randint(0, 2))]
        return [obj(rng) for _ in range(rng.randint(0, 2))]
    if l == 'e' and proto == 'KERI':
        return obj(rng)
    if l == 'ra':
        return dict(i=rng.choice(p['keys']), s='1', d=rng.choice(p['digs']))
    if l in ('a', 'e', 'r'):
        r = rng.random()
        if r < .2:
            return rng.choice(p['digs'])
        if l == 'a':
            o = dict(d='', i=rng.choice(p['keys']), name=rng.choice(['Sue', 'Bob']), n=rng.choice(['1', '22']))
        elif l == 'e':
            o = dict(d='', boss=dict(d='', n=rng.choice(p['digs'])))
        else:
            o = dict(d='', warn=dict(d='', l=rng.choice(['AS IS', 'no'])))
        return o
    if l == 'A':
        return rng.choice(p['digs'])
    if l == 'ts':
        return rng.choice(['issued', 'revoked'])
    if l == 'b':
        return rng.choice(p['digs'])
    return rng.choice(p['digs'])


SEL = [t for t in TAB if (t['proto'], t['ilk']) not in (('ACDC', 'sch'), ('ACDC', 'agg'), ('ACDC', 'bup'), ('ACDC', 'att'), ('ACDC', 'edg'), ('ACDC', 'rul'))]


def gen(rng):
    t = rng.choice(SEL)
    proto, (major, minor), ilk = t['proto'], t['pvrsn'], t['ilk']
    kind = rng.choice(KINDS[:3] if major == 1 or t['proto'] == 'ACDC' and (ilk == 'ace' or rng.random() < .5) else KINDS)
    sad = {}
    for l in t['alls']:
        if l == 'v' or l in t['saids'] and l == 'd':
            sad[l] = ''
        elif l == 't':
            if ilk is not None:
                sad[l] = ilk
        elif l in t['opts'] and rng.random() < .4:
            continue
        elif l in t['alts'] and any(a in sad for a in t['alts']):
            continue
        elif l == 'i' and 'i' in t['saids']:
            sad[l] = '' if rng.random() < .6 or ilk in ('dip', 'vcp') else '@key'
        else:
            sad[l] = field(rng, l, ilk, proto, major, kind)
    if sad.get('i') == '@key':
        if ilk == 'icp':
            k = rng.choice(pool()['keys'] + pool()['nkeys'])
            sad.update(i=k, k=[k], kt='1')
            if k[0] == 'B':
                sad.update(n=[], nt='0', b=[], bt='0', a=[])
        else:
            sad['i'] = rng.choice(pool()['digs'])
    code = rng.choice(['E', 'E', 'E', 'H', 'I', 'F', 'G', '0D', '0F'])
    return dict(proto=proto, pvrsn=(major, minor), ilk=ilk, kind=kind, sad=sad, code=code, compact=kind == 'CESR' or rng.random() < .4, muts=[mut(rng) for _ in range(6)])


def mut(rng):
    k = rng.choice(['value', 'value', 'said', 'keysaid', 'drop', 'extra', 'swap', 'byte', 'byte', 'byte', 'size', 'space', 'rename', 'cut', 'nested', 'inner', 'inner'])
    return k, rng.getrandbits(30), rng.random() < .5


def dump(sad, kind):
    import msgpack
    import cbor2
    if kind == 'JSON':
        return json.dumps(sad, separators=(',', ':'), ensure_ascii=False).encode()
    return msgpack.dumps(sad) if kind == 'MGPK' else cbor2.dumps(sad)


def said(o, kind):
    """sets the embedded digests of o, each over its block with its own nested blocks compacted, and returns that of o"""
    from keri.core.coring import Diger
    c = {k: said(v, kind) if isinstance(v, dict) else v for k, v in o.items()}
    c['d'] = '#' * 44
    o['d'] = Diger(ser=dump(c, kind)).qb64
    return o['d']


def tab(case):
    return next(t for t in TAB if (t['proto'], t['pvrsn'], t['ilk']) == (case['proto'], list(case['pvrsn']), case['ilk']))


def make(case):
    from keri.core import serdering
    from keri.kering import Versionage
    cls = serdering.SerderKERI if case['proto'] == 'KERI' else serdering.SerderACDC
    v = Versionage(*case['pvrsn'])
    sad = copy.deepcopy(case['sad'])
    if case['proto'] == 'ACDC' and v.major > 1 and not case['compact']:
        for l in 'aer':
            if isinstance(sad.get(l), dict):
                said(sad[l], case['kind'])
    saids = {l: case['code'] for l in tab(case)['saids'] if l == 'd' or sad.get(l) == ''}
    return cls, cls(sad=sad, makify=True, proto=case['proto'], pvrsn=v, gvrsn=v if v.major > 1 else None, kind=case['kind'], ilk=case['ilk'], saids=saids,
                    **({'compactify': True} if case['compact'] and case['proto'] == 'ACDC' and v.major > 1 else {}))


def resaid(case, sad, labels):
    """sad with its digest fields and size recomputed; only for messages whose digest covers the plain serialization"""
    from keri.core.coring import Diger
    sad = dict(sad)
    codes = {}
    for l in labels:
        if l in sad:
            codes[l] = case['code']
            sad[l] = '#' * len(Diger(ser=b'x', code=case['code']).qb64)
    major = case['pvrsn'][0]
    if 'v' in sad:
        n = 17 if major == 1 else 19
        sad['v'] = '#' * n
        n = len(dump(sad, case['kind']))
        from .c08 import b64
        sad['v'] = '%s10%s%06x_' % (case['proto'], case['kind'], n) if major == 1 else f'{case["proto"]}CAACAA{case["kind"]}{b64(n, 4)}.'
    raw = dump(sad, case['kind'])
    for l in codes:
        sad[l] = Diger(ser=raw, code=codes[l]).qb64
    return sad


def check(case):
    from keri.core.coring import Diger
    import random
    t = tab(case)
    cls, m = make(case)
    raw, sad, kind = m.raw, m.sad, case['kind']
    what = f'{case["proto"]} {case["pvrsn"]} {case["ilk"]} {kind}'
    got = [l for l in sad]
    want = [l for l in t['alls'] if l in sad]
    if got != want or any(l not in sad for l in t['alls'] if l not in t['opts']):
        return f'{what}: fields made are {got}'
    for l, v in case['sad'].items():
        if l in ('v',) or l in t['saids'] or (case['proto'] == 'ACDC' and l in 'aer'):
            continue
        if sad[l] != v:
            return f'{what}: field {l} made from {v!r} is {sad[l]!r}'
    v = meaning(sad['v'])
    if not v or v != (case['proto'], case['pvrsn'], kind, len(raw), case['pvrsn'] if case['pvrsn'][0] > 1 else None) or m.size != len(raw):
        return f'{what}: version string {sad["v"]} and size {m.size} of a message of {len(raw)} bytes'
    plain = kind != 'CESR' and not (case['proto'] == 'ACDC' and case['pvrsn'][0] > 1)
    if kind != 'CESR' and dump(sad, kind) != raw:
        return f'{what}: raw is {raw!r}, the fields serialize to {dump(sad, kind)!r}'
    if t['saids']:
        if m.said != sad[t['saids'][0]]:
            return f'{what}: said is {m.said}'
        if plain:
            live = [l for l in t['saids'] if case['sad'][l] == '']
            if resaid(case, sad, live) != sad:
                return f'{what}: digests are {[sad[l] for l in live]}, must be {[resaid(case, sad, live)[l] for l in live]}'
    # parsing gives the same message back
    for tail in (b'', b'{"v":"KERI10JSON', b'-AAB'):
        r = bytearray(raw + tail)
        for kw in (dict(), dict(strip=True)):
            p = cls(raw=r, **kw)
            if (p.sad, p.raw, p.said, p.size, p.kind, p.proto, p.pvrsn, p.ilk) != (sad, raw, m.said, len(raw), kind, case['proto'], m.pvrsn, case['ilk']):
                return f'{what}: parses back as {p.sad} raw {p.raw!r}, made as {sad}'
        if r != tail:
            return f'{what}: stripping leaves {bytes(r)!r} of {tail!r}'
    if case['proto'] == 'ACDC' and not case['compact'] and case['pvrsn'][0] > 1:
        secs = [l for l in 'aer' if isinstance(sad.get(l), dict)]
        a = make(dict(case, compact=True))[1]
        if secs and (a.said != m.said or any(a.sad[l] != sad[l]['d'] for l in secs)):
            return f'{what}: most compact form is {a.sad}, of {sad}'
    if not m.verify():
        return f'{what}: does not verify'
    p = cls(sad=copy.deepcopy(sad), **({} if kind != 'CESR' else dict(makify=False))) if kind != 'CESR' else None
    if p and (p.raw, p.sad) != (raw, sad):
        return f'{what}: made from its fields it is {p.raw!r}, not {raw!r}'

    # another protocol's class refuses it
    from keri.core import serdering
    other = serdering.SerderACDC if case['proto'] == 'KERI' else serdering.SerderKERI
    for kw in (dict(raw=raw), dict(sad=copy.deepcopy(sad)), dict(sad=copy.deepcopy(sad), verify=False)) if kind != 'CESR' else (dict(raw=raw),):
        try:
            p = other(**kw)
        except Exception:
            continue
        if kw.get('verify', True):
            return f'{what}: is accepted by {other.__name__}'
    if kind == 'CESR' and case['proto'] == 'KERI':
        e = native(case, cls, m)
        if e:
            return f'{what}: {e}'

    # every change is refused
    def refused(r, how):
        try:
            p = cls(raw=r)
        except Exception:
            return None
        if p.raw == raw and p.sad == sad:
            return None
        return f'{what}: {how} is accepted: {bytes(r)!r} (from {raw!r})'
    if not t['saids']:
        case = dict(case, muts=[])
    for k, seed, fix in case['muts']:
        rng = random.Random(seed)
        e = None
        if k == 'byte':
            i = rng.randrange(len(raw))
            r = bytearray(raw)
            r[i] ^= 1 << rng.randrange(8)
            e = refused(bytes(r), f'a change of byte {i}')
        elif k == 'cut':
            i = rng.randrange(1, len(raw))
            e = refused(raw[:i], f'its first {i} bytes')
        elif k in ('value', 'nested') and kind != 'CESR':
            s = copy.deepcopy(sad)
            l = rng.choice([x for x in s if x not in ('v', 't') and (k == 'value' or isinstance(s[x], (dict, list)) and s[x])] or ['d'])
            s[l] = change(rng, s[l])
            if s == sad:
                continue
            e = refused(dump(s, kind), f'another value of {l}')
            if not e:
                n = dict(s)
                n['v'] = resaid(case, s, [])['v']
                e = refused(dump(n, kind), f'another value of {l} with its size corrected')
        elif k == 'inner' and kind != 'CESR' and case['proto'] == 'ACDC' and case['pvrsn'][0] > 1:
            s = copy.deepcopy(sad)
            secs = [l for l in 'aer' if isinstance(s.get(l), dict)]
            if not secs:
                continue
            o = s[rng.choice(secs)]
            for x in ('boss', 'warn'):
                if x in o and fix:
                    o = o[x]
            was = o['d']
            o['d'] = rng.choice(pool()['digs'])
            s['v'] = resaid(case, s, [])['v']
            e = refused(dump(s, kind), f'{o["d"]} as an embedded said that must be {was}')
        elif k in ('said', 'keysaid') and kind != 'CESR':
            s = copy.deepcopy(sad)
            l = rng.choice(t['saids'])
            other = rng.choice(pool()['keys'] if k == 'keysaid' else pool()['digs'])
            if case['sad'].get(l) == '' or l == 'd':
                for x in t['saids'] if fix else [l]:
                    if case['sad'].get(x) == '' or x == 'd':
                        s[x] = other
                if s != sad:
                    n = dict(s)
                    n['v'] = resaid(case, s, [])['v']
                    e = refused(dump(n, kind), f'{other} as its digest field')
        elif k in ('drop', 'extra', 'swap', 'rename') and plain and t['strict']:
            s = dict(sad)
            ls = list(s)
            if k == 'drop':
                l = rng.choice([x for x in ls if x not in t['opts']])
                s.pop(l)
            elif k == 'extra':
                i = rng.randrange(len(ls) + 1)
                n = rng.choice(['zz', 'vs', 'D', 'dd', ''])
                s = dict([(x, s[x]) for x in ls[:i]] + [(n, rng.choice(['', 'x', 1, None]))] + [(x, s[x]) for x in ls[i:]])
                l = n
            elif k == 'swap':
                i = rng.randrange(len(ls) - 1)
                ls[i], ls[i + 1] = ls[i + 1], ls[i]
                s = {x: s[x] for x in ls}
                l = ls[i]
            else:
                l = rng.choice([x for x in ls if x not in t['opts']])
                s = {(x if x != l else 'zz'): s[x] for x in ls}
            live = [x for x in t['saids'] if case['sad'][x] == '']
            s = resaid(case, s, live)
            e = refused(dump(s, kind).ljust(40, b' '), f'the message with field {l} {k}ped and its digest recomputed')
        elif k == 'size' and kind != 'CESR':
            d = rng.choice([-1, 1, 2, 16, -len(raw)])
            vs = sad['v']
            n = len(raw) + d
            from .c08 import b64
            nv = vs[:-7] + '%06x_' % n if case['pvrsn'][0] == 1 else vs[:-5] + b64(n, 4) + '.'
            e = refused(raw.replace(vs.encode(), nv.encode(), 1) + b' ' * max(0, d), f'size {n}')
        elif k == 'space' and kind == 'JSON':
            for a, b in ((b'",', b'", '), (b':', b': '), (b'{', b'{ '), (b'}', b' }')):
                e = e or refused(raw.replace(a, b, 1), 'other spacing')
                s = json.dumps(sad)
                s = s.replace(sad['v'], resaid_size(case, sad, len(s.encode())), 1).encode()
                e = e or refused(s, 'a spaced serialization')
        if e:
            return e
    return None


def native(case, cls, m):
    """a native message of fixed fields with a field too many or too few, digests and size recomputed, is refused"""
    from keri.core.coring import Matter, Diger
    from keri.core.counting import Counter
    import random
    rng = random.Random(case['muts'][0][1] if case['muts'] else 1)
    raw = m.raw
    c = Counter(qb64b=raw, version=m.gvrsn)
    body = raw[c.fullSize:]
    toks = []
    while body:
        if body[:1] == b'-':
            k = Counter(qb64b=body, version=m.gvrsn)
            n = k.fullSize + k.count * 4
        else:
            n = len(Matter(qb64b=body).qb64)
        toks.append(body[:n])
        body = body[n:]
    live = [m.sad[l].encode() for l in tab(case)['saids'] if case['sad'][l] == '']
    for _ in range(3):
        ts = list(toks)
        i = rng.randrange(2, len(ts) + 1)
        if rng.random() < .5:
            ts.insert(i, rng.choice([rng.choice(toks[2:]), b'MAAA', b'-IAA', b'-JAA', b'0J_z', rng.choice(pool()['digs']).encode()]))
            how = f'an extra primitive {ts[i]} at {i}'
        else:
            i = min(i, len(ts) - 1)
            how = f'primitive {ts.pop(i)} at {i} left out'
        b = b''.join(ts)
        head = Counter(code=c.code, count=len(b) // 4, version=m.gvrsn).qb64b
        r = head + b
        for d in set(live):
            r = r.replace(d, b'#' * len(d))
        for d in set(live):
            dg = Diger(ser=r, code=case['code']).qb64b
        for d in set(live):
            r = r.replace(b'#' * len(d), dg)
        try:
            p = cls(raw=r)
        except Exception:
            continue
        return f'{how} with digest recomputed is accepted: {r!r}'
    return None


def gen_saider(rng):
    sad = {}
    lab = rng.choice(['d', 'd', 'd', '$id', 'i'])
    ks = rng.sample(['a', 'b', 'c', 'i', 'd', 'n', 'u'], rng.randint(1, 5))
    if rng.random() < .5:
        sad['v'] = 'KERI10%s000000_' % rng.choice(KINDS[:3])
    at = rng.randrange(len(ks) + 1)
    for j, k in enumerate(ks + [None]):
        if j == at:
            sad[lab] = ''
        if k is not None and k != lab:
            sad[k] = obj(rng) if rng.random() < .4 else leaf(rng)
    return dict(sad=sad, label=lab, code=rng.choice(['E', 'E', 'H', 'I', 'F', 'G', '0D', '0E', '0F', '0G']), kind=rng.choice([None, None, 'JSON', 'MGPK', 'CBOR']),
                ignore=rng.sample([k for k in sad if k not in ('v', lab)], rng.choice([0, 0, 0, 1])) if len(sad) > 2 else [], seed=rng.getrandbits(30))


def check_saider(case):
    from keri.core.coring import Saider, Diger
    import random
    rng = random.Random(case['seed'])
    sad, lab, code, kind, ig = case['sad'], case['label'], case['code'], case['kind'], case['ignore']
    kd = kind or (sad['v'][6:10] if 'v' in sad else 'JSON')
    want = dict(sad)
    want[lab] = '#' * len(Diger(ser=b'x', code=code).qb64)
    if 'v' in want:
        want['v'] = 'KERI10%s%06x_' % (kd, len(dump(want, kd)))
    said_ = Diger(ser=dump({k: v for k, v in want.items() if k not in ig}, kd), code=code).qb64
    want[lab] = said_
    kw = dict(label=lab, kind=kind, ignore=ig or None)
    was = copy.deepcopy(sad)
    s, out = Saider.saidify(sad=sad, code=code, **kw)
    if s.qb64 != said_ or out != want or list(out) != list(want) or sad != was or s.code != code:
        return f'saidify gives {s.qb64} {out}, must be {want} (given {was}, left {sad})'
    t = Saider(sad=out, **kw)
    if t.qb64 != said_:
        return f'digest of {out} made with the code of its own is {t.qb64}'
    t = Saider(sad=sad, code=code, **kw)
    if t.qb64 != said_:
        return f'digest of {sad} is {t.qb64}, not {said_}'
    t = Saider(sad=sad, **kw)
    if t.code != 'E':
        return f'digest of a map without one has code {t.code}'
    for pf in (False, True):
        if not s.verify(out, prefixed=pf, **kw) or not s.verify(out, prefixed=pf, versioned=False, **kw):
            return f'{out} does not verify'
    if s.verify(dict(out, **{lab: pool()['digs'][0]}), prefixed=True, **kw):
        return f'another digest in field {lab} verifies'
    if 'v' in out and s.verify(dict(out, v='KERI10%s0fffff_' % kd), **kw):
        return 'another size in the version string verifies'
    for k in [k for k in out if k not in ('v', lab)]:
        o = dict(out)
        o[k] = change(rng, o[k])
        if o[k] == out[k] or dump(o, kd) == dump(out, kd):
            continue
        if s.verify(o, **kw) != (k in ig and len(dump(o, kd)) == len(dump(out, kd)) or k in ig and 'v' not in o):
            return f'{out} with field {k} changed to {o[k]!r} {"verifies" if k not in ig else "does not verify"}'
        del o[k]
        if k not in ig and s.verify(o, **kw):
            return f'{out} without field {k} verifies'
    o = dict(list(out.items())[:1] + list(out.items())[1:][::-1])
    if list(o) != list(out) and s.verify(o, **kw) and [k for k in o if k not in ig] != [k for k in out if k not in ig]:
        return f'{out} in another order verifies'
    o = dict(out, zz=1)
    if s.verify(o, **kw):
        return f'{out} with another field verifies'
    return None


def resaid_size(case, sad, n):
    from .c08 import b64
    vs = sad['v']
    return vs[:-7] + '%06x_' % n if case['pvrsn'][0] == 1 else vs[:-5] + b64(n, 4) + '.'


def change(rng, v):
    if isinstance(v, dict):
        if not v or rng.random() < .2:
            return dict(v, zz=1)
        k = rng.choice(list(v))
        if rng.random() < .2:
            return {x: v[x] for x in v if x != k}
        return dict(v, **{k: change(rng, v[k])})
    if isinstance(v, list):
        if not v or rng.random() < .3:
            return v + [rng.choice(pool()['digs'])]
        i = rng.randrange(len(v))
        return v[:i] + [change(rng, v[i])] + v[i + 1:]
    if isinstance(v, bool) or v is None:
        return 'q'
    if isinstance(v, (int, float)):
        return v + 1
    if len(v) == 44:
        return rng.choice(pool()['digs'] + pool()['keys'])
    return v + 'x' if rng.random() < .5 or not v else v[:-1] + ('y' if v[-1] != 'y' else 'z')


def units():
    return []


GROUPS = [Group('messages', gen, check, 1200, FN, 'messages of every type of both protocols, versions and kinds (schema, aggregate and lone section messages left out) with 6 mutations each'),
          Group('saiders', gen_saider, check_saider, 1500, ['src/keri/core/coring.py:Saider.' + x for x in ('__init__', 'saidify', '_derive', 'derive', 'verify', '_serialize')],
                'maps of up to 7 fields in three serializations and nine digests')]
RULE = 'random messages and mutations; distinct cases counted by value'
ASSUMPTIONS = COMMON_ASSUMPTIONS + ['the field tables of contracts/data/fields.json are the specification of the fields of each type', 'digests of different serializations differ']
