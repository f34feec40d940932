"""C12: stream extraction takes exactly one message and its own attachments."""
import base64
import random
import signal
from .base import *
from . import kel

P = 'src/keri/core/parsing.py:'
FN = [P + 'Parser.' + x for x in ('parse', 'allParsator', 'parsator', 'groupParsator', 'msgParsator', 'msgProcess', '_extractor', 'extract',
      '_ControllerIdxSigs1', '_ControllerIdxSigs2', '_WitnessIdxSigs1', '_WitnessIdxSigs2', '_NonTransReceiptCouples1', '_NonTransReceiptCouples2',
      '_TransReceiptIdxSigGroups1', '_TransReceiptIdxSigGroups2', '_TransIdxSigGroups1', '_TransIdxSigGroups2', '_TransLastIdxSigGroups1',
      '_TransLastIdxSigGroups2', '_FirstSeenReplayCouples1', '_FirstSeenReplayCouples2', '_SealSourceCouples1', '_SealSourceCouples2',
      '_SealSourceTriples1', '_SealSourceTriples2')] + ['src/keri/kering.py:sniff', 'src/keri/core/serdering.py:Serdery.reap', 'src/keri/core/serdering.py:Serder._inhale']
FIELDS = ('sigers', 'wigers', 'cigars', 'rsgs', 'tsgs', 'lsgs', 'frcs', 'sscs', 'ssts')
# counter codes, hard and soft sizes of the two code tables
CODES = {1: dict(sigers='-A', wigers='-B', cigars='-C', tsgs='-F', lsgs='-H', frcs='-E', sscs='-G', ssts='-I', rsgs='-D', att='-V'),
         2: dict(sigers='-K', wigers='-L', cigars='-M', rsgs='-N', tsgs='-X', lsgs='-Y', frcs='-O', sscs='-S', ssts='-T', att='-C', body='-B', gen='-A')}
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def n64(n, l):
    return ''.join(B64[(n >> 6 * i) & 63] for i in reversed(range(l)))


def counter(code, n):
    return code + n64(n, 2) if n < 4096 else '-' + code + n64(n, 5)


def check_codes():
    from keri.core.counting import Counter
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    names = dict(sigers='ControllerIdxSigs', wigers='WitnessIdxSigs', cigars='NonTransReceiptCouples', rsgs='TransReceiptIdxSigGroups', tsgs='TransIdxSigGroups',
                 lsgs='TransLastIdxSigGroups', frcs='FirstSeenReplayCouples', sscs='SealSourceCouples', ssts='SealSourceTriples', att='AttachmentGroup',
                 body='BodyWithAttachmentGroup', gen='GenericGroup')
    return {v: {k: Counter(names[k], count=1, version=w).code for k in CODES[v]} for v, w in ((1, Vrsn_1_0), (2, Vrsn_2_0))}


def b64(x):
    return base64.urlsafe_b64encode(x).decode().rstrip('=')


def prim(code, raw):
    ps = (3 - len(raw) % 3) % 3
    return code + b64(b'\0' * ps + raw)[ps if ps else 0:] if len(code) % 4 == ps else None


def p_sig(rng, i):
    return 'A' + B64[i] + b64(b'\0\0' + rng.randbytes(64))[2:]


def p_cig(rng):
    return '0B' + b64(b'\0\0' + rng.randbytes(64))[2:]


def p_key(rng, c='B'):
    return c + b64(b'\0' + kel.pub(rng.randrange(8)))[1:]


def p_dig(rng):
    return 'E' + b64(b'\0' + rng.randbytes(32))[1:]


def p_num(rng):
    return '0A' + b64(b'\0\0' + rng.randrange(1 << 40).to_bytes(16, 'big'))[2:]


def p_date(rng):
    return '1AAG' + '20%02d-08-22T17c50c09d%06dp00c00' % (rng.randint(10, 40), rng.randrange(10 ** 6))


def group(rng, kind, v, n):
    """(text, expected items) of an attachment group of n elements"""
    C = CODES[v]

    def sigs(m):
        ss = [p_sig(rng, rng.randrange(8)) for _ in range(m)]
        return counter(C['sigers'], m if v == 1 else sum(map(len, ss)) // 4) + ''.join(ss), ss
    items, out = [], ''
    for _ in range(n):
        if kind in ('sigers', 'wigers'):
            x = p_sig(rng, rng.randrange(8))
            items.append(x)
            out += x
        elif kind == 'cigars':
            x = (p_key(rng), p_cig(rng))
            items.append(x)
            out += x[0] + x[1]
        elif kind in ('rsgs', 'tsgs', 'lsgs'):
            t, ss = sigs(rng.randint(1, 3))
            x = (p_key(rng, 'D'),) + ((p_num(rng), p_dig(rng)) if kind != 'lsgs' else ())
            items.append(x + (ss,))
            out += ''.join(x) + t
        elif kind == 'frcs':
            x = (p_num(rng), p_date(rng))
            items.append(x)
            out += ''.join(x)
        else:
            x = ((p_key(rng, 'D'),) if kind == 'ssts' else ()) + (p_num(rng), p_dig(rng))
            items.append(x)
            out += ''.join(x)
    return counter(C[kind], n if v == 1 and kind != 'rsgs' else len(out) // 4) + out, items


def message(rng, v, kind):
    """(raw text or bytes, kind of message)"""
    k, n = rng.randrange(8), rng.randrange(8)
    t = rng.choice(['ixn', 'ixn', 'icp', 'rct', 'rot'])
    if v == 2 and kind != 'v1':
        from keri.core import serdering
        from keri.kering import Vrsn_2_0
        s = '%x' % rng.randrange(1, 99)
        sad = {'ixn': dict(v='', t='ixn', d='', i=p_key(rng, 'D'), s=s, p=p_dig(rng), a=[]),
               'icp': dict(v='', t='icp', d='', i='', s='0', kt='1', k=[kel.key(k)], nt='1', n=[kel.dig(kel.key(n))], bt='0', b=[], c=[], a=[]),
               'rot': dict(v='', t='rot', d='', i=p_key(rng, 'D'), s=s, p=p_dig(rng), kt='1', k=[kel.key(k)], nt='1', n=[kel.dig(kel.key(n))], bt='0', br=[], ba=[], c=[], a=[]),
               'rct': dict(v='', t='rct', d=p_dig(rng), i=p_key(rng, 'D'), s=s)}[t]
        m = serdering.SerderKERI(sad=sad, makify=True, pvrsn=Vrsn_2_0, gvrsn=Vrsn_2_0, kind=kind, ilk=t, saids={'i': 'E', 'd': 'E'} if t == 'icp' else None)
        return m.raw, t
    s = '%x' % rng.randrange(1, 99)
    if t == 'ixn':
        return kel.saidify(dict(v='', t='ixn', d='', i=p_key(rng, 'D'), s=s, p=p_dig(rng), a=[dict(x='y' * rng.randrange(60))]))[1], t
    if t == 'icp':
        return kel.saidify(dict(v='', t='icp', d='', i='', s='0', kt='1', k=[kel.key(k)], nt='1', n=[kel.dig(kel.key(n))], bt='0', b=[], c=[], a=[]), ('d', 'i'))[1], t
    if t == 'rot':
        return kel.saidify(dict(v='', t='rot', d='', i=p_key(rng, 'D'), s=s, p=p_dig(rng), kt='1', k=[kel.key(k)], nt='1', n=[kel.dig(kel.key(n))], bt='0', br=[], ba=[], a=[]))[1], t
    sad = dict(v='', t='rct', d=p_dig(rng), i=p_key(rng, 'D'), s=s)
    sad['v'] = 'KERI10JSON%06x_' % (len(kel.ser(sad)) + 17)
    return kel.ser(sad), t


def bin_(text):
    return base64.urlsafe_b64decode(text)


BAD = ('char', 'count+', 'count-', 'code', 'cut', 'wrongprim')


def spoil(rng, text, v, how):
    """attachments text made malformed, same length"""
    if how == 'char':
        i = rng.randrange(len(text))
        return text[:i] + rng.choice('!*= ') + text[i + 1:]
    if how in ('count+', 'count-'):
        n = (B64.index(text[2]) << 6) + B64.index(text[3])
        n += 1 if how == 'count+' else -1
        return text[:2] + n64(max(0, n), 2) + text[4:]
    if how == 'code':
        return text[:1] + rng.choice('89') + text[2:]
    if how == 'cut':
        return text[:-4]
    return text[:4] + '9' + text[5:]


def gen(rng, bad=False):
    v = rng.choice([1, 2])
    msgs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        kind = 'v1' if v == 1 else rng.choice(['v1', 'JSON', 'CBOR', 'MGPK', 'CESR', 'CESR'])
        raw, t = message(rng, v, kind)
        kinds = [rng.choice(FIELDS) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        kinds.append({'rct': rng.choice(['cigars', 'rsgs', 'wigers'])}.get(t, 'sigers'))
        rng.shuffle(kinds)
        atc, want = [], {f: [] for f in FIELDS}
        for k in kinds:
            x, items = group(rng, k, v, rng.randint(1, 3))
            atc.append(x)
            want[k] += items
        wraps = ['att', 'att'] + (['body', 'gen', 'bodyatt', 'gen2'] if v == 2 and (kind != 'v1') else [])
        wrap = rng.choice(wraps)
        if kind in ('v1', 'JSON', 'CBOR', 'MGPK') and wrap in ('body', 'bodyatt'):
            wrap = 'att'
        msgs.append(dict(raw=bytes(raw), kind=kind, t=t, atc=atc, want=want, wrap=wrap, bny=rng.random() < .35))
    if v == 2 and rng.random() < .4:
        for m in msgs:
            m['wrap'] = 'att'
    case = dict(v=v, msgs=msgs, cuts=rng.getrandbits(30), bare=rng.random() < .4)
    if bad:
        case['bare'] = False
        i = rng.randrange(len(msgs))
        case['bad'] = i
        m = msgs[i]
        if m['wrap'] in ('gen', 'gen2'):
            m['wrap'] = 'att'
        m['bny'] = False
        hows = list(BAD) + (['said', 'said', 'body'] if m['wrap'] in ('body', 'bodyatt') else [])
        case['how'] = rng.choice([h for h in hows if h != 'said' or m['t'] != 'rct'])
        case['seed'] = rng.getrandbits(30)
    return case


def wire(case, bare=False):
    """bytes of the stream and of each of its messages"""
    v = case['v']
    C = CODES[v]
    out = []
    for i, m in enumerate(case['msgs']):
        atc = list(m['atc'])
        raw = m['raw']
        if case.get('bad') == i:
            rng = random.Random(case['seed'])
            if case['how'] == 'said':
                j = rng.randrange(60, len(raw) - 4)
                raw = raw[:j] + bytes([ord('A') if raw[j] != ord('A') else ord('B')]) + raw[j + 1:]
            elif case['how'] == 'body':
                raw = raw[:20] + b'!' + raw[21:]
            else:
                j = rng.randrange(len(atc))
                atc[j] = spoil(rng, atc[j], v, case['how'])
        a = ''.join(atc)
        if bare:
            s = raw + b''.join(bin_(x) if m['bny'] and k % 2 else x.encode() for k, x in enumerate(atc))
        elif m['wrap'] == 'att' or case['v'] == 1:
            g = counter(C['att'], len(a) // 4) + a
            s = raw + (bin_(g) if m['bny'] else g.encode())
        else:
            g = counter(C['att'], len(a) // 4) + a if m['wrap'] != 'body' else a
            if m['kind'] != 'CESR':
                s = raw + g.encode()
                if m['wrap'] in ('gen', 'gen2'):
                    # the whole as a generic group needs the body as a text primitive: only native bodies
                    out.append(s)
                    continue
            else:
                s = raw.decode() + g
                if m['wrap'] == 'body' or m['wrap'] == 'bodyatt':
                    s = counter(C['body'], len(s) // 4) + s
                elif m['wrap'] == 'gen':
                    s = counter(C['gen'], len(s) // 4) + s
                else:
                    s = counter(C['gen'], (len(s) + 4) // 4 if len(s) // 4 < 4096 else len(s) // 4 + 2) + counter(C['gen'], len(s) // 4) + s
                s = bin_(s) if m['bny'] else s.encode()
        out.append(s)
    return out


def flat(o):
    if isinstance(o, (list, tuple)):
        return [flat(x) for x in o]
    return o.qb64


class Rec:
    """stands in for the processors and records what is handed to each"""

    def __init__(self):
        self.got = []

    def event(self, serder, **k):
        g = {f: k.get(f) for f in FIELDS}
        d = {f: [flat(x) for x in (g[f] or [])] for f in FIELDS if f != 'cigars'}
        d['cigars'] = [[c.verfer.qb64, c.qb64] for c in (g['cigars'] or [])]
        return serder, d, k

    def processEvent(self, serder, **k):
        s, d, k = self.event(serder, **k)
        f, a = k.get('firner'), k.get('dater')
        last = [x.qb64 if x is not None else None for x in (f, a)]
        ds, dg = k.get('delsner'), k.get('delsger')
        self.got.append(['event', bytes(s.raw), d, last, [ds.sn if ds is not None else None, dg.qb64 if dg is not None else None]])

    def processAttachedReceiptCouples(self, serder, **k):
        self.got.append(['couples', bytes(serder.raw), self.event(serder, **k)[1]['cigars']])

    def processAttachedReceiptSigGroups(self, serder, **k):
        self.got.append(['groups', bytes(serder.raw), self.event(serder, **k)[1]['rsgs']])

    def processReceipt(self, serder, **k):
        s, d, k = self.event(serder, **k)
        self.got.append(['receipt', bytes(s.raw), d])


def lst(o):
    return [lst(x) for x in o] if isinstance(o, (list, tuple)) else o


def num(q):
    return int.from_bytes(base64.urlsafe_b64decode('AA' + q[2:])[2:], 'big') if q else None


def expect(m):
    w = {f: lst(m['want'][f]) for f in FIELDS}
    if m['t'] == 'rct':
        return [['receipt', m['raw'], w]]
    f = w['frcs'][-1] if w['frcs'] else [None, None]
    s = w['sscs'][-1] if w['sscs'] else [None, None]
    out = [['event', m['raw'], w, f, [num(s[0]), s[1]]]]
    if w['cigars']:
        out.append(['couples', m['raw'], w['cigars']])
    if w['rsgs']:
        out.append(['groups', m['raw'], w['rsgs']])
    return out


class Timeout(BaseException):
    pass


def timed(f, secs=10):
    def h(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def parser(case, rec, framed):
    from keri.core.parsing import Parser
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    return Parser(framed=framed, kvy=rec, version=Vrsn_1_0 if case['v'] == 1 else Vrsn_2_0)


def whole(case, data, framed=True):
    rec = Rec()
    ims = bytearray(data)
    p = parser(case, rec, framed)

    def run():
        p.parse(ims=ims)
    timed(run)
    return rec.got, bytes(ims)


def chunked(case, data, cuts):
    rec = Rec()
    ims = bytearray()
    p = parser(case, rec, False)
    g = p.parsator(ims=ims)
    pos = 0

    def spin():
        for _ in range(40):
            try:
                next(g)
            except StopIteration:
                return
    def run():
        pos = 0
        for c in cuts + [len(data)]:
            ims.extend(data[pos:c])
            pos = c
            spin()
        for _ in range(20):
            spin()
    timed(run, 20)
    return rec.got, bytes(ims)


def show(got):
    return [(x[0], x[1][:40], {k: len(v) for k, v in x[2].items() if v} if isinstance(x[2], dict) else len(x[2])) for x in got]


def diff(got, want, what):
    if got == want:
        return None
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f'{what}: handed over {a!r:.700} must be {b!r:.700}'
    return f'{what}: handed over {show(got)}, must be {show(want)}'


def check(case):
    want = [x for m in case['msgs'] for x in expect(m)]
    parts = wire(case)
    data = b''.join(parts)
    got, left = whole(case, data)
    e = diff(got, want, 'at once')
    if e:
        return e
    if left:
        return f'parsed at once, {left!r} is left'
    if case['bare']:
        d = b''.join(wire(case, True)) if case['v'] == 1 or all(m['kind'] != 'CESR' for m in case['msgs']) else wire(case, True)[0]
        w = want if case['v'] == 1 or all(m['kind'] != 'CESR' for m in case['msgs']) else expect(case['msgs'][0])
        got, left = whole(case, d)
        e = diff(got, w, 'attachments without a group')
        if e or left:
            return e or f'attachments without a group: {left!r} is left'
    rng = random.Random(case['cuts'])
    n = len(data)
    plans = [sorted(rng.sample(range(1, n), min(n - 1, rng.randint(1, 6)))) for _ in range(2)]
    ends = [sum(len(p) for p in parts[:i]) for i in range(1, len(parts))]
    plans.append(ends)
    plans.append(sorted(set(max(1, min(n - 1, e + rng.randint(-6, 6))) for e in ends + [rng.randrange(n)])))
    if rng.random() < .12:
        plans.append(list(range(1, n)))
    for cuts in plans:
        got, left = chunked(case, data, cuts)
        e = diff(got, want, f'in chunks cut at {cuts if len(cuts) < 20 else "every byte"}')
        if e or left:
            return e or f'in chunks cut at {cuts[:20]}: {left!r} is left'
    return None


def gen_bad(rng):
    return gen(rng, True)


def check_bad(case):
    """nothing of the malformed message is handed over, every other one is"""
    want = [x for i, m in enumerate(case['msgs']) if i != case['bad'] for x in expect(m)]
    parts = wire(case)
    good = wire({k: v for k, v in case.items() if k != 'bad'})
    if parts[case['bad']] == good[case['bad']]:
        raise Skip()
    data = b''.join(parts)
    what = f'with message {case["bad"]} of {len(parts)} malformed ({case["how"]}, {case["msgs"][case["bad"]]["wrap"]})'
    try:
        got, left = whole(case, data)
    except Timeout:
        return f'{what}: the parser does not return'
    e = diff(got, want, what)
    if e or left:
        return e or f'{what}: {left!r} is left'
    rng = random.Random(case['cuts'])
    n = len(data)
    cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.randint(1, 4))))
    got, left = chunked(case, data, cuts)
    e = diff(got, want, f'{what}, in chunks cut at {cuts}')
    if e or left:
        return e or f'{what}, in chunks: {left!r} is left'
    # the same cut short
    if case['bad'] == len(parts) - 1 or True:
        k = rng.randrange(len(parts))
        good = good[:k + 1]
        cut = rng.randint(1, len(good[-1]) - 1)
        w = [x for m in case['msgs'][:k] for x in expect(m)]
        try:
            got, left = whole(case, b''.join(good)[:-cut])
        except Timeout:
            return f'cut short by {cut}: the parser does not return'
        e = diff(got, w, f'message {k} cut short by {cut} of {len(good[-1])}')
        if e:
            return e
    return None


def gen_junk(rng):
    c = gen(rng)
    data = b''.join(wire(c))
    d = bytearray(data)
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        i = rng.randrange(len(d))
        if r < .4:
            d[i] = rng.randrange(256)
        elif r < .6:
            del d[i:i + rng.randint(1, 8)]
        elif r < .8:
            d[i:i] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 5)))
        else:
            j = rng.randrange(len(d))
            d[i:i] = d[j:j + rng.randint(1, 120)]
    return dict(v=c['v'], msgs=c['msgs'], data=bytes(d))


def check_junk(case):
    """parsing ends without an exception, and whatever is handed over is one of the messages in the stream, whole"""
    try:
        got, left = whole(case, case['data'])
    except Timeout:
        return 'the parser does not return'
    raws = [m['raw'] for m in case['msgs']]
    for g in got:
        if g[0] != 'receipt' and g[1] not in raws:  # a receipt is not self addressing
            return f'message {g[1]!r} handed over is none of those in the stream'
    if left:
        return f'{left!r} is left unconsumed'
    return None


def gen_nest(rng):
    d = rng.randint(1, 4)
    labels = [rng.choice(['x', 'x.y', '.', '', 'd.d', 'a b', 'z']) for _ in range(d)]
    return dict(labels=labels, kind=rng.choice(['JSON', 'CBOR', 'MGPK']), sec=rng.choice('aer'), top=rng.random() < .7)


def check_nest(case):
    """a message with any nesting is accepted or refused in finite time"""
    from keri.core import serdering
    from keri.kering import Versionage
    o = dict(d='', n='1')
    for l in case['labels']:
        o = {**(dict(d='') if case['top'] else {}), l: o, 'k': 'v'}
    v = Versionage(2, 0)
    sad = dict(v='', d='', i=kel.key(1), rd=kel.dig(b'r'), s=kel.dig(b's'))
    sad[case['sec']] = o

    def run():
        try:
            serdering.SerderACDC(sad=sad, makify=True, pvrsn=v, gvrsn=v, kind=case['kind'])
        except Timeout:
            raise
        except Exception:
            pass
    try:
        timed(run, 5)
    except Timeout:
        return f'a message with nested blocks at {case["labels"]} is never accepted nor refused'
    return None


def units():
    return []


GROUPS = [
    Group('streams', gen, check, 700, FN, 'streams of 1 to 4 key event messages of both versions with up to 4 attachment groups each, whole and in 4 or 5 chunkings (sometimes every byte)', chunks=4),
    Group('malformed', gen_bad, check_bad, 900, FN, 'the same with one message or its attachments malformed inside a sized group, or the stream cut short', chunks=4),
    Group('junk', gen_junk, check_junk, 1500, FN, 'the same with 1 to 4 random byte edits', chunks=4),
    Group('nesting', gen_nest, check_nest, 200, ['src/keri/core/mapping.py:Compactor.compact', 'src/keri/core/serdering.py:SerderACDC'], 'ACDC sections nested up to 4 deep'),
]
RULE = 'random streams; distinct cases counted by value'
ASSUMPTIONS = COMMON_ASSUMPTIONS + ['unframed streams enclose the attachments of each message in an attachment, message or generic group (as the parser documents); '
                                    'bare attachment counters are taken in one frame', 'a malformed message outside any sized group empties the stream buffer (cold restart), by design']
