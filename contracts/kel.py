"""A small independent reference of key event acceptance, and generators of key event histories.

Nothing here calls the code under test except `World`, which runs events through the real Kevery."""
import base64
import json
from fractions import Fraction
from .base import *

_C = {}


def b64(x):
    return base64.urlsafe_b64encode(x).decode().rstrip('=')


def seed(i):
    return (b'verif-seed-%d' % i).ljust(32, b'.')[:32]


def pub(i):
    if ('p', i) not in _C:
        import pysodium
        _C['p', i] = pysodium.crypto_sign_seed_keypair(seed(i))
    return _C['p', i][0]


def sk(i):
    pub(i)
    return _C['p', i][1]


def key(i, trans=True):
    """qb64 of Ed25519 verification key i (D transferable, B not)"""
    return ('D' if trans else 'B') + b64(b'\0' + pub(i))[1:]


def dig(data):
    if isinstance(data, str):
        data = data.encode()
    k = ('d', data)
    if k not in _C:
        import blake3
        if len(_C) > 200000:
            _C.clear()
        _C[k] = 'E' + b64(b'\0' + blake3.blake3(data).digest())[1:]
    return _C[k]


def sign(i, raw):
    import pysodium
    return pysodium.crypto_sign_detached(raw, sk(i))


def ser(sad):
    return json.dumps(sad, separators=(',', ':'), ensure_ascii=False).encode()


def saidify(sad, labels=('d',), proto='KERI'):
    """size and SAID filled in, independently of the serder classes (version 1 JSON)"""
    sad = dict(sad)
    for l in labels:
        sad[l] = '#' * 44
    sad['v'] = f'{proto}10JSON000000_'
    sad['v'] = f'{proto}10JSON%06x_' % len(ser(sad))
    d = dig(ser(sad))
    for l in labels:
        sad[l] = d
    return sad, ser(sad)


# ------------------------------------------------------------ thresholds
def wt(s):
    return Fraction(s)


def tsize(t):
    if isinstance(t, str):
        return int(t, 16)
    if not t:
        return 0
    cl = t if isinstance(t[0], list) else [t]
    return sum(len(list(e.values())[0]) if isinstance(e, dict) else 1 for c in cl for e in c)


def tsat(t, idx):
    """does the set of positions idx satisfy threshold t"""
    idx = set(idx)
    if isinstance(t, str):
        n = int(t, 16)
        return n > 0 and len(idx) >= n
    cl = t if isinstance(t[0], list) else [t]
    k = 0
    for c in cl:
        tot = Fraction(0)
        for e in c:
            if isinstance(e, dict):
                (top, ws), = e.items()
                s = Fraction(0)
                for w in ws:
                    if k in idx:
                        s += wt(w)
                    k += 1
                if s >= 1:
                    tot += wt(top)
            else:
                if k in idx:
                    tot += wt(e)
                k += 1
        if tot < 1:
            return False
    return True


def gen_thold(rng, n, loose=True):
    """a well formed threshold over n positions (or fewer)"""
    k = rng.random()
    if n == 0:
        return '0'
    if k < .55 or n == 1 and k < .9:
        return '%x' % rng.randint(1, n)
    if loose and rng.random() < .15 and n > 1:
        n -= 1                     # the last key carries no weight
    for _ in range(30):
        if k < .8:
            w = [rng.choice(['1/2', '1/3', '1', '2/3', '1/4', '0'] if n > 1 else ['1']) for _ in range(n)]
            if sum(map(wt, w)) >= 1:
                return w
        elif k < .92:
            c = rng.randint(1, n)
            cl = [['1/2'] * c if c > 1 else ['1'], ['1/2'] * (n - c) if n - c > 1 else ['1'] * (n - c)]
            cl = [x for x in cl if x]
            return cl
        else:
            if n < 2:
                return ['1']
            j = rng.randint(1, n - 1)
            inner = ['1/2'] * j if j > 1 else ['1']
            rest = ['1/2'] * (n - j) if n - j > 1 else ['1/2']
            return [{'1/2': inner}] + rest
    return '%x' % n


# ------------------------------------------------------------ reference key state
class Commit:
    def __init__(self, ndigs, nt, wits):
        self.ndigs, self.nt, self.wits = list(ndigs), nt, list(wits)


class State:
    """reference key state of one identifier"""

    def __init__(self):
        self.log = {}       # sn -> said (current chain)
        self.fel = []       # first seen order of saids
        self.raws = {}
        self.sigs = {}      # said -> set of (position) verified and stored
        self.wigs = {}

    def snap(self):
        return dict(sn=self.sn, said=self.said, ilk=self.ilk, keys=list(self.keys), kt=self.kt, ndigs=list(self.ndigs), nt=self.nt,
                    wits=list(self.wits), toad=self.toad, est=tuple(self.est), estOnly=self.estOnly, dnd=self.dnd, log=dict(self.log), fel=list(self.fel))


def verified(sigs, keys, raw):
    """positions whose key signed; sigs are (code, index, ondex, signer, good)"""
    out = []
    for code, i, o, s, good in sigs:
        if i < len(keys) and good is True and keys[i][1:] == key(s)[1:]:
            out.append((i, o))
    return out


def wit_ok(wits, toad):
    return (1 <= toad <= len(wits)) if wits else toad == 0


def expose(ver, keys, ndigs):
    """set of committed positions whose key is exposed by a verified signature"""
    s = set()
    for i, o in ver:
        if o is not None and o < len(ndigs) and dig(keys[i]) == ndigs[o]:
            s.add(o)
    return s


def judge_icp(sad, raw, sigs, wigs):
    """'accept' | 'sigs' | 'wigs' | 'invalid' for a (non delegated) inception by an outside validator"""
    keys = sad['k']
    if int(sad['s'], 16) != 0:
        return 'invalid'
    if tsize(sad['kt']) > len(keys):
        return 'invalid'
    trans = sad['i'][0] != 'B'
    if not trans and (sad['n'] or sad['b'] or sad['a']):
        return 'invalid'
    if len(set(sad['b'])) != len(sad['b']) or not wit_ok(sad['b'], int(sad['bt'], 16)):
        return 'invalid'
    ver = verified(sigs, keys, raw)
    if not ver:
        return 'invalid'
    if not tsat(sad['kt'], [i for i, _ in ver]):
        return 'sigs'
    if sad['b'] and len({i for i, _ in verified(wigs, sad['b'], raw)}) < int(sad['bt'], 16):
        return 'wigs'
    return 'accept'


def new_wits(st, sad):
    cuts, adds = sad['br'], sad['ba']
    if len(set(cuts)) != len(cuts) or len(set(adds)) != len(adds) or set(cuts) & set(adds):
        return None
    if not set(cuts) <= set(st.wits) or set(adds) & set(st.wits):
        return None
    return [w for w in st.wits if w not in cuts] + list(adds)


def judge(st, sad, raw, sigs, wigs):
    """verdict for rot / ixn against state st"""
    sn = int(sad['s'], 16)
    if sn > st.sn + 1:
        return 'order'
    if sad['t'] == 'ixn':
        if sn <= st.sn:
            return 'dup' if st.log.get(sn) == sad['d'] else 'duplicitous'
        if not st.ndigs or st.pre[0] == 'B' or st.estOnly or sad['p'] != st.said:
            return 'invalid'
        keys, kt, wits, toad = st.keys, st.kt, st.wits, st.toad
    else:
        drt = sad['t'] == 'drt'
        if drt != st.delegated:
            return 'dup' if st.log.get(sn) == sad['d'] else 'invalid'
        if sn < st.est[0] or sn == st.est[0] and (not drt or sn == 0 or st.log.get(sn) == sad['d']):
            return 'dup' if st.log.get(sn) == sad['d'] else 'duplicitous'
        if sn <= st.sn and st.ilk != 'ixn' and not drt:
            return 'invalid'
        com = st if sn > st.est[0] else st.prior
        if sad['p'] != st.log[sn - 1]:
            return 'invalid'
        if not st.ndigs or st.pre[0] == 'B':
            return 'invalid'
        keys, kt, toad = sad['k'], sad['kt'], int(sad['bt'], 16)
        if tsize(kt) > len(keys):
            return 'invalid'
        wits = new_wits(com, sad)
        if wits is None or not wit_ok(wits, toad):
            return 'invalid'
    ver = verified(sigs, keys, raw)
    if not ver:
        return 'invalid'
    if not tsat(kt, [i for i, _ in ver]):
        return 'sigs'
    if sad['t'] != 'ixn' and not tsat(com.nt, expose(ver, keys, com.ndigs)):
        return 'sigs'
    if wits and len({i for i, _ in verified(wigs, wits, raw)}) < toad:
        return 'wigs'
    return 'accept'


def apply(st, sad, raw):
    sn = int(sad['s'], 16)
    if sn:
        prior = Commit(st.ndigs, st.nt, st.wits)
    if sad['t'] in ('icp', 'dip'):
        st.pre = sad['i']
        st.wits = list(sad['b'])
        st.delegated, st.di = sad['t'] == 'dip', sad.get('di')
        st.estOnly, st.dnd = 'EO' in sad['c'], 'DND' in sad['c']
    elif sad['t'] in ('rot', 'drt'):
        st.wits = new_wits(st if sn > st.est[0] else st.prior, sad)
    if sad['t'] != 'ixn':
        if sn > 0 and sn > st.est[0]:
            st.prior = prior
        st.keys, st.kt, st.ndigs, st.nt = list(sad['k']), sad['kt'], list(sad['n']), sad['nt']
        st.toad = int(sad['bt'], 16)
        st.est = (sn, sad['d'])
    st.sn, st.said, st.ilk = sn, sad['d'], sad['t']
    for k in [k for k in st.log if k > sn]:
        del st.log[k]
    st.log[sn] = sad['d']
    st.fel.append(sad['d'])
    st.raws[sad['d']] = raw


# ------------------------------------------------------------ real side
def siger(code, i, o, s, good, raw, keys=None):
    from keri.core import indexing
    sig = sign(s, raw if good else raw + b' ')
    if good == 'flip':
        sig = sig[:-1] + bytes([sig[-1] ^ 1])
    kw = dict(raw=sig, code=code, index=i)
    if code in ('2A',):
        kw['ondex'] = o
    return indexing.Siger(**kw)


def mksigs(rng, keys, signers, raw):
    return [siger(*s[:4], s[4], raw) for s in keys]


class World:
    def __init__(self, **kw):
        from keri.db import basing
        from keri.core import eventing
        self.db = basing.Baser(name='v', temp=True, reopen=True)
        self.kvy = eventing.Kevery(db=self.db, lax=True, local=False, **kw)

    def close(self):
        self.db.close(clear=True)

    def serder(self, raw):
        from keri.core import serdering
        return serdering.SerderKERI(raw=raw)

    def process(self, raw, sigs, wigs, **kw):
        """None when accepted without complaint, else the exception"""
        from keri import kering
        try:
            serder = self.serder(raw)
        except kering.ValidationError as e:
            return e
        sg = [siger(*s, raw) for s in sigs]
        wg = [siger(*s, raw) for s in wigs]
        try:
            self.kvy.processEvent(serder=serder, sigers=sg, wigers=wg, **kw)
        except Exception as e:
            if not isinstance(e, (kering.ValidationError, ValueError)):
                raise Bad(f'unexpected {type(e).__name__}: {e}')
            return e
        return None

    def restart(self):
        """forget the cached key states: they are read back from the store"""
        self.kvy.kevers.clear()
        if dict.__len__(self.kvy.kevers):
            raise Bad('key states not cleared')

    def snap(self, pre):
        k = self.kvy.kevers.get(pre) if pre in self.kvy.kevers else None
        if k is None:
            return None
        log = {}
        for sn in range(k.sner.num + 1):
            v = self.db.kels.getLast(keys=pre, on=sn)
            log[sn] = v
        fel = [v for (_, _, v) in self.db.fels.getAllItemIter(keys=pre)] if hasattr(self.db.fels, 'getAllItemIter') else None
        kt, nt = k.tholder.sith, k.ntholder.sith
        return dict(sn=k.sner.num, said=k.serder.said, ilk=k.ilk, keys=[v.qb64 for v in k.verfers], kt=kt, ndigs=[d.qb64 for d in k.ndigers], nt=nt,
                    wits=list(k.wits), toad=k.toader.num, est=(k.lastEst.s, k.lastEst.d), estOnly=k.estOnly, dnd=k.doNotDelegate, log=log, fel=fel)


def norm(t):
    """comparable form of a threshold"""
    if isinstance(t, str):
        return ('n', int(t, 16))
    cl = t if isinstance(t[0], list) else [t]
    f = lambda e: tuple((wt(k), tuple(map(wt, v))) for k, v in e.items()) if isinstance(e, dict) else wt(e)
    return ('w', tuple(tuple(f(e) for e in c) for c in cl))


def same(ref, real):
    for k in ref:
        a, b = ref[k], real[k]
        if k in ('kt', 'nt'):
            a, b = norm(a), norm(b)
        if a != b:
            return f'{k} is {b} instead of {a}'
    return None


# ------------------------------------------------------------ generation
class Gen:
    """generates histories against the reference; never calls the code under test"""

    def __init__(self, rng, prof=None, base=0, delpre=None):
        self.rng = rng
        self.p = dict(sig=.25, chain=.2, expose=.25, wit=.25, dup=.1, conflict=.1, recover=.15, icp=.08, eo=.08, abandon=.04, nt=.05, nowit=.45)
        self.p.update(prof or {})
        self.st = None
        self.next = base + 1
        self.sid = {}          # qb64 key / digest -> signer number
        self.steps = []
        self.delpre = delpre
        self.delegate = delpre is not None

    def signer(self):
        s = self.next
        self.next += 1
        self.sid[key(s)] = s
        self.sid[key(s, False)] = s
        self.sid[dig(key(s))] = s
        return s

    def hit(self, k):
        return self.rng.random() < self.p[k]

    def wits_cfg(self):
        r = self.rng
        if self.hit('nowit'):
            return [], '0'
        n = r.randint(1, 4)
        w = [key(self.signer(), False) for _ in range(n)]
        return w, '%x' % r.randint(1, n)

    def commit(self):
        r = self.rng
        if self.hit('abandon'):
            return [], '0'
        n = r.choice([1, 1, 2, 2, 3, 4])
        d = [dig(key(self.signer())) for _ in range(n)]
        if r.random() < .06 and n > 1:
            d[1] = d[0]
        return d, gen_thold(r, n)

    def seals(self):
        r = self.rng
        return [r.choice([dict(i='E' + 'x' * 43, s='0', d='E' + 'y' * 43), dict(d='E' + 'z' * 43)]) for _ in range(r.randint(0, 2))] if r.random() < .3 else []

    def icp(self):
        r = self.rng
        n = r.choice([1, 1, 2, 2, 3, 4])
        ks = [key(self.signer()) for _ in range(n)]
        if n > 1 and r.random() < .06:
            ks[1] = ks[0]
        kt = gen_thold(r, n)
        nd, nt = self.commit()
        w, bt = self.wits_cfg()
        c = []
        if self.hit('eo'):
            c.append('EO')
        if r.random() < .1:
            c.append('DND')
        a = self.seals()
        if self.hit('wit') and w:
            k = r.randrange(4)
            if k == 0:
                bt = '%x' % (len(w) + 1)
            elif k == 1:
                bt = '0'
            elif k == 2:
                w = w + [w[0]]
            else:
                w, bt = [], '1'
        if self.hit('chain') and r.random() < .3:
            kt = '%x' % (n + 1)
        ilk = 'dip' if self.delegate else 'icp'
        pre = None
        if not self.delegate and r.random() < .2:
            pre = key(self.sid[ks[0]], r.random() < .6)
            ks = [pre]
            if kt != '2':
                kt = '1'
            if pre[0] == 'B' and r.random() < .6:
                nd, nt, w, bt, a = [], '0', [], '0', []
        sad = dict(v='', t=ilk, d='', i=pre or '', s='0' if r.random() > .03 else '1', kt=kt, k=ks, nt=nt, n=nd, bt=bt, b=w, c=c, a=a)
        if ilk == 'dip':
            sad['di'] = self.delpre
        return saidify(sad, ('d',) if pre else ('d', 'i'))

    def rot(self, recover=None):
        r, st = self.rng, self.st
        sn = st.sn + 1
        prior = st.said
        if recover is not None:
            sn = recover
            prior = st.log.get(sn - 1, st.said)
        committed = [self.sid.get(d) for d in st.ndigs]
        pick = [c for c in committed if c is not None]
        m = r.random()
        if m < .6 or not pick:
            ks = list(pick)
        else:
            ks = r.sample(pick, r.randint(1, len(pick)))
        if r.random() < .25:
            ks.append(self.signer())
        if self.hit('expose') and r.random() < .4:
            ks = [self.signer() if r.random() < .5 else k for k in ks]
        if r.random() < .3:
            r.shuffle(ks)
        if not ks:
            ks = [self.signer()]
        kt = gen_thold(r, len(ks))
        if self.hit('chain') and r.random() < .2:
            kt = '%x' % (len(ks) + 1)
        nd, nt = self.commit()
        cuts, adds = [], []
        if st.wits and r.random() < .5:
            cuts = r.sample(st.wits, r.randint(1, len(st.wits)))
        if r.random() < (.5 if not self.hit('nowit') else .1):
            adds = [key(self.signer(), False) for _ in range(r.randint(1, 2))]
        if self.hit('wit'):
            k = r.randrange(6)
            if k == 0 and cuts:
                cuts = cuts + [cuts[0]]
            elif k == 1 and adds:
                adds = adds + [adds[-1]]
            elif k == 2:
                cuts = cuts + [key(self.signer(), False)]
            elif k == 3 and cuts:
                adds = adds + [cuts[0]]
            elif k == 4 and st.wits:
                adds = adds + [r.choice(st.wits)]
        n = len(set(st.wits) - set(cuts)) + len(adds)
        bt = r.randint(1, n) if n > 0 else 0
        if self.hit('wit') and r.random() < .5:
            bt = r.choice([0, n, n + 1, 1, len(st.wits)])
        sad = dict(v='', t='drt' if self.delegate else 'rot', d='', i=st.pre, s='%x' % sn, p=prior, kt=kt, k=[key(s) for s in ks], nt=nt, n=nd,
                   bt='%x' % bt, br=cuts, ba=adds, a=self.seals())
        return self.chain(sad)

    def ixn(self):
        st = self.st
        return self.chain(dict(v='', t='ixn', d='', i=st.pre, s='%x' % (st.sn + 1), p=st.said, a=self.seals()))

    def chain(self, sad):
        r, st = self.rng, self.st
        if self.hit('chain'):
            k = r.randrange(5)
            if k == 0:
                sad['s'] = '%x' % (st.sn + r.choice([0, 2, 3, -1 if st.sn else 2]))
            elif k == 1:
                sad['p'] = r.choice(list(st.log.values()) + ['E' + 'q' * 43])
            elif k == 2 and st.sn:
                sad['s'] = '%x' % r.randint(1, st.sn)
                sad['p'] = st.log.get(int(sad['s'], 16) - 1, st.said)
            elif k == 3 and st.sn:
                sad['s'] = '%x' % r.randint(1, st.sn)
            elif k == 4 and sad['t'] == 'ixn':
                sad['p'] = st.log[st.est[0]]
        return saidify(sad)

    def sigs(self, sad, keys, ndigs=None, rot=False):
        """attached signatures with index codes; mostly satisfying"""
        r = self.rng
        out = []
        n = len(keys)
        idx = list(range(n))
        if r.random() < .3 or self.hit('sig'):
            idx = sorted(r.sample(idx, r.randint(min(1, n), n)))
        if r.random() < .3:
            r.shuffle(idx)
        for i in idx:
            s = self.sid.get(keys[i], 0)
            if rot:
                d = dig(keys[i])
                os_ = [k for k, x in enumerate(ndigs) if x == d]
                o = r.choice(os_) if os_ else None
                if self.hit('expose') and r.random() < .3:
                    o = r.choice([None, i, r.randrange(max(1, len(ndigs)) + 1)])
                out.append(self.code(i, o) + (s, True))
            else:
                out.append((r.choice(['A', 'A', 'A', 'B']), i, None, s, True))
                if r.random() < .1:
                    out[-1] = ('2A', i, r.randrange(4), s, True)
        if self.hit('sig'):
            for _ in range(r.randint(1, 3)):
                k = r.randrange(6)
                if k == 0 and out:
                    out.insert(r.randint(0, len(out)), r.choice(out))
                elif k == 1 and out:
                    c, i, o, s, g = r.choice(out)
                    out.append((r.choice([('A', i, i), ('B', i, None), ('2A', i, r.randrange(3)), ('2B', i, None)])) + (s, g))
                elif k == 2:
                    out.insert(r.randint(0, len(out)), ('A', r.randrange(n + 1), None, self.signer(), True))
                elif k == 3:
                    i = r.randrange(n)
                    out.insert(r.randint(0, len(out)), ('A', i, None, self.sid.get(keys[i], 0), r.choice([False, 'flip'])))
                elif k == 4:
                    i = r.randrange(n)
                    out.append(('A', n + r.randrange(3), None, self.sid.get(keys[i], 0), True))
                elif k == 5 and out:
                    j = r.randrange(len(out))
                    c, i, o, s, g = out[j]
                    out[j] = (c, i, o, s, r.choice([False, 'flip']))
        return [self.fix(s) for s in out]

    def code(self, i, o):
        r = self.rng
        if o is None:
            return (r.choice(['B', '2B']), i, None)
        if o == i:
            return (r.choice(['A', 'A', '2A']), i, i)
        return ('2A', i, o)

    def fix(self, s):
        c, i, o, k, g = s
        if c == 'A':
            o = i
        elif c in ('B', '2B'):
            o = None
        elif o is None:
            o = i
        return (c, i, o, k, g if g != 'flip' else 'flip')

    def wigs(self, wits, toad):
        r = self.rng
        n = len(wits)
        if not n:
            return [] if r.random() < .95 else [('A', 0, 0, self.signer(), True)]
        k = min(toad, n) if r.random() < .6 else r.randint(0, n)
        idx = sorted(r.sample(range(n), max(0, k)))
        if self.hit('wit') and r.random() < .5:
            idx = idx[:-1]
        out = [('A', i, i, self.sid.get(wits[i], 0), True) for i in idx]
        if self.hit('wit'):
            for _ in range(r.randint(1, 2)):
                j = r.randrange(5)
                if j == 0 and out:
                    out.append(r.choice(out))
                elif j == 1 and out:
                    c, i, o, s, g = r.choice(out)
                    out.append(self.fix((r.choice(['B', '2A']), i, None, s, g)))
                elif j == 2:
                    out.append(('A', r.randrange(n), 0, self.signer(), True))
                elif j == 3 and out:
                    q = r.randrange(len(out))
                    out[q] = out[q][:4] + (r.choice([False, 'flip']),)
                elif j == 4:
                    out.append(('A', n + r.randrange(2), 0, self.sid.get(wits[0], 0), True))
        return [self.fix(s) for s in out]

    def step(self):
        """one candidate event: (sad, raw, sigs, wigs)"""
        r, st = self.rng, self.st
        if st is None:
            sad, raw = self.icp()
            return sad, raw, self.sigs(sad, sad['k']), self.wigs(sad['b'], int(sad['bt'], 16))
        if self.hit('dup') and self.steps:
            sad, raw, _, _ = r.choice(self.steps)
            return self.attach(sad, raw)
        if self.hit('icp') and r.random() < .5:
            sad, raw = self.icp()
            if r.random() < .5 and sad['i'] != st.pre:
                pass
            return sad, raw, self.sigs(sad, sad['k']), self.wigs(sad['b'], int(sad['bt'], 16))
        if self.hit('recover') and st.sn > st.est[0]:
            sad, raw = self.rot(recover=r.randint(st.est[0] + 1, st.sn))
        elif self.hit('conflict') and st.sn:
            sad, raw = (self.rot if r.random() < .5 else self.ixn)()
            sad = dict(sad)
            sad['s'] = '%x' % r.randint(1, st.sn)
            sad['p'] = st.log[int(sad['s'], 16) - 1]
            sad, raw = saidify(sad)
        elif r.random() < .45:
            sad, raw = self.ixn()
        else:
            sad, raw = self.rot()
        return self.attach(sad, raw)

    def attach(self, sad, raw):
        st = self.st
        if sad['t'] in ('icp', 'dip'):
            return sad, raw, self.sigs(sad, sad['k']), self.wigs(sad['b'], int(sad['bt'], 16))
        if sad['t'] == 'ixn':
            return sad, raw, self.sigs(sad, st.keys), self.wigs(st.wits, st.toad)
        w = new_wits(st, sad)
        return sad, raw, self.sigs(sad, sad['k'], st.ndigs, True), self.wigs(w if w is not None else st.wits, int(sad['bt'], 16))

    def verdict(self, sad, raw, sigs, wigs):
        if sad['t'] == 'icp' and (self.st is None or sad['i'] != self.st.pre):
            return judge_icp(sad, raw, sigs, wigs)
        if self.st is None or sad['i'] != self.st.pre:
            return 'order'
        if sad['t'] == 'icp':
            return ('dup' if self.st.log[0] == sad['d'] else 'duplicitous') if sad['s'] == '0' else 'invalid'
        return judge(self.st, sad, raw, sigs, wigs)


def gen_history(prof=None, lo=2, hi=8, tries=3):
    def gen(rng):
        g = Gen(rng, prof)
        out = []
        n = rng.randint(lo, hi)
        # start: keep trying inceptions until one is accepted
        for _ in range(12):
            s = g.step()
            v = g.verdict(*s)
            out.append(s)
            if v == 'accept':
                g.st = State()
                apply(g.st, s[0], s[1])
                g.steps.append(s)
                break
        if g.st is None:
            return [(a, c, d) for a, b, c, d in out]
        for _ in range(n):
            s = g.step()
            v = g.verdict(*s)
            if s[0]['i'] == g.st.pre:
                g.steps.append(s)
                if v == 'accept':
                    apply(g.st, s[0], s[1])
            out.append(s)
        return [(a, c, d) for a, b, c, d in out]
    return gen


def clean(sad):
    return {k: v for k, v in sad.items()}


def check_history(steps, counts=None):
    w = World()
    try:
        refs = {}
        for n, (sad, sigs, wigs) in enumerate(steps):
            raw = ser(sad)
            pre = sad['i']
            st = refs.get(pre)
            if sad['t'] == 'icp' and st is None:
                v = judge_icp(sad, raw, sigs, wigs)
            elif st is None:
                v = 'order'
            elif sad['t'] == 'icp':
                v = ('dup' if st.log[0] == sad['d'] else 'duplicitous') if sad['s'] == '0' else 'invalid'
            else:
                v = judge(st, sad, raw, sigs, wigs)
            pos = stored(w, pre, sad['d']) if v == 'dup' else None
            if (n * 7 + len(steps) * 3 + len(sigs)) % 5 == 0:
                w.restart()
            e = w.process(raw, sigs, wigs)
            if v in ('accept', 'dup'):
                if e is not None:
                    return f'step {n}: {sad["t"]} at {sad["s"]} must be {v} but raised {type(e).__name__}: {e}'[:900]
            elif e is None:
                return f'step {n}: {sad["t"]} at {sad["s"]} must be refused ({v}) but was taken'
            if v == 'accept':
                if st is None:
                    st = refs[pre] = State()
                apply(st, sad, raw)
            if v == 'dup':
                keys, wl = state_at(st, sad['d'])
                good = {i for i, _ in verified(sigs, keys, raw)}
                now = stored(w, pre, sad['d'])
                if not pos <= now:
                    return f'step {n}: stored signatures were lost'
                if {i for i, _, in now - pos} - good:
                    return f'step {n}: unverified signatures stored on a repeated event: {sorted(now - pos)} verified {sorted(good)}'
                if good - {i for i, _ in now}:
                    return f'step {n}: verified signatures {sorted(good - {i for i, _ in now})} of a repeated event were not stored'
            if st is not None:
                s = w.snap(pre)
                if s is None:
                    return f'step {n}: identifier missing'
                m = same(st.snap(), s)
                if m:
                    return f'step {n} ({sad["t"]} at {sad["s"]}, {v}): {m}'
                for k, d in enumerate(st.fel):
                    f = w.db.fons.get(keys=(pre, d))
                    if f is None or f.num != k:
                        return f'step {n}: first seen ordinal of {d} is {f and f.num} instead of {k}'
                x = w.db.evts.get(keys=(pre, st.said))
                if x is None or x.raw != st.raws[st.said]:
                    return f'step {n}: stored event differs from the accepted one'
                # what is persisted reloads to the same state
                rec = w.db.states.get(keys=pre)
                if rec is None or rec.d != st.said or int(rec.s, 16) != st.sn or list(rec.k) != st.keys or list(rec.n) != st.ndigs or list(rec.b) != st.wits \
                        or int(rec.bt, 16) != st.toad or norm(rec.kt) != norm(st.kt) or int(rec.ee.s, 16) != st.est[0] or rec.ee.d != st.est[1]:
                    return f'step {n}: persisted key state differs from the accepted one: {rec}'
            elif w.snap(pre) is not None:
                return f'step {n}: identifier {pre} appeared'
        return None
    finally:
        w.close()


def stored(w, pre, said):
    return {(s.index, s.qb64) for s in w.db.sigs.get(keys=(pre, said))}


def state_at(st, said):
    """keys in force for an accepted event"""
    e = json.loads(st.raws[said])
    while e['t'] == 'ixn':
        e = json.loads(st.raws[e['p']])
    return e['k'], None


def nontrivial(case):
    return len(case) >= 2


# ------------------------------------------------------------ escrow schedules
def gen_schedule(prof=None, lo=3, hi=8):
    """a lawful history delivered in pieces: subsets of signatures, out of order, repeated, with escrow processing in between"""
    def gen(rng):
        p = dict(sig=.05, chain=0, expose=.05, wit=.05, dup=0, conflict=0, icp=0, abandon=0, recover=.2, eo=0, nowit=.5)
        p.update(prof or {})
        g = Gen(rng, p)
        evs = []
        for _ in range(20):
            s = g.step()
            v = g.verdict(*s)
            if v == 'accept':
                if g.st is None:
                    g.st = State()
                apply(g.st, s[0], s[1])
                evs.append(s)
            elif v in ('sigs', 'wigs') and rng.random() < .2:
                evs.append(s)
            if len(evs) >= rng.randint(lo, hi):
                break
        out = []
        for sad, raw, sigs, wigs in evs:
            k = rng.random()
            if k < .35:
                out.append(('ev', sad, sigs, wigs))
                continue
            parts = rng.randint(2, 3)
            for _ in range(parts):
                a = [s for s in sigs if rng.random() < .6] or sigs[:1]
                b = [s for s in wigs if rng.random() < .6]
                if rng.random() < .25:
                    a = a + [(c, i, o, s, rng.choice([False, 'flip'])) for c, i, o, s, _ in sigs[:2]]
                if rng.random() < .2:
                    b = b + [(c, i, o, s, False) for c, i, o, s, _ in wigs[:2]]
                out.append(('ev', sad, a, b))
        # disorder
        for _ in range(rng.randint(0, 4)):
            if len(out) > 1:
                i = rng.randrange(len(out))
                x = out.pop(i)
                out.insert(max(0, min(len(out), i + rng.randint(-3, 3))), x)
        res = []
        for x in out:
            res.append(x)
            if rng.random() < .4:
                res.append(('esc',))
        res += [('esc',), ('esc',)]
        return res
    return gen


def judge_any(st, sad, raw, sigs, wigs):
    if sad['t'] in ('icp', 'dip'):
        return judge_icp(sad, raw, sigs, wigs) if st is None else 'dup'
    return 'order' if st is None else judge(st, sad, raw, sigs, wigs)


def check_schedule(steps):
    w = World()
    try:
        refs, given, sads = {}, {}, {}
        for n, x in enumerate(steps):
            if x[0] == 'ev':
                _, sad, sigs, wigs = x
                sads[sad['d']] = sad
                g = given.setdefault(sad['d'], ([], []))
                g[0].extend(sigs)
                g[1].extend(wigs)
                alone = judge_any(refs.get(sad['i']), sad, ser(sad), sigs, wigs)
                e = w.process(ser(sad), sigs, wigs)
                if alone == 'accept' and e is not None:
                    return f'step {n}: {sad["t"]} at {sad["s"]} must be accepted but raised {type(e).__name__}: {e}'[:900]
            else:
                w.kvy.processEscrows()
            for pre in {s['i'] for s in sads.values()}:
                real = w.snap(pre)
                if real is None:
                    continue
                st = refs.get(pre)
                old = [] if st is None else st.fel
                if real['fel'][:len(old)] != old:
                    return f'step {n}: first seen log changed from {old} to {real["fel"]}'
                for d in real['fel'][len(old):]:
                    sad = sads.get(d)
                    if sad is None:
                        return f'step {n}: unknown event {d} accepted'
                    raw = ser(sad)
                    v = judge_any(st, sad, raw, *given[d])
                    if v != 'accept':
                        return f'step {n}: {sad["t"]} at {sad["s"]} was accepted although with everything presented so far it is {v}'
                    if st is None:
                        st = refs[pre] = State()
                    apply(st, sad, raw)
                if st is None:
                    return f'step {n}: identifier {pre} has a key state but no first seen event'
                m = same(st.snap(), real)
                if m:
                    return f'step {n}: {m}'
                for d in st.fel:
                    keys, _ = state_at(st, d)
                    # what is stored for an accepted event is verified or (from an escrow) at least was presented
                    pres = {(i, siger(c, i, o, s, g, st.raws[d]).qb64) for c, i, o, s, g in given[d][0]}
                    if stored(w, pre, d) - pres:
                        return f'step {n}: signatures stored for {d} that were never presented'
        return None
    finally:
        w.close()


# ------------------------------------------------------------ delegation
def has_seal(raw, sad):
    for a in json.loads(raw)['a']:
        if isinstance(a, dict) and list(a) == ['i', 's', 'd'] and a == dict(i=sad['i'], s=sad['s'], d=sad['d']):
            return True
    return False


def seal_index(raw, sad):
    k = 0
    for a in json.loads(raw)['a']:
        if isinstance(a, dict) and list(a) == ['i', 's', 'd']:
            if a == dict(i=sad['i'], s=sad['s'], d=sad['d']):
                return k
            k += 1
    return None


def supersedes(refs, aes, st, sad, anchor):
    """rules B and C: may delegated rotation sad, anchored by event `anchor` of its delegator, supersede the latest rotation of st"""
    new, old = sad, json.loads(st.raws[st.est[1]])
    dpre = st.di
    bn, bo = anchor, aes.get(old['d'])
    while True:
        if bn is None or bo is None:
            return False
        d = refs[dpre]
        en, eo = json.loads(d.raws[bn]), json.loads(d.raws[bo])
        sn, so = int(en['s'], 16), int(eo['s'], 16)
        if sn > so or sn == so and en['t'] in ('rot', 'drt') and eo['t'] == 'ixn':
            return True
        if bn == bo:
            return seal_index(d.raws[bn], new) > seal_index(d.raws[bo], old)
        if not d.di:
            return False
        new, old, dpre = en, eo, d.di
        bn, bo = aes.get(bn), aes.get(bo)


def judge_del(refs, aes, sad, raw, sigs, wigs, couples):
    """('accept', anchor) or (reason, None); couples: candidate sequence numbers of the delegating event"""
    st = refs.get(sad['i'])
    v = judge_any(st, sad, raw, sigs, wigs)
    if v != 'accept':
        return v, None
    if sad['t'] not in ('dip', 'drt'):
        return v, None
    d = refs.get(sad['di'] if sad['t'] == 'dip' else st.di)
    if d is None:
        return 'del', None
    if d.dnd:
        return 'invalid', None
    why = 'del'
    for k in couples:
        a = d.log.get(k)
        if a is None or not has_seal(d.raws[a], sad):
            continue
        if sad['t'] == 'dip' or int(sad['s'], 16) > st.est[0] or supersedes(refs, aes, st, sad, a):
            return 'accept', a
        why = 'invalid'
    return why, None


def gen_delegation(rng):
    prof = dict(sig=.02, chain=0, expose=.02, wit=0, dup=0, conflict=0, icp=0, abandon=.01, recover=.2, eo=0, nowit=.85)
    depth = rng.choice([1, 1, 2, 2, 3])
    G, refs, aes, out, pend = [], {}, {}, [], []
    for k in range(depth + 1):
        g = Gen(rng, prof, base=100 * k)
        G.append(g)

    def give(sad, raw, sigs, wigs, couple):
        v, a = judge_del(refs, aes, sad, raw, sigs, wigs, [couple[0]] if couple else [])
        out.append(('ev', sad, sigs, wigs, couple))
        if v == 'accept':
            st = refs.get(sad['i'])
            if st is None:
                st = refs[sad['i']] = State()
            apply(st, sad, raw)
            if a:
                aes[sad['d']] = a
        return v

    # root
    for _ in range(30):
        sad, raw = G[0].icp()
        if len(sad['i']) and sad['n'] and sad['i'][0] == 'E':
            sad['c'] = ['DND'] if rng.random() < .06 else []
            sad, raw = saidify(sad, ('d', 'i'))
            sigs = G[0].sigs(sad, sad['k'])
            if give(sad, raw, sigs, G[0].wigs(sad['b'], int(sad['bt'], 16)), None) == 'accept':
                G[0].st = refs[sad['i']]
                break
    if G[0].st is None:
        return out
    todo = {}          # level -> candidate events awaiting anchors

    def cand(k):
        g = G[k]
        st = g.st
        if st is None:
            g.delegate, g.delpre = True, G[k - 1].st.pre
            sad, raw = g.icp()
            if not sad['n']:
                return None
            sad['c'] = ['DND'] if rng.random() < .05 else []
            sad['s'] = '0'
            sad, raw = saidify(sad, ('d', 'i'))
            return sad, raw, g.sigs(sad, sad['k']), g.wigs(sad['b'], int(sad['bt'], 16))
        if k == 0:
            g.delegate = False
        m = rng.random()
        if k > 0 and st.est[0] > 0 and m < .4:        # supersede the latest rotation
            com = st.prior
            t = State()
            t.__dict__.update(st.__dict__)
            t.ndigs, t.nt, t.wits = com.ndigs, com.nt, com.wits
            g.st = t
            sad, raw = g.rot(recover=st.est[0])
            r = (sad, raw, g.sigs(sad, sad['k'], com.ndigs, True), g.wigs(new_wits(com, sad) or [], int(sad['bt'], 16)))
            if rng.random() < .15:
                t.ndigs = st.ndigs
                sad, raw = g.rot(recover=st.est[0])
                r = (sad, raw, g.sigs(sad, sad['k'], st.ndigs, True), g.wigs(new_wits(com, sad) or [], int(sad['bt'], 16)))
            g.st = st
            return r
        if st.sn > st.est[0] and m < .6:
            sad, raw = g.rot(recover=rng.randint(st.est[0] + 1, st.sn))
        else:
            sad, raw = g.rot()
        return g.attach(sad, raw)

    anchored = []      # (level, cand, couple)
    for _ in range(rng.randint(4, 12)):
        k = rng.randint(1, depth)
        if G[k - 1].st is None or G[k - 1].st.pre not in refs:
            continue
        if G[k].st is not None and G[k].st.pre not in refs:
            G[k].st = None
        # several candidates of the delegate, anchored together or apart
        cs = [c for c in [cand(k) for _ in range(rng.choice([1, 1, 2, 2, 3]))] if c]
        if not cs:
            continue
        if rng.random() < .15:
            give(*cs[0], rng.choice([None, (rng.randint(0, 3), dig('w'))]))
        seals = [dict(i=c[0]['i'], s=c[0]['s'], d=c[0]['d']) for c in cs]
        for sl in seals:
            x = rng.random()
            if x < .05:
                sl['s'] = '%x' % (int(sl['s'], 16) + 1)
            elif x < .08:
                sl['d'] = dig('r')
            elif x < .11:
                sl['i'] = G[0].st.pre
        rng.shuffle(seals)
        groups = [seals] if rng.random() < .5 else [[x] for x in seals]
        where = {}
        g = G[k - 1]
        for grp in groups:
            if g.st.ndigs and (rng.random() < .3 or k - 1 > 0 and rng.random() < .3):
                rec = None
                if g.st.sn > g.st.est[0] and rng.random() < .5:
                    rec = rng.randint(g.st.est[0] + 1, g.st.sn)
                g.delegate = k - 1 > 0
                sad, raw = g.rot(recover=rec)
            elif not g.st.ndigs:
                continue
            else:
                sad, raw = g.ixn()
            sad = dict(sad)
            sad['a'] = ([dict(d='E' + 'z' * 43)] if rng.random() < .2 else []) + grp
            sad, raw = saidify(sad)
            sig = g.attach(sad, raw)
            if k - 1 > 0 and sad['t'] == 'drt':
                # its own delegator anchors it first
                gg = G[k - 2]
                if not gg.st.ndigs:
                    continue
                s2, r2 = gg.ixn()
                s2 = dict(s2, a=[dict(i=sad['i'], s=sad['s'], d=sad['d'])])
                s2, r2 = saidify(s2)
                a2 = gg.attach(s2, r2)
                give(*a2, None)
                give(*sig, (int(s2['s'], 16), s2['d']))
            else:
                give(*sig, None)
            for sl in grp:
                where[sl['d']] = (int(sad['s'], 16), sad['d'])
        rng.shuffle(cs)
        for c in cs:
            cp = where.get(c[0]['d'])
            x = rng.random()
            if cp is None or x < .1:
                cp = rng.choice([None, (rng.randint(0, 4), dig('w'))])
            elif x < .2:
                cp = (cp[0], dig('w'))
            elif x < .3:
                cp = None
            v = give(*c, cp)
            if v == 'accept':
                G[k].st = refs[c[0]['i']]
                if rng.random() < .4 and G[k].st.ndigs and not G[k].st.estOnly:
                    for _ in range(rng.randint(1, 2)):
                        sad, raw = G[k].ixn()
                        give(*G[k].attach(sad, raw), None)
            elif v == 'del' and rng.random() < .4:
                out.append(('esc',))
        if rng.random() < .3:
            out.append(('esc',))
            # the reference of the generator does not follow escrows: resynchronise by stopping
            if rng.random() < .5:
                return out
    return out


def check_delegation(steps):
    from keri.core import coring
    w = World()
    try:
        refs, aes, given, sads = {}, {}, {}, {}
        for n, x in enumerate(steps):
            exp = None
            if x[0] == 'ev':
                _, sad, sigs, wigs, couple = x
                raw = ser(sad)
                sads[sad['d']] = sad
                gv = given.setdefault(sad['d'], ([], []))
                gv[0].extend(sigs)
                gv[1].extend(wigs)
                kw = {}
                if couple:
                    kw = dict(delsner=coring.Number(num=couple[0]), delsger=coring.Diger(qb64=couple[1]))
                if (n * 5 + len(steps)) % 7 == 0:
                    w.restart()
                v, a = judge_del(refs, aes, sad, raw, sigs, wigs, [couple[0]] if couple else [])
                e = w.process(raw, sigs, wigs, **kw)
                if v in ('accept', 'dup') and e is not None:
                    return f'step {n}: {sad["t"]} at {sad["s"]} must be {v} but raised {type(e).__name__}: {e}'[:900]
                if v not in ('accept', 'dup') and e is None:
                    return f'step {n}: {sad["t"]} at {sad["s"]} must be refused ({v}) but was taken'
                exp = a
            else:
                w.kvy.processEscrows()
            # what is accepted now must be lawful, given everything presented; follow the order of dependence
            progress = True
            while progress:
                progress = False
                # delegates before their delegators: an anchor used in this pass may have been superseded later in it
                pres = {s['i']: (s.get('di') or None) for s in sads.values() if s['t'] in ('icp', 'dip')}
                lev = lambda p: 0 if not pres.get(p) else 1 + lev(pres[p])
                for pre in sorted({s['i'] for s in sads.values()}, key=lambda p: (-lev(p), p)):
                    if progress:
                        break
                    real = w.snap(pre)
                    if real is None:
                        continue
                    st = refs.get(pre)
                    old = [] if st is None else st.fel
                    if real['fel'][:len(old)] != old:
                        return f'step {n}: first seen log changed'
                    for d in real['fel'][len(old):]:
                        sad = sads.get(d)
                        if sad is None:
                            return f'step {n}: unknown event {d} accepted'
                        raw = ser(sad)
                        dst = refs.get(sad.get('di') or (st.di if st else None))
                        v, a = judge_del(refs, aes, sad, raw, *given[d], sorted(dst.log) if dst else [])
                        if v != 'accept':
                            break
                        if x[0] == 'ev' and exp and d == x[1]['d']:
                            a = exp
                        if st is None:
                            st = refs[pre] = State()
                        apply(st, sad, raw)
                        progress = True
                        if sad['t'] in ('dip', 'drt'):
                            aes[d] = a
                            r = w.db.aess.get(keys=(pre, d))
                            if r is None:
                                return f'step {n}: no delegating event recorded for accepted {sad["t"]} at {sad["s"]}'
                            got = r[1].qb64
                            if got not in dst.raws or not has_seal(dst.raws[got], sad) or r[0].num != int(json.loads(dst.raws[got])['s'], 16):
                                return f'step {n}: recorded delegating event does not seal the accepted {sad["t"]} at {sad["s"]}'
                            aes[d] = got
                        break
            for pre in {s['i'] for s in sads.values()}:
                real, st = w.snap(pre), refs.get(pre)
                if real is None and st is None:
                    continue
                if st is None or real is None or real['fel'] != st.fel:
                    bad = [sads[d] for d in (real['fel'] if real else []) if st is None or d not in st.fel]
                    b = bad[0] if bad else {}
                    why = judge_del(refs, aes, b, ser(b), *given[b['d']], range(99))[0] if b else '?'
                    return f'step {n} ({x[0]}): {b.get("t")} at {b.get("s")} was accepted although with everything presented so far it is not lawful ({why})'
                m = same(st.snap(), real)
                if m:
                    return f'step {n}: {m}'
        return None
    finally:
        w.close()
