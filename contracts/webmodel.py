"""Reference model of the web store (abstract ordered map) and random operation histories against the real one."""
import asyncio
from .base import *

ORDS = [0, 1, 2, 3, 9, 10, 11, 15, 16, 17, 31, 32, 99, 100, 255, 256, 257, 4095, 4096, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63), (1 << 64) - 1,
        1 << 64, (1 << 64) + 1, 1 << 100, 1 << 127, (1 << 128) - 2, (1 << 128) - 1]
MAXON = (1 << 128) - 1
BASE = [b'a', b'b', b'ab', b'A', b'a-', b'a_0', b'EABC', b'EABD', b'EAB', b'z', b'0', b'zz.q', b'k.x', b'k.y', b'\xff\xfe', b'', b'~']
# keys that extend one another by a separator and something that is no ordinal
KIN = [[b'a', b'a.x', b'a.-', b'a.x.y'], [b'zz', b'zz.q', b'zz.', b'zzz'], [b'EABC', b'EABC.z', b'EABC-', b'EAB'], [b'k', b'k|', b'k|z', b'k.z'], [b'a', b'a::z', b'a:z', b'a-']]
VALS = [b'', b'0', b'v', b'w', b'x', b'vv', b'\x00', b'\xff' * 3, b'value', b'a.0', b'{"a":1}']


def sfx(k, o, sep=b'.'):
    return k + sep + b'%032x' % o


def spl(k, sep=b'.'):
    a, b = k.rsplit(sep, 1)
    return a, int(b, 16)


def dd(vals):
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


class Ref:
    """abstract sub-store: a mapping from bytes to bytes read in key order"""

    def __init__(self, sep=b'.'):
        self.d = {}
        self.sep = sep

    def sfx(self, k, o):
        return sfx(k, o, self.sep)

    def spl(self, k):
        return spl(k, self.sep)

    def items(self):
        return sorted(self.d.items())

    # plain
    def putVal(self, key, val):
        if not key:
            raise KeyError
        if key in self.d:
            return False
        self.d[key] = val
        return True

    def setVal(self, key, val):
        if not key:
            raise KeyError
        self.d[key] = val
        return True

    def getVal(self, key):
        if not key:
            raise KeyError
        return self.d.get(key)

    def remVal(self, key):
        return self.d.pop(key, None) is not None if key else False

    delVal = remVal

    def getTopItemIter(self, top=b''):
        return [(k, v) for k, v in self.items() if k.startswith(top)]

    def remTop(self, top=b''):
        ks = [k for k in self.d if k.startswith(top)]
        for k in ks:
            del self.d[k]
        return bool(ks)

    delTop = remTop

    def cntTop(self, top=b''):
        return sum(k.startswith(top) for k in self.d)

    def cntAll(self):
        return len(self.d)

    # ordinal
    def on(self, key=None, lo=0, hi=MAXON):
        """(k, on, v) in key order with base key `key` and ordinal in lo..hi"""
        out = []
        for k, v in self.items():
            b, o = self.spl(k)
            if (key is None or b == key) and lo <= o <= hi:
                out.append((b, o, v))
        return out

    def putOnVal(self, key, on=0, val=None):
        return False if val is None else self.putVal(self.sfx(key, on), val)

    def pinOnVal(self, key, on=0, val=None):
        return False if val is None or not key else self.setVal(self.sfx(key, on), val)

    def appendOnVal(self, key, val):
        if not key or val is None:
            raise ValueError
        m = max([o for _, o, _ in self.on(key)], default=-1)
        if m >= MAXON:
            raise ValueError
        self.d[self.sfx(key, m + 1)] = val
        return m + 1

    def getOnItem(self, key, on=0):
        v = self.d.get(self.sfx(key, on)) if key else None
        return None if v is None else (key, on, v)

    def getOnVal(self, key, on=0):
        return self.d.get(self.sfx(key, on)) if key else None

    def remOn(self, key, on=0):
        return self.remVal(self.sfx(key, on)) if key else False

    def remOnAll(self, key=b'', on=0):
        if not key:
            return self.remTop()
        ks = [self.sfx(k, o) for k, o, _ in self.on(key, on)]
        for k in ks:
            del self.d[k]
        return bool(ks)

    def cntOnAll(self, key=b'', on=0):
        return len(self.on(key, on)) if key else len(self.d)

    def getOnTopItemIter(self, top=b''):
        return [self.spl(k) + (v,) for k, v in self.getTopItemIter(top)]

    def getOnAllItemIter(self, key=b'', on=0):
        return self.on(key, on) if key else self.on()

    # insertion ordered sets
    def ios(self, key, ion=0):
        return [(b, o, v) for b, o, v in self.on(key, ion)]

    def putIoSetVals(self, key, vals):
        if not key or not vals:
            return False
        cur = self.ios(key)
        have = [v for _, _, v in cur]
        n = max([o for _, o, _ in cur], default=-1) + 1
        new = [v for v in dd(vals) if v not in have]
        for i, v in enumerate(new):
            self.d[self.sfx(key, n + i)] = v
        return bool(new)

    def pinIoSetVals(self, key, vals):
        if not key or not vals:
            return False
        for k, o, _ in self.ios(key):
            del self.d[self.sfx(k, o)]
        for i, v in enumerate(dd(vals)):
            self.d[self.sfx(key, i)] = v
        return True

    def addIoSetVal(self, key, val):
        if not key or val is None:
            return False
        return self.putIoSetVals(key, [val])

    def getIoSetItemIter(self, key, ion=0):
        return [(k, v) for k, _, v in self.ios(key, ion)] if key else []

    def getIoSetLastItem(self, key):
        r = self.getIoSetItemIter(key)
        return r[-1] if r else ()

    def remIoSet(self, key):
        r = self.ios(key) if key else []
        for k, o, _ in r:
            del self.d[self.sfx(k, o)]
        return bool(r)

    def remIoSetVal(self, key, val=None):
        if val is None:
            return self.remIoSet(key)
        for k, o, v in self.ios(key) if key else []:
            if v == val:
                del self.d[self.sfx(k, o)]
                return True
        return False

    def cntIoSet(self, key, ion=0):
        return len(self.ios(key, ion)) if key else 0

    def getTopIoSetItemIter(self, top=b''):
        return [(self.spl(k)[0], v) for k, v in self.getTopItemIter(top)]

    def getIoSetLastItemIterAll(self, key=b''):
        last = {}
        for k, v in self.items():
            if not key or k >= self.sfx(key, 0):
                last[self.spl(k)[0]] = v
        return list(last.items())

    def getIoSetLastIterAll(self, key=b''):
        return [v for _, v in self.getIoSetLastItemIterAll(key)]

    # ordinal insertion ordered sets
    def onios(self, key=None, lo=0, hi=MAXON):
        out = []
        for k, v in self.items():
            ok, ion = self.spl(k)
            b, o = self.spl(ok)
            if (key is None or b == key) and lo <= o <= hi:
                out.append((b, o, v))
        return out

    def putOnIoSetVals(self, key, on=0, vals=None):
        return self.putIoSetVals(self.sfx(key, on), vals) if key else False

    def pinOnIoSetVals(self, key, on=0, vals=None):
        return self.pinIoSetVals(self.sfx(key, on), vals) if key else False

    def appendOnIoSetVals(self, key, vals):
        if not key or not vals or isinstance(vals, (str, bytes)):
            raise ValueError
        m = max([o for _, o, _ in self.onios(key)], default=-1)
        if m >= MAXON:
            raise ValueError
        self.putIoSetVals(self.sfx(key, m + 1), vals)
        return m + 1

    def addOnIoSetVal(self, key, on=0, val=None):
        return self.addIoSetVal(self.sfx(key, on), val)

    def getOnIoSetItemIter(self, key, on=0, ion=0):
        return [self.spl(k) + (v,) for k, v in self.getIoSetItemIter(self.sfx(key, on), ion)]

    def getOnIoSetLastItem(self, key, on=0):
        r = self.getOnIoSetItemIter(key, on)
        return r[-1] if r else ()

    def remOnIoSetVal(self, key, on=0, val=None):
        return self.remIoSetVal(self.sfx(key, on), val)

    def remOnAllIoSet(self, key=b'', on=0):
        if not key:
            return self.remTop()
        ks = [k for k in self.d if self.spl(self.spl(k)[0])[0] == key and self.spl(self.spl(k)[0])[1] >= on]
        for k in ks:
            del self.d[k]
        return bool(ks)

    def cntOnIoSet(self, key, on=0, ion=0):
        return self.cntIoSet(self.sfx(key, on), ion)

    def cntOnAllIoSet(self, key=b'', on=0):
        return len(self.onios(key, on)) if key else len(self.d)

    def getOnTopIoSetItemIter(self, top=b''):
        return [self.spl(k) + (v,) for k, v in self.getTopIoSetItemIter(top)]

    def getOnAllIoSetItemIter(self, key=b'', on=0):
        return self.onios(key, on) if key else self.onios()

    def getOnAllIoSetLastItemIter(self, key=b'', on=0):
        last = {}
        for b, o, v in self.getOnAllIoSetItemIter(key, on):
            last[(b, o)] = v
        return [k + (v,) for k, v in last.items()]

    def getOnAllIoSetItemBackIter(self, key=b'', on=None):
        return self.onios(key or None, 0, MAXON if on is None or not key else on)[::-1]

    def getOnAllIoSetLastItemBackIter(self, key=b'', on=None):
        last = {}
        for b, o, v in self.onios(key or None, 0, MAXON if on is None or not key else on):
            last[(b, o)] = v
        return [k + (v,) for k, v in last.items()][::-1]


# op -> argument shapes; kind of store it applies to
OPS = {
    'plain': dict(putVal='kv', setVal='kv', getVal='k', remVal='k', delVal='k', getTopItemIter='t', remTop='t', delTop='t', cntTop='t', cntAll=''),
    'on': dict(putOnVal='KOV', pinOnVal='KOV', appendOnVal='Kv', getOnItem='KO', getOnVal='KO', remOn='KO', remOnAll='KO', cntOnAll='KO',
               getOnTopItemIter='T', getOnAllItemIter='KO', cntAll='', remTop='T', cntTop='T', getTopItemIter='T'),
    'ioset': dict(putIoSetVals='KM', pinIoSetVals='KM', addIoSetVal='KV', getIoSetItemIter='KI', getIoSetLastItem='K', remIoSet='K', remIoSetVal='KV',
                  cntIoSet='KI', getTopIoSetItemIter='T', getIoSetLastItemIterAll='K', getIoSetLastIterAll='K', remTop='T', cntAll=''),
    'onioset': dict(putOnIoSetVals='KOM', pinOnIoSetVals='KOM', appendOnIoSetVals='Km', addOnIoSetVal='kOV', getOnIoSetItemIter='kOI', getOnIoSetLastItem='kO',
                    remOnIoSetVal='kOV', remOnAllIoSet='KO', cntOnIoSet='kOI', cntOnAllIoSet='KO', getOnTopIoSetItemIter='T', getOnAllIoSetItemIter='KO',
                    getOnAllIoSetLastItemIter='KO', getOnAllIoSetItemBackIter='KN', getOnAllIoSetLastItemBackIter='KN', cntAll='', remTop='T'),
}
SEPPED = {op for k, v in OPS.items() if k != 'plain' for op in v} - {'cntAll', 'remTop', 'cntTop', 'getTopItemIter'}
WRITES = {'putVal', 'setVal', 'putOnVal', 'pinOnVal', 'appendOnVal', 'putIoSetVals', 'pinIoSetVals', 'addIoSetVal', 'putOnIoSetVals', 'pinOnIoSetVals',
          'appendOnIoSetVals', 'addOnIoSetVal'}


def gen_ops(rng, kind, n, sep=b'.'):
    keys = rng.sample([k for k in BASE if k], rng.randint(2, 4)) if rng.random() < .6 else rng.sample(rng.choice(KIN), rng.randint(2, 4))
    ords = rng.sample(ORDS, rng.randint(2, 4)) + [rng.randrange(1 << rng.choice([4, 8, 16, 64, 120]))]
    names = list(OPS[kind])
    ws = [x for x in names if x in WRITES]
    base = ords[0]

    def o():
        r = rng.random()
        if r < .5:
            return rng.choice(ords)
        return min(MAXON, base + rng.randint(0, 3)) if r < .8 else rng.randint(0, 4)
    out = []
    for _ in range(n):
        op = rng.choice(ws) if rng.random() < .5 else rng.choice(names)
        a = {}
        for c in OPS[kind][op]:
            if c == 'k':
                a['key'] = rng.choice(keys) if rng.random() < .97 or kind != 'plain' else b''
            elif c == 'K':
                a['key'] = rng.choice(keys) if rng.random() < .9 else b''
            elif c == 'O':
                if rng.random() < .85:
                    a['on'] = o()
            elif c == 'N':
                a['on'] = o() if rng.random() < .7 else None
            elif c == 'I':
                if rng.random() < .4:
                    a['ion'] = rng.randint(0, 3)
            elif c == 'v':
                a['val'] = rng.choice(VALS)
            elif c == 'w':
                a['val'] = rng.choice(VALS[1:])
            elif c == 'x':
                if rng.random() < .8:
                    a['val'] = rng.choice(VALS[1:])
            elif c == 'W':
                a['vals'] = [rng.choice(VALS[1:]) for _ in range(rng.randint(0, 4))]
            elif c == 'Y':
                a['vals'] = [rng.choice(VALS) for _ in range(rng.randint(1, 4))]
            elif c == 'V':
                a['val'] = rng.choice(VALS) if rng.random() < .95 else None
            elif c == 'M':
                a['vals'] = [rng.choice(VALS) for _ in range(rng.randint(1, 5))] if rng.random() < .93 else rng.choice([[], None])
            elif c == 'm':
                a['vals'] = [rng.choice(VALS) for _ in range(rng.randint(1, 5))]
            elif c in 'tT':
                k = rng.choice(keys)
                r = rng.random()
                a['top'] = b'' if r < .1 else k[:rng.randint(1, len(k))] if r < .5 else k + sep if r < .8 else sfx(k, o(), sep)[:len(k) + rng.randint(1, 33)]
                if op in ('remTop', 'delTop') and rng.random() < .6:
                    a['top'] = sfx(k, o(), sep)
        out.append((op, a))
    return out


def apply_ref(ref, op, a):
    try:
        r = getattr(ref, op)(**a)
        return ('ret', r)
    except (KeyError, ValueError) as e:
        return ('raise', type(e).__name__)


def norm(r):
    if hasattr(r, '__next__') or (hasattr(r, '__iter__') and not isinstance(r, (bytes, str, tuple, list))):
        r = list(r)
    if isinstance(r, list):
        return [tuple(bytes(y) if isinstance(y, memoryview) else y for y in x) if isinstance(x, tuple) else x for x in r]
    return r


def apply_real(dber, sdb, op, a, sep=None):
    if sep is not None and op in SEPPED:
        a = dict(a, sep=sep)
    try:
        return ('ret', norm(getattr(dber, op)(sdb, **a)))
    except (KeyError, ValueError) as e:
        return ('raise', type(e).__name__)


class Handle:
    def __init__(self, be, ns):
        self.be, self.ns = be, ns
        self.local = dict(be.persisted.get(ns, {}))

    def get(self, k, d=None):
        return self.local.get(k, d)

    def __getitem__(self, k):
        return self.local[k]

    def __setitem__(self, k, v):
        self.be.event('set')
        self.local[k] = v

    async def sync(self):
        self.be.event('sync')
        snap = dict(self.local)
        await self.be.during()
        self.be.event('commit')
        self.be.persisted[self.ns] = snap


class Backend:
    """commits a namespace on sync; can fail at the n-th event, and can run work while a sync is pending"""

    def __init__(self):
        self.persisted = {}
        self.fail = None
        self.n = 0
        self.work = []
        self.error = OSError

    def event(self, what):
        self.n += 1
        if self.fail is not None and self.n >= self.fail:
            self.fail = None
            raise self.error('storage failed at ' + what)

    async def during(self):
        await asyncio.sleep(0)
        if self.work:
            self.work.pop(0)()

    async def open(self, ns):
        return Handle(self, ns)


def drive(coro):
    """run a coroutine to the end without an event loop (asyncio.sleep(0) just yields)"""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


def contents(dber, names):
    return {n: sorted((bytes(k), bytes(v)) for k, v in dber._stores[n].items.items()) for n in names}
