"""C14: local store operations and typed layers against the abstract ordered map of ordered sets."""
import bisect
import itertools
from .base import *
from . import webmodel as W

FN = 'src/keri/db/dbing.py:LMDBer.'
RULE = 'random operation histories over a sub-store, every answer and the whole content compared with the abstract map after each operation; typed layers ' \
       'compared through their own values; non-trivial when at least three operations changed the store'
MAXON = W.MAXON


class RefL(W.Ref):
    """the local store answers False, not KeyError, for an empty key"""

    def putVal(self, key, val):
        return super().putVal(key, val) if key else False

    def setVal(self, key, val):
        return super().setVal(key, val) if key else False

    def getVal(self, key):
        return super().getVal(key) if key else False

    def putOnVal(self, key, on=0, val=None):
        return super().putOnVal(key, on, val) if key else False


class RefDup:
    """key -> sorted values"""

    def __init__(self, sep=b'.'):
        self.d = {}
        self.sep = sep

    def items(self):
        return [(k, v) for k, vs in sorted(self.d.items()) for v in vs]

    def putVals(self, key, vals):
        for v in vals:
            self.addVal(key, v)
        return True

    def addVal(self, key, val):
        vs = self.d.setdefault(key, [])
        if val in vs:
            return False
        bisect.insort(vs, val)
        return True

    def getVals(self, key):
        return list(self.d.get(key, []))

    getValsIter = getVals

    def getValLast(self, key):
        return self.d[key][-1] if key in self.d else None

    def cntVals(self, key):
        return len(self.d.get(key, []))

    def delVals(self, key, val=b''):
        if key not in self.d:
            return False
        if val == b'':
            del self.d[key]
            return True
        if val not in self.d[key]:
            return False
        self.d[key].remove(val)
        if not self.d[key]:
            del self.d[key]
        return True

    def getTopItemIter(self, top=b''):
        return [(k, v) for k, v in self.items() if k.startswith(top)]

    def cntTop(self, top=b''):
        return len(self.getTopItemIter(top))

    def cntAll(self):
        return len(self.items())

    def remTop(self, top=b''):
        ks = [k for k in self.d if k.startswith(top)]
        for k in ks:
            del self.d[k]
        return bool(ks)


class RefIoDup:
    """key -> values in insertion order, each with its insertion ordinal"""

    def __init__(self, sep=b'.'):
        self.d = {}
        self.sep = sep

    def items(self):
        return [(k, b'%032x.' % i + v) for k, vs in sorted(self.d.items()) for i, v in vs]

    def putIoDupVals(self, key, vals):
        if not key or not vals:
            return False
        vs = self.d.get(key, [])
        n = vs[-1][0] + 1 if vs else 0
        new = [v for v in W.dd(vals) if v not in [x for _, x in vs]]
        if new:
            self.d[key] = vs + [(n + i, v) for i, v in enumerate(new)]
        return bool(new)

    def addIoDupVal(self, key, val):
        return self.putIoDupVals(key, [val])

    def getIoDupVals(self, key):
        return [v for _, v in self.d.get(key, [])]

    def getIoDupItemIter(self, key, ion=0):
        return [(key, v) for i, v in self.d.get(key, []) if i >= ion]

    def getIoDupValLast(self, key):
        return self.d[key][-1][1] if key in self.d else None

    def delIoDupVals(self, key):
        return self.d.pop(key, None) is not None

    def delIoDupVal(self, key, val):
        for i, v in self.d.get(key, []):
            if v == val:
                self.d[key] = [x for x in self.d[key] if x[1] != val]
                if not self.d[key]:
                    del self.d[key]
                return True
        return False

    def cntIoDups(self, key):
        return len(self.d.get(key, []))

    def getTopIoDupItemIter(self, top=b''):
        return [(k, v[33:]) for k, v in self.items() if k.startswith(top)]

    def cntAll(self):
        return len(self.items())

    def cntTop(self, top=b''):
        return len(self.getTopIoDupItemIter(top))

    def remTop(self, top=b''):
        ks = [k for k in self.d if k.startswith(top)]
        for k in ks:
            del self.d[k]
        return bool(ks)

    # with ordinals in the key
    def ons(self, key=None, lo=0, hi=MAXON):
        out = []
        for k, v in self.items():
            b, o = W.spl(k, self.sep)
            if (key is None or b == key) and lo <= o <= hi:
                out.append((b, o, v[33:]))
        return out

    def k(self, key, on):
        return W.sfx(key, on, self.sep)

    def putOnIoDupVals(self, key, on=0, vals=()):
        return self.putIoDupVals(self.k(key, on), vals)

    def addOnIoDupVal(self, key, on=0, val=b''):
        return self.addIoDupVal(self.k(key, on), val)

    def appendOnIoDupVal(self, key, val):
        m = max([o for _, o, _ in self.ons(key)], default=-1)
        if m >= MAXON:
            raise ValueError
        self.d[self.k(key, m + 1)] = [(0, val)]
        return m + 1

    def getOnIoDupVals(self, key, on=0):
        return self.getIoDupVals(self.k(key, on))

    def getOnIoDupItemIter(self, key, on=0, ion=0):
        return [(key, on, v) for _, v in self.getIoDupItemIter(self.k(key, on), ion)]

    def getOnIoDupLast(self, key, on=0):
        return self.getIoDupValLast(self.k(key, on))

    def getOnIoDupLastItemIter(self, key=b'', on=0):
        last = {}
        for b, o, v in self.ons(key, on) if key else self.ons():
            last[(b, o)] = v
        return [k + (v,) for k, v in last.items()]

    def getOnIoDupLastValIter(self, key=b'', on=0):
        return [v for _, _, v in self.getOnIoDupLastItemIter(key, on)]

    def delOnIoDups(self, key, on=0):
        return self.delIoDupVals(self.k(key, on))

    def delOnIoDupVal(self, key, on=0, val=b''):
        return self.delIoDupVal(self.k(key, on), val)

    def cntOnIoDups(self, key, on=0):
        return self.cntIoDups(self.k(key, on))

    def getOnIoDupItemBackIter(self, key=b'', on=0):
        return (self.ons(key, 0, on) if key else self.ons())[::-1]

    def getOnIoDupValBackIter(self, key=b'', on=0):
        return [v for _, _, v in self.getOnIoDupItemBackIter(key, on)]

    def getOnTopIoDupItemIter(self, top=b''):
        return [W.spl(k, self.sep) + (v,) for k, v in self.getTopIoDupItemIter(top)]

    def getOnIoDupItemIterAll(self, key=b'', on=0):
        return self.ons(key, on) if key else self.ons()

    def getOnIoDupIterAll(self, key=b'', on=0):
        return [v for _, _, v in self.getOnIoDupItemIterAll(key, on)]

    def cntOnAll(self, key=b'', on=0):
        return len(self.getOnIoDupItemIterAll(key, on))

    def remOnAll(self, key=b'', on=0):
        if not key:
            return self.remTop()
        ks = {self.k(b, o) for b, o, _ in self.ons(key, on)}
        for k in ks:
            del self.d[k]
        return bool(ks)


W.OPS.update({
    'dup': dict(putVals='kW', addVal='kw', getVals='k', getValsIter='k', getValLast='k', cntVals='k', delVals='kx', getTopItemIter='t', cntTop='t', cntAll='',
                remTop='t'),
    'iodup': dict(putIoDupVals='kM', addIoDupVal='kv', getIoDupVals='k', getIoDupItemIter='kI', getIoDupValLast='k', delIoDupVals='k', delIoDupVal='kv',
                  cntIoDups='k', getTopIoDupItemIter='t', cntAll='', cntTop='t', remTop='t'),
    'oniodup': dict(putOnIoDupVals='kOY', addOnIoDupVal='kOv', appendOnIoDupVal='kv', getOnIoDupVals='kO', getOnIoDupItemIter='kOI', getOnIoDupLast='kO',
                    getOnIoDupLastItemIter='KO', getOnIoDupLastValIter='KO', delOnIoDups='kO', delOnIoDupVal='kOv', cntOnIoDups='kO', getOnIoDupItemBackIter='KO',
                    getOnIoDupValBackIter='KO', getOnTopIoDupItemIter='T', getOnIoDupItemIterAll='KO', getOnIoDupIterAll='KO', cntOnAll='KO', remOnAll='KO',
                    cntAll='', remTop='T'),
})
W.WRITES |= {'putVals', 'addVal', 'putIoDupVals', 'addIoDupVal', 'putOnIoDupVals', 'addOnIoDupVal', 'appendOnIoDupVal'}
REFS = {'plain': RefL, 'on': RefL, 'ioset': RefL, 'onioset': RefL, 'dup': RefDup, 'iodup': RefIoDup, 'oniodup': RefIoDup}
_n = itertools.count()
_dbs = {}


def local():
    """one real LMDBer, fresh sub-store per case"""
    from keri.db.dbing import LMDBer
    if 'd' not in _dbs:
        _dbs['d'] = LMDBer(name='c14', temp=True, reopen=True)
    return _dbs['d']


def whole(db, sdb):
    with db.env.begin(db=sdb, write=False, buffers=True) as txn:
        return [(bytes(k), bytes(v)) for k, v in txn.cursor()]


def norm(r):
    if isinstance(r, memoryview):
        return bytes(r)
    if isinstance(r, tuple):
        return tuple(norm(x) for x in r)
    if isinstance(r, list) or hasattr(r, '__next__'):
        return [norm(x) for x in r]
    return r


def hist(kind, n):
    def gen(rng):
        return W.gen_ops(rng, kind, rng.randint(3, 22))

    def check(ops):
        db = local()
        dup = kind in ('dup', 'iodup', 'oniodup')
        i = next(_n)
        sdb = db.env.open_db(b's%d.' % i, dupsort=dup)
        oth = db.env.open_db(b'o%d.' % i)
        try:
            for k in (b'a.' + b'0' * 32, b'z', b'EABC.' + b'0' * 32):
                db.setVal(oth, k, b'keep')
            keep = whole(db, oth)
            ref = REFS[kind]()
            for i, (op, a) in enumerate(ops):
                e = W.apply_ref(ref, op, a)
                try:
                    r = ('ret', norm(getattr(db, op)(sdb, **a)))
                except (KeyError, ValueError) as ex:
                    r = ('raise', 'KeyError' if isinstance(ex, KeyError) else 'ValueError')
                if e != r:
                    return f'step {i} {op}({a}) answered {r} instead of {e}'
                now = whole(db, sdb)
                if now != ref.items():
                    return f'step {i} {op}({a}) left {now} instead of {ref.items()}'
                if whole(db, oth) != keep:
                    return f'step {i} {op} changed another sub-store'
        finally:
            for k in [k for k in db.env.dbs if k]:
                del db.env.dbs[k]
        return None

    def nontrivial(ops):
        return sum(op in W.WRITES for op, _ in ops) >= 3
    return Group('local_' + kind, gen, check, n=n, functions=[FN + x for x in W.OPS[kind]], nontrivial=nontrivial, chunks=2,
                 bound='histories of 3 to 22 operations over up to 4 keys and ordinals including all width boundaries')


# ---- typed layers ----
def recs():
    from dataclasses import dataclass, field
    if 'recs_' not in _dbs:
        @dataclass
        class Inner:
            x: int = 0
            y: str = ''

        @dataclass
        class Rec:
            first: str = ''
            n: int = 0
            flag: bool = False
            many: list = field(default_factory=list)
            inner: Inner = field(default_factory=Inner)
        _dbs['recs_'] = (Rec, Inner)
    return _dbs['recs_']


def pool(what):
    """fixed list of distinct python values of a kind and the projection that identifies them"""
    if what in _dbs:
        return _dbs[what]
    from keri.core import coring, indexing, serdering, signing, scheming
    from keri.core import eventing
    raws = [bytes([i]) * 32 for i in range(5)] + [bytes(range(32))]
    if what == 'text':
        r = (['a', 'b', '0', 'value', 'a.b', 'Zürich', 'x' * 40, '{"a":1}'], lambda v: v)
    elif what == 'b64':
        r = ([('abc', 'def'), ('abc',), ('def', 'abc'), ('-_9',), ('A', 'B', 'C'), ('abcdef',)], lambda v: v)
    elif what == 'matter':
        r = ([coring.Matter(raw=x, code=c) for x in raws for c in ('D', 'B', 'E')], lambda v: v.qb64)
    elif what == 'diger':
        r = ([coring.Diger(raw=x, code=c) for x in raws for c in ('E', 'I')], lambda v: (type(v).__name__, v.qb64))
    elif what == 'number':
        r = ([coring.Number(num=x) for x in (0, 1, 255, 256, 65535, 1 << 32, (1 << 64) - 1)], lambda v: (v.num, v.qb64))
    elif what == 'siger':
        r = ([indexing.Siger(raw=x * 2, index=i) for x in raws for i in (0, 3)], lambda v: (v.index, v.qb64))
    elif what == 'cat':
        r = ([(coring.Number(num=i), coring.Diger(raw=x, code='E'), coring.Prefixer(raw=x, code='B')) for x in raws for i in (0, 7, 300)],
             lambda v: tuple((type(x).__name__, x.qb64) for x in v))
    elif what == 'catsig':
        r = ([(coring.Verfer(raw=x, code='B'), coring.Cigar(raw=x * 2)) for x in raws], lambda v: tuple(x.qb64 for x in v))
    elif what == 'serder':
        ks = [coring.Verfer(raw=x, code='D').qb64 for x in raws]
        ps = [eventing.incept(keys=[k], ndigs=[], code='E') for k in ks]
        r = (ps + [eventing.interact(pre=p.pre, dig=p.said, sn=s) for p in ps for s in (1, 9)], lambda v: (v.raw, v.said))
    elif what == 'schemer':
        r = ([scheming.Schemer(sed={'$id': '', '$schema': 'http://json-schema.org/draft-07/schema#', 'type': 'object', 'title': t}, typ=scheming.JSONSchema(),
                               code='E') for t in 'abcd'], lambda v: v.raw)
    elif what == 'rec':
        Rec, Inner = recs()
        r = ([Rec(), Rec('a', 1, True, [1, 'b'], Inner(3, 'q')), Rec('ü', -5), Rec(many=[[], {'k': 1}]), Rec('a', 2), Rec(inner=Inner(0, 'z'))],
             lambda v: (v.first, v.n, v.flag, repr(v.many), v.inner.x, v.inner.y))
    elif what == 'signer':
        r = ([signing.Signer(raw=x, transferable=t) for x in raws for t in (True, False)], lambda v: (v.qb64, v.verfer.qb64))
    _dbs[what] = r
    return r


def layers():
    if 'layers' in _dbs:
        return _dbs['layers']
    from keri.core import coring, indexing, serdering
    from keri.db import subing as s, koming as k
    cat = dict(klas=(coring.Number, coring.Diger, coring.Prefixer))
    csg = dict(klas=(coring.Verfer, coring.Cigar))
    kk = dict(klas=recs()[0])
    L = [(s.Suber, {}, 'text', 'val'), (s.B64Suber, {}, 'b64', 'val'), (s.CesrSuber, {}, 'matter', 'val'), (s.CesrSuber, dict(klas=coring.Diger), 'diger', 'val'),
         (s.CesrSuber, dict(klas=indexing.Siger), 'siger', 'val'), (s.CesrSuber, dict(klas=coring.Diger, strict=True), 'diger', 'val'),
         (s.CatCesrSuber, cat, 'cat', 'val'), (s.CatCesrSuber, dict(strict=True, **cat), 'cat', 'val'), (s.CatCesrSuber, csg, 'catsig', 'val'),
         (s.SerderSuber, {}, 'serder', 'val'), (s.SchemerSuber, {}, 'schemer', 'val'), (k.Komer, kk, 'rec', 'val'), (k.Komer, dict(kind='CBOR', **kk), 'rec', 'val'),
         (k.Komer, dict(kind='MGPK', **kk), 'rec', 'val'),
         (s.OnSuber, {}, 'text', 'on'), (s.CesrOnSuber, dict(klas=coring.Diger), 'diger', 'on'),
         (s.IoSetSuber, {}, 'text', 'ioset'), (s.B64IoSetSuber, {}, 'b64', 'ioset'), (s.CesrIoSetSuber, dict(klas=indexing.Siger), 'siger', 'ioset'),
         (s.CatCesrIoSetSuber, cat, 'cat', 'ioset'), (s.CatCesrIoSetSuber, csg, 'catsig', 'ioset'), (s.SerderIoSetSuber, {}, 'serder', 'ioset'),
         (k.IoSetKomer, kk, 'rec', 'ioset'), (k.IoSetKomer, dict(kind='CBOR', **kk), 'rec', 'ioset'),
         (s.OnIoSetSuber, {}, 'text', 'onioset'), (s.B64OnIoSetSuber, {}, 'b64', 'onioset'),
         (s.DupSuber, {}, 'text', 'dup'), (s.CesrDupSuber, dict(klas=coring.Diger), 'diger', 'dup'), (s.CatCesrDupSuber, cat, 'cat', 'dup'), (k.DupKomer, kk, 'rec', 'dup'),
         (s.IoDupSuber, {}, 'text', 'iodup'), (s.B64IoDupSuber, {}, 'b64', 'iodup'),
         (s.OnIoDupSuber, {}, 'text', 'oniodup'), (s.B64OnIoDupSuber, {}, 'b64', 'oniodup')]
    _dbs['layers'] = L
    return L


# layer kind -> operation -> (argument letters, model operation, result shape)
# letters: k keys, p prefix keys, o ordinal, v value, m several values, i insertion ordinal; shapes: raw, val, vals, kv, kvs, okv, okvs
LOPS = {
    'val': dict(put=('kv', 'putVal', 'raw'), pin=('kv', 'setVal', 'raw'), get=('k', 'getVal', 'val'), rem=('k', 'remVal', 'raw'), cnt=('', 'cntAll', 'raw'),
                getTopItemIter=('p', 'getTopItemIter', 'kvs'), trim=('p', 'remTop', 'raw'), getFullItemIter=('p', 'getTopItemIter', 'kvs')),
    'on': dict(put=('kov', 'putOnVal', 'raw'), pin=('kov', 'pinOnVal', 'raw'), append=('kv', 'appendOnVal', 'raw'), getItem=('ko', 'getOnItem', 'okv'),
               get=('ko', 'getOnVal', 'val'), rem=('ko', 'remOn', 'raw'), remAll=('ko', 'remOnAll', 'raw'), cnt=('ko', 'cntOnAll', 'raw'),
               cntAll=('ko', 'cntOnAll', 'raw'), getTopItemIter=('p', 'getOnTopItemIter', 'okvs'), getAllItemIter=('ko', 'getOnAllItemIter', 'okvs'),
               getAllIter=('ko', 'getOnAllItemIter', 'ovals'), trim=('p', 'remTop', 'raw')),
    'ioset': dict(put=('km', 'putIoSetVals', 'raw'), pin=('km', 'pinIoSetVals', 'raw'), add=('kv', 'addIoSetVal', 'raw'), get=('ki', 'getIoSetItemIter', 'kvals'),
                  getItem=('ki', 'getIoSetItemIter', 'kvs'), getItemIter=('ki', 'getIoSetItemIter', 'kvs'), getIter=('k', 'getIoSetItemIter', 'kvals'),
                  getLastItem=('k', 'getIoSetLastItem', 'kv'), getLast=('k', 'getIoSetLastItem', 'kval'), rem=('k', 'remIoSet', 'raw'),
                  remval=('kv', 'remIoSetVal', 'raw'), cnt=('ki', 'cntIoSet', 'raw'), getTopItemIter=('p', 'getTopIoSetItemIter', 'kvs'),
                  getLastIter=('k', 'getIoSetLastIterAll', 'vals'), getLastItemIter=('k', 'getIoSetLastItemIterAll', 'kvs'), trim=('p', 'remTop', 'raw')),
    'onioset': dict(put=('kom', 'putOnIoSetVals', 'raw'), pin=('kom', 'pinOnIoSetVals', 'raw'), append=('km', 'appendOnIoSetVals', 'raw'),
                    add=('kov', 'addOnIoSetVal', 'raw'), getItem=('koi', 'getOnIoSetItemIter', 'okvs'), get=('koi', 'getOnIoSetItemIter', 'ovals'),
                    getItemIter=('koi', 'getOnIoSetItemIter', 'okvs'), getIter=('koi', 'getOnIoSetItemIter', 'ovals'), getLastItem=('ko', 'getOnIoSetLastItem', 'okv'),
                    getLast=('ko', 'getOnIoSetLastItem', 'oval'), rem=('ko', 'remOnIoSetVal', 'raw'), remval=('kov', 'remOnIoSetVal', 'raw'),
                    remAll=('ko', 'remOnAllIoSet', 'raw'), cnt=('koi', 'cntOnIoSet', 'raw'), cntAll=('ko', 'cntOnAllIoSet', 'raw'),
                    getTopItemIter=('p', 'getOnTopIoSetItemIter', 'okvs'), getAllItemIter=('ko', 'getOnAllIoSetItemIter', 'okvs'),
                    getAllIter=('ko', 'getOnAllIoSetItemIter', 'ovals'), getAllLastItemIter=('ko', 'getOnAllIoSetLastItemIter', 'okvs'),
                    getAllLastIter=('ko', 'getOnAllIoSetLastItemIter', 'ovals'), getAllItemBackIter=('kO', 'getOnAllIoSetItemBackIter', 'okvs'),
                    getAllBackIter=('kO', 'getOnAllIoSetItemBackIter', 'ovals'), getAllLastItemBackIter=('kO', 'getOnAllIoSetLastItemBackIter', 'okvs'),
                    getAllLastBackIter=('kO', 'getOnAllIoSetLastItemBackIter', 'ovals'), trim=('p', 'remTop', 'raw')),
    'dup': dict(put=('km', 'putVals', 'raw'), pin=('km', 'pin', 'raw'), add=('kv', 'addVal', 'raw'), get=('k', 'getVals', 'vals'), getIter=('k', 'getVals', 'vals'),
                getLast=('k', 'getValLast', 'val'), cnt=('k', 'cntVals', 'raw'), rem=('k', 'delVals', 'raw'), remval=('kv', 'delVals', 'raw'),
                getTopItemIter=('p', 'getTopItemIter', 'kvs'), trim=('p', 'remTop', 'raw')),
    'iodup': dict(put=('km', 'putIoDupVals', 'raw'), pin=('km', 'pin', 'raw'), add=('kv', 'addIoDupVal', 'raw'), get=('k', 'getIoDupVals', 'vals'),
                  getItemIter=('ki', 'getIoDupItemIter', 'kvs'), getIter=('ki', 'getIoDupItemIter', 'kvals'), getLast=('k', 'getIoDupValLast', 'val'),
                  rem=('k', 'delIoDupVals', 'raw'), remval=('kv', 'delIoDupVal', 'raw'), cnt=('k', 'cntIoDups', 'raw'),
                  getTopItemIter=('p', 'getTopIoDupItemIter', 'kvs'), trim=('p', 'remTop', 'raw')),
    'oniodup': dict(put=('kom', 'putOnIoDupVals', 'raw'), getItem=('koi', 'getOnIoDupItemIter', 'okvs'), pin=('kom', 'pinOn', 'raw'), add=('kov', 'addOnIoDupVal', 'raw'), append=('kv', 'appendOnIoDupVal', 'raw'),
                    get=('ko', 'getOnIoDupVals', 'vals'), getItemIter=('koi', 'getOnIoDupItemIter', 'okvs'), getIter=('koi', 'getOnIoDupItemIter', 'ovals'),
                    getLast=('ko', 'getOnIoDupLast', 'val'), rem=('ko', 'delOnIoDups', 'raw'), remval=('kov', 'delOnIoDupVal', 'raw'),
                    cnt=('ko', 'cntOnIoDups', 'raw'), getTopItemIter=('p', 'getOnTopIoDupItemIter', 'okvs'), getAllItemIter=('ko', 'getOnIoDupItemIterAll', 'okvs'),
                    getAllIter=('ko', 'getOnIoDupIterAll', 'vals'), getLastIter=('ko', 'getOnIoDupLastValIter', 'vals'),
                    getLastItemIter=('ko', 'getOnIoDupLastItemIter', 'okvs'), getItemBackIter=('ko', 'getOnIoDupItemBackIter', 'okvs'),
                    getBackIter=('ko', 'getOnIoDupValBackIter', 'vals'), remAll=('ko', 'remOnAll', 'raw'), cntAll=('ko', 'cntOnAll', 'raw'),
                    trim=('p', 'remTop', 'raw')),
}
LREFS = {'val': RefL, 'on': RefL, 'ioset': RefL, 'onioset': RefL, 'dup': RefDup, 'iodup': RefIoDup, 'oniodup': RefIoDup}
LKEYS = [('k', 'x'), ('k', 'y'), ('kx',), ('EABC', 'zz'), ('EABC', 'zzz'), ('q', '', 'r'), ('m',)]
LW = ('put', 'pin', 'add', 'append')
NOKEY = {'remAll', 'cntAll', 'cnt', 'getAllItemIter', 'getAllIter', 'getAllLastItemIter', 'getAllLastIter', 'getAllItemBackIter', 'getAllBackIter',
         'getAllLastItemBackIter', 'getAllLastBackIter', 'getLastIter', 'getLastItemIter', 'getItemBackIter', 'getBackIter'}    # no keys: the whole sub-store


def count_all(layer, ref):
    """what cnt() answers without keys"""
    return 0 if layer == 'on' else ref.cntAll()


def gen_layer(rng):
    n = rng.randrange(34)
    sep = rng.choice(['.', '.', '|', '^', '>', '!', ','])
    keys = rng.sample(LKEYS, rng.randint(2, 4))
    kind = KINDS[n]
    ops = []
    ords = rng.sample(W.ORDS[:-1], 3)
    for _ in range(rng.randint(3, 16)):
        op = rng.choice(LW) if rng.random() < .5 else rng.choice(list(LOPS[kind]))
        if op not in LOPS[kind]:
            continue
        a = []
        for c in LOPS[kind][op][0]:
            if c == 'k':
                a.append(() if op in NOKEY and rng.random() < .2 else rng.choice(keys))
            elif c == 'p':
                k = rng.choice(keys)
                a.append(rng.choice([k, k[:1] + ('',), (), ('topive',) + k[:1], ('topive',) + k[:1] + ('',), ('topive',) + k]))
            elif c == 'o':
                a.append(rng.choice(ords) if rng.random() < .7 else rng.randint(0, 3))
            elif c == 'O':
                a.append(rng.choice(ords + [None, 1]))
            elif c == 'i':
                a.append(rng.choice([0, 0, 1, 2]))
            elif c == 'v':
                a.append(rng.randrange(40))
            elif c == 'm':
                a.append([rng.randrange(40) for _ in range(rng.randint(1, 4) if op == 'append' or rng.random() < .93 else 0)])
        ops.append((op, a))
    return [n, sep, rng.choice([0, 0, 1, 2, 3]), ops]


KINDS = ['val'] * 14 + ['on'] * 2 + ['ioset'] * 8 + ['onioset'] * 2 + ['dup'] * 4 + ['iodup'] * 2 + ['oniodup'] * 2


def form_of(what, vals, x):
    """the value itself, or another form of it that the layer takes for the same"""
    v, f = vals[x % len(vals)], x // len(vals)
    if what == 'text':
        return (v, v.encode(), v, memoryview(v.encode()))[f % 4]
    if what == 'b64':
        if len(v) == 1:
            return (v, v[0], v[0].encode(), memoryview(v[0].encode()), [v[0].encode()])[f % 5]
        return (v, list(v), tuple(y.encode() for y in v))[f % 3]
    return v


def gen_non64(rng):
    bad = rng.choice(['a!c', 'a c', 'é', 'a+b', 'a/b', 'a=', 'a\nb', 'a,b'])
    return [rng.choice([17, 25, 31, 33, 1, 15]), rng.randrange(5), bad, rng.random() < .5]


def check_non64(case):
    """text that is not Base64URL is refused by the layers for such text, and nothing is stored"""
    n, form, bad, after = case
    cls, kw, what, kind = next(x for x in layers()[n:] + layers() if x[2] == 'b64')
    db = local()
    try:
        sub = cls(db=db, subkey='s%d.' % next(_n), **kw)
        good = 'abc'
        v = [bad, bad.encode(), memoryview(bad.encode()), (good, bad) if after else (bad, good), [bad.encode()]][form]
        on = (1,) if 'on' in kind and kind != 'dup' else ()
        f, arg = (sub.put, v) if kind == 'val' else (sub.add, v)
        try:
            r = f(('k', 'x'), *on, arg)
        except ValueError:
            if whole(db, sub.sdb):
                return 'refused but stored something'
            return None
        return f'{cls.__name__} took {v!r} and answered {r}'
    finally:
        for k in [k for k in db.env.dbs if k]:
            del db.env.dbs[k]


def check_layer(case):
    n, sep, form, ops = case
    cls, kw, what, kind = layers()[n]
    need(kind == KINDS[n], 'layer table')
    vals, proj = pool(what)
    db = local()
    try:
        sub = cls(db=db, subkey='s%d.' % next(_n), **dict(kw, sep=sep))
        ser = {}
        tok = {}
        for i, v in enumerate(vals):
            tok[i] = bytes(sub._ser(v))
            ser[tok[i]] = proj(v)
        if len(ser) != len(vals):
            return 'two values serialise alike'
        ref = LREFS[kind](sep.encode())
        for i, (op, a) in enumerate(ops):
            letters, mop, shape = LOPS[kind][op]
            f = getattr(sub, 'rem' if op == 'remval' else op, None)
            if f is None:
                continue
            if letters and letters[0] == 'k' and not a[0]:
                import inspect
                if inspect.signature(f).parameters['keys'].default is inspect.Parameter.empty:
                    continue
            ra, ma, top = [], {}, False
            for c, x in zip(letters, a):
                if c == 'p' and x[:1] == ('topive',):
                    import inspect
                    x, top = x[1:], 'topive' in inspect.signature(f).parameters
                    ma['top'] = (sep.join(x) + (sep if x[-1] else '')).encode() if top else sep.join(x).encode()
                    ra.append(x)
                elif c in 'kp':
                    kb = sep.join(x)
                    ma['key' if c == 'k' else 'top'] = kb.encode()
                    ra.append(tuple(x) if form == 0 and x else kb if form < 2 else kb.encode() if form == 2 else memoryview(kb.encode()))
                elif c in 'oO':
                    ma['on'] = x
                    ra.append(x)
                elif c == 'i':
                    import inspect
                    if 'ion' in inspect.signature(f).parameters:
                        ma['ion'] = x
                        ra.append(('ion', x))
                    else:
                        ma['ion'] = 0
                elif c == 'v':
                    ma['val'] = tok[x % len(vals)]
                    ra.append(form_of(what, vals, x))
                elif c == 'm':
                    ma['vals'] = [tok[y % len(vals)] for y in x]
                    ra.append([form_of(what, vals, y) for y in x])
            try:
                if mop in ('pin', 'pinOn'):  # duplicates layers pin by removing then putting
                    if mop == 'pin':
                        ref.d.pop(ma['key'], None)
                        e = ('ret', (ref.putVals if kind == 'dup' else ref.putIoDupVals)(ma['key'], ma['vals']))
                    else:
                        ref.d.pop(ref.k(ma['key'], ma['on']), None)
                        e = ('ret', ref.putOnIoDupVals(ma['key'], ma['on'], ma['vals']))
                elif op == 'cnt' and letters and not a[0]:
                    e = ('ret', count_all(kind, ref))
                else:
                    e = ('ret', getattr(ref, mop)(**ma))
            except ValueError:
                e = ('raise', 'ValueError')
            kws = dict(topive=True) if top else {}
            pos = []
            for x in ra:
                if isinstance(x, tuple) and x and x[0] == 'ion':
                    kws['ion'] = x[1]
                else:
                    pos.append(x)
            try:
                r = f(*pos, **kws)
                if hasattr(r, '__next__'):
                    r = list(r)
                r = ('ret', r)
            except ValueError as ex:
                if e[0] != 'raise':
                    return f'step {i} {cls.__name__} sep={sep} {op}{a} raised {ex!r} instead of answering {e[1]}'
                continue
            if e[0] == 'raise':
                return f'step {i} {cls.__name__} {op}{a} answered {r[1]} instead of refusing'
            want = e[1]
            V = lambda b: None if b is None else ser[b]
            P = lambda v: None if v is None else proj(v)
            K = lambda k: tuple(k.decode().split(sep))
            got = r[1]
            if shape == 'val':
                want, got = V(want), P(got)
            elif shape == 'vals':
                want, got = [V(x) for x in want], [P(x) for x in got]
            elif shape == 'kvals':
                want, got = [V(v) for _, v in want], [P(x) for x in got]
            elif shape == 'ovals':
                want, got = [V(v) for _, _, v in want], [P(x) for x in got]
            elif shape == 'kvs':
                want, got = [(K(k), V(v)) for k, v in want], [(k, P(v)) for k, v in got]
            elif shape == 'okvs':
                want, got = [(K(k), o, V(v)) for k, o, v in want], [(k, o, P(v)) for k, o, v in got]
            elif shape == 'kv':
                want, got = (K(want[0]), V(want[1])) if want else (), (got[0], P(got[1])) if got else ()
            elif shape == 'okv':
                want, got = (K(want[0]),) + (want[1], V(want[2])) if want else None, tuple(got[:2]) + (P(got[2]),) if got else None
            elif shape == 'kval':
                want, got = V(want[1]) if want else None, P(got)
            elif shape == 'oval':
                want, got = V(want[2]) if want else None, P(got)
            if want != got:
                return f'step {i} {cls.__name__} sep={sep} {op}{a} answered {got} instead of {want}'
            if whole(db, sub.sdb) != ref.items():
                return f'step {i} {cls.__name__} sep={sep} {op}{a} left {whole(db, sub.sdb)} instead of {ref.items()}'
    finally:
        for k in [k for k in db.env.dbs if k]:
            del db.env.dbs[k]
    return None


def gen_signers(rng):
    return [rng.sample(range(12), rng.randint(1, 6)), rng.random() < .5, rng.choice(['.', '|'])]


def check_signers(case):
    """signers are read back with the secret and the transferability their public key says"""
    from keri.db import subing as s
    from keri.core import signing
    idx, crypt, sep = case
    vals, proj = pool('signer')
    db = local()
    try:
        if crypt:
            sub = s.CryptSignerSuber(db=db, subkey='s%d.' % next(_n), sep=sep)
            seed = signing.Signer(raw=b'\x07' * 32)
            enc = signing.Encrypter(verkey=seed.verfer.qb64)
            dec = signing.Decrypter(seed=seed.qb64)
        else:
            sub = s.SignerSuber(db=db, subkey='s%d.' % next(_n), sep=sep)
        have = {}
        for i in idx:
            v = vals[i]
            k = ('p', v.verfer.qb64)
            if crypt:
                if sub.put(k, v, encrypter=enc) is not True or sub.put(k, v, encrypter=enc) is not False:
                    return 'put answered wrong'
                if any(v.qb64b in x or v.raw in x for _, x in whole(db, sub.sdb)):
                    return 'a secret is stored in the clear'
                g = sub.get(k, decrypter=dec)
            else:
                sub.put(k, v)
                g = sub.get(k)
            have[k] = proj(v)
            if proj(g) != proj(v):
                return f'{proj(v)} came back as {proj(g)}'
        got = {k: proj(v) for k, v in (sub.getTopItemIter(decrypter=dec) if crypt else sub.getTopItemIter())}
        if got != have:
            return f'iteration gave {got} instead of {have}'
        if not crypt and sub.get(('p', vals[0].verfer.qb64)) is None and 0 in idx:
            return 'lost'
    finally:
        for k in [k for k in db.env.dbs if k]:
            del db.env.dbs[k]
    return None


SUB = 'src/keri/db/subing.py:'
KOM = 'src/keri/db/koming.py:'
GROUPS = [hist(k, 2500 if k in ('plain', 'dup', 'iodup') else 4500) for k in REFS] + [
    Group('layers', gen_layer, check_layer, n=7000, chunks=4, nontrivial=lambda c: sum(o in LW for o, _ in c[3]) >= 2,
          functions=[SUB + x for x in ('SuberBase', 'Suber', 'OnSuberBase', 'OnSuber', 'B64SuberBase', 'B64Suber', 'CesrSuberBase', 'CesrSuber', 'CesrOnSuber',
                                       'CatCesrSuberBase', 'CatCesrSuber', 'IoSetSuber', 'B64IoSetSuber', 'CesrIoSetSuber', 'CatCesrIoSetSuber', 'SerderSuberBase',
                                       'SerderSuber', 'SerderIoSetSuber', 'SchemerSuber', 'DupSuber', 'CesrDupSuber', 'CatCesrDupSuber', 'IoDupSuber',
                                       'B64IoDupSuber', 'OnIoDupSuber', 'B64OnIoDupSuber', 'OnIoSetSuber', 'B64OnIoSetSuber')]
          + [KOM + x for x in ('KomerBase', 'Komer', 'IoSetKomer', 'DupKomer')],
          bound='histories of 3 to 16 operations through each typed layer with five separators'),
    Group('non64', gen_non64, check_non64, n=60, functions=[SUB + 'B64SuberBase._toval']),
    Group('signers', gen_signers, check_signers, n=60, functions=[SUB + 'SignerSuber', SUB + 'CryptSignerSuber'])]
ASSUMPTIONS = ['keys of one sub-store do not extend one another by separator and ordinal (key spaces do not clash)',
               'duplicate-value layers hold no empty values (LMDB reads an empty value as all values on removal)']
