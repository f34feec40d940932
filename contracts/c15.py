"""C15: web store operations against the abstract ordered map."""
from .base import *
from . import webmodel as W

SEPS = [b'.', b'.', b'.', b'|', b'::', b'!', b',']
FN = 'src/keri/db/webdbing.py:WebDBer.'
RULE = 'random operation histories over a sub-store, every answer and the whole content compared with the abstract map after each operation; ' \
       'non-trivial when at least three operations changed the store'


def hist(kind):
    def gen(rng):
        sep = rng.choice(SEPS) if kind != 'plain' else b'.'
        return sep, W.gen_ops(rng, kind, rng.randint(3, 22), sep)

    def check(case):
        sep, ops = case
        from keri.db.webdbing import WebDBer
        be = W.Backend()
        dber = W.drive(WebDBer.open('t', ['s.', 'other.'], storageOpener=be.open))
        sdb = dber.env.open_db('s.')
        oth = dber.env.open_db('other.')
        for k in (b'a.' + b'0' * 32, b'z', b'EABC.' + b'0' * 32):
            dber.setVal(oth, k, b'keep')
        keep = dict(oth.items)
        ref = W.Ref(sep)
        for i, (op, a) in enumerate(ops):
            e = W.apply_ref(ref, op, a)
            r = W.apply_real(dber, sdb, op, a, None if sep == b'.' else sep)
            if e != r:
                return f'step {i} {op}({a}) answered {r} instead of {e}'
            now = sorted(sdb.items.items())
            if now != ref.items():
                return f'step {i} {op}({a}) left {now} instead of {ref.items()}'
            if dict(oth.items) != keep:
                return f'step {i} {op} changed another sub-store'
        return None

    def nontrivial(case):
        return sum(op in W.WRITES for op, _ in case[1]) >= 3
    return Group('history_' + kind, gen, check, n=16000, functions=[FN + x for x in W.OPS[kind]], nontrivial=nontrivial, chunks=2,
                 bound='histories of 3 to 22 operations over up to 4 keys and ordinals including all width boundaries')


def gen_codec(rng):
    return {rng.choice(W.BASE) + bytes(rng.randrange(256) for _ in range(rng.randint(0, 5))): bytes(rng.randrange(256) for _ in range(rng.randint(0, 8)))
            for _ in range(rng.randint(0, 6))}


def check_codec(d):
    from keri.db import webdbing as m
    for raw in (m._serialize_records(d), m._serialize_records(d).encode()):
        if m._deserialize_records(raw) != d:
            return f'records {d} come back as {m._deserialize_records(raw)}'
    return None


def gen_key(rng):
    return (rng.choice([k for k in W.BASE if k]), rng.choice(W.ORDS), rng.choice(W.ORDS), rng.choice([b'.', b'|', '.', b'::']), rng.random() < .3)


def check_key(c):
    from keri.db import webdbing as m
    key, a, b, sep, text = c
    if text:
        try:
            key = key.decode()
        except UnicodeDecodeError:
            raise Skip()
    kb = key.encode() if isinstance(key, str) else key
    sb = sep.encode() if isinstance(sep, str) else sep
    want = kb + sb + b'%032x' % a
    if m.suffix(key, a, sep=sep) != want:
        return f'suffix({key!r},{a}) = {m.suffix(key, a, sep=sep)!r}'
    if m.onKey(key, a, sep=sb) != want:
        return f'onKey({key!r},{a}) = {m.onKey(key, a, sep=sb)!r}'
    for w in (want, memoryview(want)):
        if m.unsuffix(w, sep=sep) != (kb, a):
            return f'unsuffix({want!r}) = {m.unsuffix(w, sep=sep)}'
        if m.splitOnKey(w, sep=sb) != (kb, a):
            return f'splitOnKey({want!r}) = {m.splitOnKey(w, sep=sb)}'
    if (m.onKey(kb, a, sep=sb) < m.onKey(kb, b, sep=sb)) != (a < b):
        return 'ordinal order is not key order'
    return None


GROUPS = [hist(k) for k in W.OPS] + [
    Group('records_codec', gen_codec, check_codec, n=1500, functions=['src/keri/db/webdbing.py:_serialize_records', 'src/keri/db/webdbing.py:_deserialize_records']),
    Group('ordinal_keys', gen_key, check_key, n=2000, functions=['src/keri/db/webdbing.py:' + x for x in ('onKey', 'suffix', 'unsuffix', 'splitOnKey', 'splitKey')])]
ASSUMPTIONS = ['keys of one sub-store do not extend one another by separator and ordinal (key spaces do not clash)']
