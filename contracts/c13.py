"""C13: ordinal database keys are ordered, injective and reversible."""
import datetime
from .base import *

D = 'src/keri/db/dbing.py:'
W = 'src/keri/db/webdbing.py:'
FN = [D + x for x in ('onKey', 'snKey', 'fnKey', 'dgKey', 'dtKey', 'splitKey', 'splitOnKey', 'splitKeyDT', 'suffix', 'unsuffix')] + \
     [W + x for x in ('onKey', 'splitKey', 'splitOnKey', 'suffix', 'unsuffix')] + ['src/keri/core/coring.py:Number.onkey']
MAX = (1 << 128) - 1


def on(rng):
    k = rng.random()
    if k < .3:
        return rng.randint(0, 40)
    if k < .5:
        return rng.choice([9, 10, 15, 16, 17, 31, 32, 99, 100, 255, 256, 257, 4095, 4096, 65535, 65536, MAX, MAX - 1, 1 << 64, (1 << 64) - 1])
    return rng.getrandbits(rng.randint(1, 128))


def top(rng):
    s = ''.join(rng.choice('ab.AZ09_-|é') for _ in range(rng.randint(0, 8)))
    if rng.random() < .4:
        s = 'D' + ''.join(rng.choice('abcXYZ019-_') for _ in range(43))
    if rng.random() < .1:
        s += '.%032x' % on(rng)
    return s


def gen(rng):
    t = [top(rng) for _ in range(rng.randint(1, 3))]
    return [(rng.choice(t), on(rng)) for _ in range(rng.randint(2, 6))], rng.choice(['.', '.', '.', '|', '/', '..']), rng.randrange(4)


def forms(t, f):
    return [t, t.encode(), t.encode(), t][f]


def check(case):
    from keri.db import dbing, webdbing
    from keri.core.coring import Number
    pairs, sep, f = case
    for m in (dbing, webdbing):
        keys = {}
        for t, o in pairs:
            k = m.onKey(forms(t, f), o, sep=sep.encode())
            want = t.encode() + sep.encode() + b'%032x' % o
            if not isinstance(k, bytes) or k != want:
                return f'{m.__name__} onKey({t!r},{o}) is {k!r}'
            keys[t, o] = k
            kk = [k, k.decode(), memoryview(k)][f % 3]
            a = m.splitOnKey(kk, sep=sep.encode() if f < 2 else sep)
            wt = t if isinstance(kk, str) else t.encode()
            if tuple(a) != (wt, o):
                return f'{m.__name__} splitOnKey({kk!r}) is {a}'
            a = m.splitKey(kk, sep=sep.encode() if f < 2 else sep)
            wo = '%032x' % o
            if tuple(a) != (wt, wo if isinstance(kk, str) else wo.encode()):
                return f'{m.__name__} splitKey({kk!r}) is {a}'
            s = m.suffix([t, t.encode(), memoryview(t.encode())][f % 3], o, sep=sep if f % 2 else sep.encode())
            if s != want:
                return f'{m.__name__} suffix({t!r},{o}) is {s!r}'
            u = m.unsuffix([s, s.decode(), memoryview(s)][f % 3], sep=sep if f % 2 else sep.encode())
            if tuple(u) != (t.encode(), o):
                return f'{m.__name__} unsuffix({s!r}) is {u}'
            if m is dbing and sep == '.':
                for fn, sp in ((m.snKey, m.splitSnKey), (m.fnKey, m.splitFnKey)):
                    k2 = fn(forms(t, f), o)
                    if k2 != want or tuple(sp(k2)) != (t.encode(), o):
                        return f'{fn.__name__}({t!r},{o}) is {k2!r}'
            if m is dbing and Number(num=o).onkey != '%032x' % o:
                return f'Number({o}).onkey is {Number(num=o).onkey}'
        for (t, o), k in keys.items():
            for (t2, o2), k2 in keys.items():
                if t == t2 and (o < o2) != (k < k2):
                    return f'{m.__name__}: order of {o} and {o2} under {t!r} is not that of their keys'
                if ((t, o) == (t2, o2)) != (k == k2):
                    return f'{m.__name__}: keys of {(t, o)} and {(t2, o2)} coincide'
    return None


def gen_bad(rng):
    return top(rng), rng.choice([-1, -2, -rng.randint(1, 1 << 70), MAX + 1, MAX + 2, (MAX + 1) * 16, MAX + rng.randint(1, 1 << 80), 'abc', None, 1.5]), rng.randrange(3)


def check_bad(case):
    from keri.db import dbing, webdbing
    t, o, f = case
    for m in (dbing, webdbing):
        for g in [m.onKey, m.suffix] + ([m.snKey, m.fnKey] if m is dbing else []):
            try:
                k = g(t.encode() if f else t, o)
            except (ValueError, TypeError):
                continue
            return f'{m.__name__}.{g.__name__}({t!r}, {o}) answers {k!r}'
        bad = [t.replace('.', '') + '', (t + 'x').replace('.', ''), t + '.zz', t + '.', '.' + t.replace('.', '') + 'g']
        b = bad[abs(hash(str(o))) % len(bad)] if not isinstance(o, int) else bad[o % len(bad)]
        try:
            k = m.splitOnKey(b if f else b.encode())
        except ValueError:
            continue
        return f'{m.__name__}.splitOnKey({b!r}) answers {k}'
    return None


def gen_dg(rng):
    return [(top(rng).replace('.', ''), top(rng).replace('.', '')) for _ in range(3)], rng.randrange(4), rng.randint(0, 1 << 50)


def check_dg(case):
    from keri.db import dbing
    from keri.help import helping
    prs, f, us = case
    seen = {}
    for p, d in prs:
        k = dbing.dgKey(forms(p, f), forms(d, (f + 1) % 4))
        if seen.setdefault(k, (p, d)) != (p, d):
            return f'dgKey of {seen[k]} and {(p, d)} coincide'
        a = dbing.splitKey(k)
        if tuple(a) != (p.encode(), d.encode()):
            return f'splitKey({k!r}) is {a}'
        dt = datetime.datetime(2021, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=us)
        dts = helping.toIso8601(dt)
        p2 = p.replace('|', '')
        k = dbing.dtKey(forms(p2, f), dts)
        a = dbing.splitKeyDT(k if f else memoryview(k))
        if tuple(a) != (p2.encode(), dt):
            return f'splitKeyDT({k!r}) is {a}'
    return None


GROUPS = [
    Group('ordinal_keys', gen, check, n=4000, functions=FN),
    Group('refused', gen_bad, check_bad, n=2000, functions=FN),
    Group('digest_keys', gen_dg, check_dg, n=1500, functions=FN),
]
