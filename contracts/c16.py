"""C16: what the web store holds survives flush and reopen, whatever the history, failures and interleavings."""
import asyncio
from .base import *
from . import webmodel as W

ERRORS = dict(OSError=OSError, ValueError=ValueError, CancelledError=asyncio.CancelledError, KeyboardInterrupt=KeyboardInterrupt)
FN = 'src/keri/db/webdbing.py:WebDBer.'
STORES = ['plain.', 'on.', 'ioset.', 'onioset.', 'idle.']
RULE = 'operation histories over four sub-stores with flushes, reopenings, storage failures at every event and operations run while a flush is pending; ' \
       'the reopened content is compared with the abstract content; non-trivial when something was written and reopened'


def gen(rng, faults, inter):
    steps = []
    pool = {k: W.gen_ops(rng, k, 8) for k in W.OPS}
    for _ in range(rng.randint(3, 20)):
        r = rng.random()
        if r < .62:
            k = rng.choice(list(W.OPS))
            if pool[k]:
                steps.append(('op', k) + pool[k].pop())
        elif r < .66:
            steps.append(('ver', rng.choice(['1.0', '2.0.0', 'x'])))
        elif r < .9:
            work = []
            if inter:
                for _ in range(rng.randint(0, 3)):
                    k = rng.choice(list(W.OPS))
                    if pool[k]:
                        work.append((k,) + pool[k].pop())
            steps.append(('flush', (rng.randint(1, 12), rng.choice(sorted(ERRORS))) if faults and rng.random() < .6 else None, work))
        else:
            steps.append(('reopen',))
    steps += [('flush', None, []), ('reopen',)]
    return steps


def check(steps):
    from keri.db.webdbing import WebDBer
    be = W.Backend()
    refs = {k: W.Ref() for k in W.OPS}
    ver = None

    def opened(**kw):
        d = W.drive(WebDBer.open('t', STORES, storageOpener=be.open, **kw))
        return d, {k: d.env.open_db(k + '.') for k in W.OPS}
    dber, subs = opened()
    lost = None
    dirty_ref = True      # something not flushed yet

    def do(k, op, a):
        e = W.apply_ref(refs[k], op, a)
        r = W.apply_real(dber, subs[k], op, a)
        if e != r:
            raise Bad(f'{op}({a}) answered {r} instead of {e}')
    for st in steps:
        if st[0] == 'op':
            do(*st[1:])
        elif st[0] == 'ver':
            dber.version = ver = st[1]
        elif st[0] == 'flush':
            be.n, (be.fail, kind) = 0, st[1] or (None, 'OSError')
            be.error = ERRORS[kind]
            be.work = [lambda w=w: do(*w) for w in st[2]]
            try:
                W.drive(dber.flush())
            except (OSError, ValueError, asyncio.CancelledError, GeneratorExit, KeyboardInterrupt):
                pass
            be.fail = None
            be.work = []
        elif st[0] == 'reopen':
            be.n, be.fail, be.work = 0, None, []
            W.drive(dber.flush())
            dber, subs = opened()
            for k in W.OPS:
                now = sorted(subs[k].items.items())
                if now != refs[k].items():
                    return f'{k} store reopened with {now} instead of {refs[k].items()}'
            if dber.version != ver:
                return f'version reopened as {dber.version!r} instead of {ver!r}'
    n = W.drive(dber.flush())
    if n:
        return f'flush right after reopening wrote {n} unchanged stores'
    return None


def single(rng):
    k = rng.choice(list(W.OPS))
    return (k, W.gen_ops(rng, k, rng.randint(0, 8)), W.gen_ops(rng, k, 6))


def check_single(c):
    """after a flush, one more operation: whatever it changed must be written by the next flush"""
    k, ops, tries = c
    from keri.db.webdbing import WebDBer
    for op, a in tries:
        be = W.Backend()
        d = W.drive(WebDBer.open('t', STORES, storageOpener=be.open))
        s = d.env.open_db(k + '.')
        for o2, a2 in ops:
            W.apply_real(d, s, o2, a2)
        W.drive(d.flush())
        before = dict(s.items)
        W.apply_real(d, s, op, a)
        W.drive(d.flush())
        d2 = W.drive(WebDBer.open('t', STORES, storageOpener=be.open))
        s2 = d2.env.open_db(k + '.')
        if dict(s2.items) != dict(s.items):
            return f'{op}({a}) after flush is lost: {dict(s2.items)} instead of {dict(s.items)} (before {before})'
    return None


def gen_open(rng):
    return (rng.sample(['a.', 'b.', 'c.', 'd.'], rng.randint(1, 4)), {x: rng.random() < .5 for x in 'abcd'}, rng.random() < .3)


def check_open(c):
    stores, dup, bts = c
    from keri.db.webdbing import WebDBer
    be = W.Backend()
    d = W.drive(WebDBer.open('t', stores, storageOpener=be.open))
    for s in stores:
        d.env.open_db(s.encode() if bts else s, dupsort=dup[s[0]])
    W.drive(d.flush())
    d = W.drive(WebDBer.open('t', stores, storageOpener=be.open))
    for s in stores:
        x = d.env.open_db(s, dupsort=not dup[s[0]])
        if x.dupsort != dup[s[0]]:
            return f'store {s} reopened with another flag'
        d.setVal(x, b'k', b'v')
    W.drive(d.flush())
    d = W.drive(WebDBer.open('t', stores, storageOpener=be.open, clear=True))
    for s in stores:
        if d._stores[s].items:
            return f'store {s} opened with clear still holds entries'
    d = W.drive(WebDBer.open('t', stores, storageOpener=be.open))
    for s in stores:
        if d._stores[s].items:
            return f'store {s} cleared but its entries came back'
    return None


def nontrivial(steps):
    return any(s[0] == 'op' and s[2] in W.WRITES for s in steps)


FNS = [FN + 'flush', FN + 'open', 'src/keri/db/webdbing.py:WebEnv.open_db'] + [FN + x for k in W.OPS for x in W.OPS[k]]
GROUPS = [
    Group('flush_reopen', lambda r: gen(r, False, False), check, n=2500, functions=FNS, nontrivial=nontrivial),
    Group('flush_faults', lambda r: gen(r, True, False), check, n=2500, functions=FNS, nontrivial=nontrivial, bound='storage failure at events 1 to 12 of a flush'),
    Group('flush_interleaved', lambda r: gen(r, True, True), check, n=2500, functions=FNS, nontrivial=nontrivial,
          bound='up to 3 operations run while a sync is pending'),
    Group('flush_each_op', single, check_single, n=3000, functions=FNS),
    Group('open_flags', gen_open, check_open, n=400, functions=FNS[1:3]),
]
ASSUMPTIONS = ['the storage backend commits a namespace as a whole when its sync completes', 'keys of one sub-store do not clash']
