"""C07: threshold expressions mean what they say."""
import json
from .base import *
from . import kel

C = 'src/keri/core/coring.py:Tholder.'
FN = [C + x for x in ('__init__', '_processSith', '_processLimen', '_processThold', '_processWeighted', '_processUnweighted', 'weight', 'sith', 'limen', 'satisfy',
                      '_satisfy_numeric', '_satisfy_weighted')]


def weight(rng):
    d = rng.randint(1, 9)
    k = rng.random()
    if k < .12:
        return '1'
    if k < .2:
        return '0'
    return f'{rng.randint(0, d)}/{d}'


def clause(rng):
    out = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .3:
            for _ in range(20):
                v = [weight(rng) for _ in range(rng.randint(1, 4))]
                if sum(map(Fraction, v)) >= 1:
                    out.append({weight(rng): v})
                    break
        else:
            out.append(weight(rng))
    return out


def top(e):
    return Fraction(next(iter(e)) if isinstance(e, dict) else e)


def gen_thold(rng):
    if rng.random() < .25:
        return '%x' % rng.choice([0, 1, 2, 3, 5, 9, 10, 16, 17, 255, 4096, rng.randint(1, 1 << 40)])
    while True:
        cl = [clause(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        cl = [c for c in cl if sum(map(top, c)) >= 1]
        if cl:
            return cl[0] if len(cl) == 1 and rng.random() < .7 else cl


def gen(rng):
    t = gen_thold(rng)
    n = kel.tsize(t) if not isinstance(t, str) else min(int(t, 16), 40)
    sets = []
    for _ in range(10):
        k = rng.random()
        if k < .15:
            s = list(range(n))
        else:
            s = [i for i in range(n) if rng.random() < rng.choice([.3, .6, .9])]
        if rng.random() < .4 and s:
            s += [rng.choice(s) for _ in range(rng.randint(1, 4))]
        if rng.random() < .15:
            s += [n + rng.randint(0, 5)]
        rng.shuffle(s)
        sets.append(s)
    if not isinstance(t, str) and n <= 8:
        sets += [[i for i in range(n) if b >> i & 1] for b in (range(1 << n) if n <= 5 else rng.sample(range(1 << n), 24))]
    return t, sets


def clauses(t):
    return ('n', int(t, 16)) if isinstance(t, str) else kel.norm(t)


def agree(name, th, t, sets):
    if th.weighted != (not isinstance(t, str)):
        return f'{name}: weighted is {th.weighted} for {t}'
    if th.size != kel.tsize(t):
        return f'{name}: size {th.size} of {t} instead of {kel.tsize(t)}'
    if kel.norm(th.sith) != kel.norm(t):
        return f'{name}: sith {th.sith} instead of {t}'
    if th.num != (int(t, 16) if isinstance(t, str) else None):
        return f'{name}: num {th.num} of {t}'
    for s in sets:
        if (got := th.satisfy(indices=list(s))) is not kel.tsat(t, s):
            return f'{name}: threshold {t} on {s} answers {got}'
    return None


def check(case):
    from keri.core.coring import Tholder
    t, sets = case
    th = Tholder(sith=t)
    m = agree('sith', th, t, sets)
    if m:
        return m
    for name, kw in (('sith of sith', dict(sith=th.sith)), ('json', dict(sith=th.json if th.weighted else json.loads(th.json))), ('limen', dict(limen=th.limen)),
                     ('limen text', dict(limen=th.limen.decode())), ('thold', dict(thold=th.thold))):
        t2 = Tholder(**kw)
        m = agree(name, t2, t, sets)
        if m:
            return m
        if t2.limen != th.limen:
            return f'{name}: limen differs for {t}: {t2.limen} and {th.limen}'
    if isinstance(t, str):
        m = agree('int', Tholder(sith=int(t, 16)), t, sets)
        if m:
            return m
    else:
        m = agree('json text', Tholder(sith=json.dumps(t)), t, sets)
    return m


def gen_bad(rng):
    k = rng.randrange(14)
    if k == 0:
        return rng.choice(['', 'g', '-1', '1/2', 'xyz', '0.5', '--', '1 2', '[', '[1/2]', '[[', '["1/2"', '{}', '[]', '[[]]'])
    if k == 1:
        return rng.choice([[], [[]], [['1'], []], [[], ['1']], ['1', []], [['1'], '1'], ['1', ['1']], -rng.randint(1, 99)])
    t = gen_thold(rng)
    while isinstance(t, str):
        t = gen_thold(rng)
    t = json.loads(json.dumps(t))
    cl = t if isinstance(t[0], list) else [t]
    c = rng.choice(cl)
    j = rng.randrange(len(c))
    bad = rng.choice(['2', '-1', '3/2', '-1/2', '0.5', '1/0', 'a', '', '1/2/3', 'nan', 'inf', '1//2', '5/4', '1.5'])
    if k in (2, 3, 4):
        c[j] = bad
    elif k == 5:
        c[j] = {bad: ['1']}
    elif k == 6:
        c[j] = {'1': ['1', bad]}
    elif k == 7:
        c[j] = {'1/2': ['1'], '1/3': ['1']}
    elif k == 8:
        c[j] = {'1': rng.choice([[], ['1/2', '1/3'], ['0'], ['1/3', '1/3']])}
    elif k == 9:
        c[j] = rng.choice([{}, None, 1, 0.5, True, ['1']]) if len(c) > 1 else None
    elif k == 10:       # a clause that can never reach one
        d = rng.randint(3, 9)
        cl[cl.index(c)][:] = [f'1/{d}'] * rng.randint(1, d - 1)
    elif k == 11:
        return {'1': ['1']} if rng.random() < .5 else {w if isinstance(w, str) else '1': ['1'] for w in c}
    elif k == 12:
        c[j] = {'1': rng.choice(['1', '11', '1/1'])}
    elif k == 13:
        c[j] = {'1': [rng.choice([1, 1.0, True, None])]}
    return t


def check_bad(t):
    from keri.core.coring import Tholder
    try:
        th = Tholder(sith=t)
    except Exception:
        return None
    return f'malformed or unsatisfiable threshold {t!r} taken as {th.sith}'


def gen_limen(rng):
    if rng.random() < .15:
        return None, rng.choice(['digest', 'seed', 'signature', 'label'])
    t = 'a'.join('c'.join(rng.choice(['1', '0', '1s2', '1s2', '1s3', '2s3', '1k1', '1s2k1s2v1s2', '1s2k1v0', '1k1s3', 'k', 's', '', '2', '3s2', '1s0', 'b', '1v1', '11', 'k1', '1k', '-1'])
                          for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.choice([1, 1, 2])))
    return t, None


def lim_weight(w):
    n, s, d = w.partition('s')
    if not n.isdigit() or (s and not d.isdigit()) or (s and int(d) == 0):
        return None
    f = Fraction(int(n), int(d) if s else 1)
    return f if f <= 1 else None


def lim_meaning(t):
    out = []
    for c in t.split('a'):
        cl, tops = [], []
        for e in c.split('c'):
            k, s, v = e.partition('k')
            a = lim_weight(k)
            vs = [lim_weight(w) for w in v.split('v')] if s else []
            if a is None or None in vs or (s and sum(vs) < 1):
                return None
            cl.append({str(a): [str(x) for x in vs]} if s else str(a))
            tops.append(a)
        if sum(tops) < 1:
            return None
        out.append(cl)
    return out


def check_limen(case):
    from keri.core.coring import Tholder, Bexter, Matter
    t, other = case
    if t is None:
        lim = dict(digest=kel.dig('x'), seed='A' + 'B' * 43, signature='0B' + 'C' * 86, label='VAAB')[other]
        want = None
    else:
        if not all(c.isalnum() or c in '-_' for c in t):
            return None
        lim, want = Bexter(bext=t).qb64, lim_meaning(t)
    try:
        th = Tholder(limen=lim)
    except Exception:
        return None if want is None else f'threshold text {t} is refused'
    if want is None:
        return f'malformed or unsatisfiable threshold text {t or lim!r} taken'
    return agree('limen', th, want, [list(range(k)) for k in range(kel.tsize(want) + 1)])


GROUPS = [
    Group('meaning', gen, check, n=3000, functions=FN, chunks=4, bound='up to 3 clauses of up to 5 weights nested up to 4 deep lists, all index sets of up to 5 positions'),
    Group('texts', gen_limen, check_limen, n=3000, functions=FN, chunks=2),
    Group('malformed', gen_bad, check_bad, n=3000, functions=FN, chunks=2),
]


def units():
    from .p_core import units_c07 as u
    return u()
