"""C28: mailbox topics deliver each stored message once and in order."""
from .base import *
from . import kel

F = 'src/keri/app/storing.py:Mailboxer.'
FN = [F + x for x in ('storeMsg', 'appendToTopic', 'delTopic', 'getTopicMsgs', 'cloneTopicIter')] + \
     ['src/keri/app/indirecting.py:MailboxIterable.__next__', 'src/keri/db/dbing.py:LMDBer.appendOnVal',
      'src/keri/db/dbing.py:LMDBer.getOnAllItemIter', 'src/keri/db/subing.py:OnSuber.append',
      'src/keri/db/subing.py:OnSuber.getAllItemIter', 'src/keri/db/subing.py:Suber.pin']
MAX = (1 << 128) - 1


def topic(rng):
    pre = rng.choice(['E' + 'a' * 43, 'E' + 'b' * 43, 'Ea', 'E'])
    t = rng.choice(['receipt', 'replay', 'reply', 'credential', 'challenge', '', 'x', 'x.y', 'x/y', 'xy', '0', 'é',
                    'x.%032x' % rng.randint(0, 3), '%032x' % 1, 'x.zz.%032x' % 2, 'f' * 32, 'x.g', 'x.' + 'f' * 33])
    return pre + '/' + t


def message(rng):
    k = rng.random()
    if k < .15:
        return bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 40)))
    s = ''.join(rng.choice('{}":abc019-_ é\n') for _ in range(rng.randint(1, 60)))
    return s.encode()


def gen(rng):
    tops = [topic(rng) for _ in range(rng.randint(1, 4))]
    if rng.random() < .5:
        tops.append(tops[0] + rng.choice(['.z', '.' + '%032x' % rng.randint(0, 4), '0', '.', '/x', '.a.b', '.%032x.1' % 1]))
    msgs = [message(rng) for _ in range(rng.randint(1, 4))]
    steps = []
    for _ in range(rng.randint(2, 25)):
        k = rng.random()
        t = rng.randrange(len(tops))
        if k < .7:
            steps.append(('store', t, rng.randrange(len(msgs)), rng.randrange(4)))
        elif k < .78:
            steps.append(('index', t, rng.randrange(len(msgs)), rng.randrange(2)))
        elif k < .86:
            steps.append(('del', t, rng.randint(0, 4)))
        else:
            steps.append(('poll', t, rng.randint(0, 5)))
    return tops, msgs, steps


def check(case):
    from keri.app import storing, indirecting
    mb = storing.Mailboxer(name='v', temp=True, reopen=True)
    try:
        run(mb, indirecting, case)
    finally:
        mb.close(clear=True)


def run(mb, indirecting, case):
    tops, msgs, steps = case
    ref = {t: {} for t in tops}
    held = set()
    polls = {}
    for n, st in enumerate(steps):
        op, t = st[0], tops[st[1]]
        where = f'step {n} {st}'
        box = ref[t]
        nxt = max(box) + 1 if box else 0
        if op == 'store':
            m = msgs[st[2]]
            try:
                arg = [m, bytearray(m), m.decode(), m][st[3]]
            except UnicodeDecodeError:
                arg = m
            ok = mb.storeMsg(t.encode() if st[3] % 2 else t, arg)
            need(ok is True, f'{where}: storing answers {ok!r}')
            box[nxt] = m
            held.add(m)
        elif op == 'index':
            m = msgs[st[2]]
            on = mb.appendToTopic(t.encode() if st[3] else t, kel.dig(m).encode())
            need(on == nxt, f'{where}: ordinal is {on}, not {nxt}')
            box[nxt] = m
        elif op == 'del':
            r = mb.delTopic(t, st[2])
            need(r is (st[2] in box), f'{where}: removal answers {r!r}')
            box.pop(st[2], None)
        else:
            pre, _, name = t.partition('/')
            it = indirecting.MailboxIterable(mbx=mb, pre=pre, topics={'/' + name: st[2]})
            iter(it)
            next(it)
            polls[n] = [it, '/' + name, t, st[2]]
        for u in tops:
            want = sorted((o, m) for o, m in ref[u].items() if m in held)
            for fn in sorted({0, 1, 2, nxt}):
                w = [(o, m) for o, m in want if o >= fn]
                got = list(mb.cloneTopicIter(u, fn))
                need([(o, m) for o, _, m in got] == w and all(x == u and isinstance(m, bytes) for _, x, m in got),
                     f'{where}: topic {u!r} from {fn} reads {got} and not {w}')
                got = mb.getTopicMsgs(u.encode(), fn)
                need(got == [m for _, m in w], f'{where}: messages of {u!r} from {fn} are {got} and not {w}')
        for p in polls.values():
            it, name, u, idx = p
            w = [(o, m) for o, m in sorted(ref[u].items()) if o >= idx and m in held]
            data = bytes(next(it))
            want = b''.join(b'id: %d\nevent: %s\nretry: 5000\ndata: ' % (o, name.encode()) + m + b'\n\n' for o, m in w)
            need(data == want, f'{where}: polling {u!r} from {idx} delivers {data} and not {want}')
            if w:
                p[3] = w[-1][0] + 1
    return None


def gen_max(rng):
    return topic(rng), rng.choice([MAX, MAX - 1, MAX - 2, 1 << 64]), message(rng)


def check_max(case):
    from keri.app import storing
    t, on, m = case
    mb = storing.Mailboxer(name='v', temp=True, reopen=True)
    try:
        mb.tpcs.pin(keys=t, on=on, val=kel.dig(m).encode())
        try:
            mb.storeMsg(t, m)
        except ValueError:
            need(on == MAX, f'ordinal after {on} is refused')
            return None
        need(on < MAX, 'a message is stored beyond the last ordinal')
        got = list(mb.cloneTopicIter(t, on + 1))
        need(got == [(on + 1, t, m)], f'after ordinal {on} a message is read as {got}')
    finally:
        mb.close(clear=True)


def units():
    from .p_peer import units_c28 as u
    return u()


GROUPS = [
    Group('mailbox', gen, check, 500, FN, 'up to 25 stores, indexings, removals and polls over up to 5 topics, some extending others by separators and ordinals'),
    Group('limits', gen_max, check_max, 60, FN, 'ordinals at the end of their range'),
]
ASSUMPTIONS = ['LMDB is replaced by an ordered in-memory map with the same interface',
               'a topic is not the empty string, which by design means every topic, and a message is not empty',
               'a poll continues from one past the last ordinal delivered; ordinals removed and then given again are not delivered twice by it']
RULE = 'a topic reads back as the messages stored to it, in order, each at the ordinal after the last one present'
