"""C23: exchange messages are delivered once, from verified senders, and stored with what verified."""
import datetime
from .base import *
from . import kel
from .kel import key, dig, sign, ser, tsat, saidify
from .replies import make_aid, T0

X = 'src/keri/peer/exchanging.py:'
FN = [X + 'Exchanger.' + x for x in ('processEvent', 'processEscrow', 'escrowPSEvent', 'processEscrowPartialSigned', 'logEvent', 'complete')] + [
      X + 'cloneMessage', X + 'verify', 'src/keri/vc/protocoling.py:IpexHandler.verify', 'src/keri/acdc/ipexing.py:IpexHandler.verify',
      'src/keri/db/basing.py:Baser.resolveVerifiers', 'src/keri/core/eventing.py:verifySigs']
PREV = {'offer': ('apply',), 'agree': ('offer',), 'grant': ('agree',), 'admit': ('grant',), 'spurn': ('apply', 'offer', 'agree', 'grant')}
ROUTES = ['/ok', '/ok', '/no', '/boom', '/plain', '/nothing']


def gen(rng):
    aids = []
    for k in range(rng.randint(1, 3)):
        pre, kt, ev = make_aid(rng, 300 + 60 * k, rng.choice([1, 1, 2, 3]), [rng.choice(['rot', 'ixn', 'rot']) for _ in range(rng.randint(0, 3))])
        aids.append((pre, kt, ev))
    flavour = rng.choice(['plain', 'plain', 'vc', 'acdc'])
    msgs = []

    def msg(route, p='', i=None, a=None, txt=None):
        if i is None:
            z = rng.random()
            if z < .75:
                i = rng.choice(aids)[0]
            elif z < .9:
                i = key(800 + rng.randrange(2), False)
            else:
                i = key(810, True)
        if a is None:
            a = dict(m='m%d' % len(msgs))
        if txt is not None:
            a = dig(txt)
        sad, raw = saidify(dict(v='', t='exn', d='', i=i, rp='', p=p, dt=(T0 + datetime.timedelta(seconds=len(msgs))).isoformat(timespec='microseconds'),
                                r=route, q={}, a=a, e={}))
        msgs.append((sad, raw, txt))

    for _ in range(rng.randint(1, 6)):
        z = rng.random()
        if flavour == 'plain' or z < .25:
            txt = rng.choice([b'secret', b'x' * 40]) if rng.random() < .2 else None
            msg(rng.choice(ROUTES), p=rng.choice(msgs)[0]['d'] if msgs and rng.random() < .3 else '', txt=txt)
        else:
            verbs = ['apply', 'agree', 'admit', 'spurn'] + (['offer', 'grant'] if flavour == 'vc' else [])
            prior = rng.choice(msgs)[0]['d'] if msgs and rng.random() < .75 else ''
            if prior and rng.random() < .6:           # a verb that may follow
                pr = next(m for m in msgs if m[0]['d'] == prior)[0]['r'].split('/')[-1]
                nxt = [v for v in verbs if pr in PREV.get(v, ())]
                v = rng.choice(nxt or verbs)
            else:
                v = rng.choice(verbs if prior else ['apply', 'apply', 'offer', 'grant', 'admit'])
            msg('/ipex/' + rng.choice([v] * 12 + ['bogus']), p=prior)
    steps = []
    held = {}
    for _ in range(rng.randint(3, 20)):
        z = rng.random()
        if z < .25:
            steps.append(('kel', rng.randrange(len(aids))))
        elif z < .4:
            steps.append(('esc',))
        elif z < .45:
            steps.append(('clock', rng.choice([1, 3, 12])))
        else:
            j = rng.randrange(len(msgs))
            sad = msgs[j][0]
            k = [a[0] for a in aids].index(sad['i']) if sad['i'] in [a[0] for a in aids] else None
            tsgs, cigs = [], []
            if k is not None and rng.random() < .93:
                for _ in range(1 if rng.random() < .85 else 2):
                    kk = k if rng.random() < .93 else rng.randrange(len(aids))
                    ev = aids[kk][2]
                    n = rng.randrange(len(ev))
                    if rng.random() < .75:
                        n = max(x for x in range(n + 1) if ev[x][0]['t'] != 'ixn')
                    d = ev[n][0]['d'] if rng.random() < .93 else rng.choice(ev)[0]['d']
                    keys = ev[n][2]
                    idx = [i for i in range(len(keys)) if rng.random() < .75] or [0]
                    sg = []
                    for i in idx:
                        s, good = keys[i], True
                        if rng.random() < .08:
                            s = rng.choice([900, keys[0], ev[0][2][0]])
                        if rng.random() < .06:
                            good = rng.choice([False, 'flip'])
                        sg.append((i if rng.random() < .97 else i + 1, s, good))
                    tsgs.append((kk, n if rng.random() < .96 else n + 1, d, sg))
            if not tsgs:
                for _ in range(1 if rng.random() < .85 else 2):
                    s = rng.choice([800, 801, 810, aids[0][2][0][2][0]])
                    t = s == 810 or s < 800
                    if rng.random() < .8 and key(s, t) != sad['i']:
                        s, t = {key(800, False): (800, False), key(801, False): (801, False), key(810, True): (810, True)}.get(sad['i'], (s, t))
                    cigs.append((s, t, rng.random() < .9))
            steps.append(('exn', j, tsgs, cigs, rng.random() < .9))
    return dict(aids=aids, msgs=msgs, steps=steps, flavour=flavour)


class Hand:
    def __init__(self, resource, log, kind):
        self.resource, self.log, self.kind = resource, log, kind
        if kind != 'plain':
            self.verify = self._verify

    def _verify(self, serder, **kwa):
        if self.kind == 'boom':
            return serder.ked['a'].nothing
        return self.kind == 'ok'

    def handle(self, serder, **kwa):
        self.log.append((serder.said, serder.raw, dict(kwa)))


class Notes:
    def __init__(self, log):
        self.log = log

    def add(self, attrs):
        self.log.append((attrs['d'], None, attrs))


class Hby:
    def __init__(self, db):
        self.db = db
        self.kevers = db.kevers


def check(case):
    from keri.help import helping
    w = kel.World()
    now = helping.nowUTC
    clock = [0]
    helping.nowUTC = lambda: T0 + datetime.timedelta(seconds=clock[0])
    try:
        return run(w, case, clock)
    finally:
        helping.nowUTC = now
        w.close()


def run(w, case, clock):
    from keri.peer import exchanging
    from keri.vc import protocoling
    from keri.acdc import ipexing
    from keri.core.coring import Verfer, Prefixer, Number, Diger, Cigar, Texter, NumDex
    from keri.core import indexing
    from keri import kering
    aids, msgs = case['aids'], case['msgs']
    pres = [a[0] for a in aids]
    log = []
    hands = [Hand('/' + k, log, k) for k in ('ok', 'no', 'boom', 'plain')]
    ip = ipexing if case['flavour'] == 'acdc' else protocoling
    hby = Hby(w.db)
    if case['flavour'] != 'plain':
        hands += [ip.IpexHandler('/ipex/' + v, hby, Notes(log)) for v in ('apply', 'offer', 'agree', 'grant', 'admit', 'spurn', 'bogus')]
    xc = exchanging.Exchanger(hby=hby, handlers=hands)
    db = w.db
    known = [0] * len(aids)
    good = {}                     # said -> {(pre, sn, dig): {(index, sig)} verifying}, ever presented
    delivered = set()
    stored = set()
    order = []                    # stored messages in the order they came to be stored
    by = {m[0]['d']: m for m in msgs}
    ver = {}

    def verifies(kq, raw64, raw):
        k = (kq, raw64, raw)
        if k not in ver:
            ver[k] = Verfer(qb64=kq).verify(raw64, raw)
        return ver[k]

    def est(k, n, d):
        """keys and threshold of an accepted establishment event"""
        if k is None or n >= known[k]:
            return None
        sad = aids[k][2][n][0]
        return sad if sad['d'] == d and 'k' in sad else None

    def justified(said):
        sad, raw, txt = by[said]
        if sad['i'] not in pres:
            return sad['i'][0] == 'B' and any(k[0] == 'cig' for k in good.get(said, {}))
        k = pres.index(sad['i'])
        for (kk, n, d), sg in good.get(said, {}).items():
            if kk == k:
                e = est(k, n, d)
                if e and tsat(e['kt'], [i for i, q in sg]):
                    return True
        return False

    def allowed(sad, had):
        """does route and prior message allow it, given the messages stored before it"""
        r = sad['r'].split('/')
        if r[1] != 'ipex':
            return r[1] in ('ok', 'plain', 'nothing')
        if case['flavour'] == 'plain':
            return True
        v = r[2]
        if v not in ('apply',) + tuple(PREV):
            return False
        if v == 'apply':
            return not sad['p']
        if not sad['p']:
            return v in ('offer', 'grant') and case['flavour'] == 'vc'
        if sad['p'] not in had:
            return False
        pv = by[sad['p']][0]['r'].split('/')
        prev = PREV[v] if ip is protocoling or v != 'spurn' else PREV[v][:3]
        if len(pv) != 3 or pv[1] != 'ipex' and ip is ipexing or pv[-1] not in prev:
            return False
        return not any(by[x][0]['p'] == sad['p'] for x in had)

    def fine(where, n0):
        nonlocal order
        now_ = [k[0] for k, _ in db.exns.getTopItemIter(keys=())]
        need(set(now_) >= stored, f'{where}: a stored message is gone')
        calls = log[n0:]
        fresh = set(now_) - stored
        # those of one step are judged in an order in which each is allowed
        todo = list(fresh)
        while todo:
            nxt = [x for x in todo if allowed(by[x][0], order)]
            if not nxt:
                raise Bad(f'{where}: message of route {by[todo[0]][0]["r"]} with prior {by[todo[0]][0]["p"]!r} is stored against its handler or the prior messages')
            x = next((y for y in nxt if y in [c[0] for c in calls]), nxt[0])
            order.append(x)
            todo.remove(x)
        for said in fresh:
            need(justified(said), f'{where}: message {by[said][0]["r"]} is stored without verified signatures of its sender')
        stored.update(fresh)
        for said, raw, kwa in calls:
            need(said not in delivered, f'{where}: message delivered again to its handler')
            need(said in stored, f'{where}: delivered message is not stored')
            need(raw is None or raw == by[said][1], f'{where}: delivered message is altered')
            if by[said][2] is not None:
                need(kwa.get('essr') == by[said][2], f'{where}: delivered content is not that of the message')
            delivered.add(said)
        for said in fresh:
            r = by[said][0]['r']
            need(said in delivered or r == '/nothing' or r.startswith('/ipex') and case['flavour'] == 'plain', f'{where}: stored message was not delivered')
        for said in stored:
            sad, raw, txt = by[said]
            need(db.exns.get(keys=(said,)).raw == raw, f'{where}: stored message differs')
            for (d_, pre, snh, d), sg in db.esigs.getTopItemIter(keys=(said, '')):
                need(pre == sad['i'], f'{where}: signature of another is stored with the message')
                e = est(pres.index(pre), int(snh, 16), d)
                need(e is not None, f'{where}: signature stored under {snh} which is no accepted establishment event of the sender')
                need(sg.index < len(e['k']) and verifies(e['k'][sg.index], sg.raw, raw), f'{where}: signature stored with the message does not verify')
            for v, c in db.ecigs.get(keys=(said,)):
                need(v.qb64 == sad['i'] and v.qb64[0] == 'B' and verifies(v.qb64, c.raw, raw), f'{where}: signature stored with the message does not verify')
            s, _ = exchanging.cloneMessage(hby, said)
            need(s is not None and s.raw == raw, f'{where}: stored message can not be read back')
            if txt is not None:
                need(b''.join(t.raw for t in db.essrs.get(keys=(said,))) == txt, f'{where}: stored content differs')
            need(xc.complete(said), f'{where}: stored message is not complete')

    def exported():
        """each stored message is written out with exactly its stored signatures"""
        from keri.core.parsing import Parser

        class Rec:
            def processEvent(self, **kw):
                self.got.append(kw)
        for said in stored:
            raw = by[said][1]
            for framed in (False, True):
                r = Rec()
                r.got = []
                out = exchanging.serializeMessage(hby, said, framed=framed)
                need(bytes(out[:len(raw)]) == raw, 'exported message differs')
                with quiet():
                    Parser(version=kering.Vrsn_1_0).parse(ims=bytearray(out), framed=True, exc=r)
                need(len(r.got) == 1 and r.got[0]['serder'].raw == raw, 'exported message does not parse as itself')
                sg = sorted((p_.qb64, n_.sn, d_.qb64, s.qb64) for p_, n_, d_, ss in r.got[0].get('tsgs') or [] for s in ss)
                want = sorted((k[1], int(k[2], 16), k[3], s.qb64) for k, s in db.esigs.getTopItemIter(keys=(said, '')))
                need(sg == want, f'exported message carries signatures {sg} instead of {want}')
                cg = sorted((c.verfer.qb64, c.qb64) for c in r.got[0].get('cigars') or [])
                want = sorted((v.qb64, c.qb64) for v, c in db.ecigs.get(keys=(said,)))
                need(cg == want, f'exported message carries signatures {cg} instead of {want}')

    clean = {}                    # said -> time first held when all presentations of it were honest partial ones
    n_ok = 0
    for n, st in enumerate(case['steps']):
        where = f'step {n} {st[0]}'
        n0 = len(log)
        if st[0] == 'kel':
            k = st[1]
            if known[k] < len(aids[k][2]):
                sad, raw, keys = aids[k][2][known[k]]
                e = w.process(raw, [('A', i, i, s, True) for i, s in enumerate(keys)], [])
                need(e is None, f'{where}: key event refused: {e}')
                known[k] += 1
        elif st[0] == 'clock':
            clock[0] += st[1]
        elif st[0] == 'esc':
            xc.processEscrow()
            for said, (t, parts) in list(clean.items()):
                if clock[0] - t > 10:
                    del clean[said]
                elif said not in stored:
                    k = pres.index(by[said][0]['i'])
                    if parts and all(est(k, q[0], q[1]) and tsat(est(k, *q)['kt'], idx) for q, idx in parts.items()):
                        sad = by[said][0]
                        if sad['r'] in ('/ok', '/plain', '/nothing'):
                            need(db.exns.get(keys=(said,)) is not None, f'{where}: held message is not delivered though its signatures now suffice')
                        del clean[said]
                    elif all(est(k, q[0], q[1]) or q[0] >= known[k] for q in parts):
                        need(db.epse.get(keys=(said,)) is not None or db.exns.get(keys=(said,)) is not None, f'{where}: held message is dropped early')
                    else:
                        del clean[said]
        else:
            _, j, tsgs, cigs, withtxt = st
            sad, raw, txt = msgs[j]
            said = sad['d']
            serder = w.serder(raw)
            g = good.setdefault(said, {})
            tt = []
            for kk, sn, d, sg in tsgs:
                ss = [kel.siger('A', i, None, s, ok, raw) for i, s, ok in sg]
                tt.append((Prefixer(qb64=pres[kk]), Number(num=sn, code=NumDex.Huge), Diger(qb64=d), ss))
                if sn < len(aids[kk][2]):
                    e = aids[kk][2][sn][0]
                    if e['d'] == d and 'k' in e:
                        for s in ss:
                            if s.index < len(e['k']) and verifies(e['k'][s.index], s.raw, raw):
                                g.setdefault((kk, sn, d), set()).add((s.index, s.qb64))
            cc = []
            for s, t, ok in cigs:
                v = Verfer(qb64=key(s, t))
                c = Cigar(raw=sign(s, raw if ok else raw + b' '), code='0B', verfer=v)
                cc.append(c)
                if v.qb64 == sad['i'] and not t and ok:
                    g['cig',] = {0}
            try:
                with quiet():
                    xc.processEvent(serder=serder, tsgs=tt, cigars=cc, essrs=[Texter(raw=txt)] if txt is not None and withtxt else [])
            except (kering.ValidationError, ValueError, AttributeError, TypeError):
                pass
            # an honest message that is due must be in
            k = pres.index(sad['i']) if sad['i'] in pres else None
            honest = tsgs and k is not None and all(kk == k and sn < len(aids[k][2]) and aids[k][2][sn][0]['d'] == d and 'k' in aids[k][2][sn][0] and
                                                    all(ok is True and s == aids[k][2][sn][2][i] for i, s, ok in sg if i < len(aids[k][2][sn][2])) and
                                                    all(i < len(aids[k][2][sn][2]) for i, s, ok in sg) for kk, sn, d, sg in tsgs)
            plain = sad['r'] in ('/ok', '/plain', '/nothing') and (txt is None or withtxt)
            if honest and plain and all(est(k, sn, d) and tsat(est(k, sn, d)['kt'], [i for i, _, _ in sg]) for _, sn, d, sg in tsgs):
                need(db.exns.get(keys=(said,)) is not None, f'{where}: message with verified signatures is not delivered')
                n_ok += 1
            if not tsgs and cigs and plain and all(key(s, t) == sad['i'] and not t and ok for s, t, ok in cigs):
                need(db.exns.get(keys=(said,)) is not None, f'{where}: message with verified signature of a non-transferable sender is not delivered')
                n_ok += 1
            if tsgs and said not in stored:
                if honest and plain and clean.get(said, 1) is not None:
                    t, parts = clean.get(said) or (clock[0], {})
                    for _, sn, d, sg in tsgs:
                        parts.setdefault((sn, d), set()).update(i for i, _, _ in sg)
                    if said not in clean or db.epse.get(keys=(said,)) is not None:
                        clean[said] = (t, parts)
                else:
                    clean.pop(said, None)
                    if db.epse.get(keys=(said,)) is not None:
                        clean[said] = None
            clean = {a: b for a, b in clean.items() if b is not None or a == said}
            if clean.get(said, 1) is None:
                good.setdefault('mixed', set()).add(said)
                del clean[said]
            if said in good.get('mixed', ()):
                clean.pop(said, None)
        fine(where, n0)
    exported()
    return None


import contextlib, logging


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(logging.NOTSET)


def units():
    from .p_peer import units_c23 as u
    return u()


GROUPS = [Group('exchanges', gen, check, 900, FN, chunks=8,
                bound='up to 3 transferable senders with up to 4 key events and 3 keys, 3 basic senders, 6 messages over 6 plain and 7 ipex routes, 20 steps')]
ASSUMPTIONS = ['signatures are judged by the establishment event of the sender they name, which need not be its latest',
               'nested and pathed attachments are not part of the signed message: handlers verify them on their own']
RULE = 'each handler call and each stored message is justified by verified signatures of the sender over the message and happens once'
