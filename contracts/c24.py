"""C24: receipts are credited only to the keys that made them."""
import json
from .base import *
from . import kel
from .kel import key, dig, sign, ser
from .replies import make_aid

E = 'src/keri/core/eventing.py:'
FN = [E + 'Kevery.' + x for x in ('processReceipt', 'processAttachedReceiptCouples', 'processAttachedReceiptSigGroups', 'fetchWitnessState',
      'escrowUWReceipt', 'escrowUReceipt', 'escrowTRGroups', 'escrowTReceipts', 'escrowTransReceiptGroup', 'processEscrowUnverWitness',
      'processEscrowUnverNonTrans', '_processEscrowFindUnver', 'processEscrowUnverTrans', 'processEscrowPartialWigs', 'processEscrowOutOfOrders')] + [
      E + 'Kever.logEvent', E + 'verifySigs']


# ------------------------------------------------------------ reference
class Ref:
    def __init__(self, evs):
        self.evs = evs                    # said -> sad of every event of the receipted and the receiptors
        self.raw = {d: ser(s) for d, s in evs.items()}

    def wits(self, said):
        """witness list in force at an event, following its own prior events"""
        sad = self.evs[said]
        if sad['t'] == 'icp':
            return list(sad['b'])
        w = self.wits(sad['p'])
        if sad['t'] == 'rot':
            w = [x for x in w if x not in sad['br']] + list(sad['ba'])
        return w

    def good(self, said, signer, over):
        return over == said


# ------------------------------------------------------------ generator
def gen(rng):
    g = kel.Gen(rng, dict(sig=.05, chain=.03, expose=.03, wit=.25, dup=.1, conflict=.12, recover=.2, icp=0, eo=0, abandon=0, nt=0, nowit=.1))
    evs = []
    for _ in range(12):
        s = g.step()
        if g.verdict(*s) == 'accept' and len(s[0]['b']) >= rng.choice([0, 1, 2]):
            g.st = kel.State()
            kel.apply(g.st, s[0], s[1])
            g.steps.append(s)
            evs.append(s)
            break
    if g.st is None:
        return None
    for _ in range(rng.randint(1, 6)):
        s = g.step()
        if s[0]['i'] != g.st.pre:
            continue
        g.steps.append(s)
        evs.append(s)
        if g.verdict(*s) == 'accept':
            kel.apply(g.st, s[0], s[1])
    recs = []
    for k in range(rng.randint(1, 2)):
        recs.append(make_aid(rng, 500 + 40 * k, rng.choice([1, 1, 2, 3]), [rng.choice(['rot', 'rot', 'ixn']) for _ in range(rng.randint(0, 2))]))
    signers = dict(g.sid)
    allw = sorted({w for s in evs if s[0]['t'] in ('icp', 'rot') for w in s[0].get('b', []) + s[0].get('ba', [])})
    ref = Ref({s[0]['d']: s[0] for s in evs})
    steps = []

    def over(d):
        return d if rng.random() < .85 else rng.choice([s[0]['d'] for s in evs] + ['junk'])

    def cigar(d):
        r = rng.random()
        try:
            w = ref.wits(d)
        except KeyError:
            w = allw
        if r < .55 and w:
            k = rng.choice(w)
        elif r < .8 and allw:
            k = rng.choice(allw)
        else:
            k = key(900 + rng.randrange(3), rng.random() < .2)
            signers[k] = 900 + [key(900 + i, k[0] == 'D') for i in range(3)].index(k)
        s = signers.get(k, 901)
        if rng.random() < .08:
            s = 777
        return (k, s, over(d))

    def wiger(d):
        try:
            w = ref.wits(d)
        except KeyError:
            w = allw
        i = rng.randrange(len(w) + 1) if w else rng.randrange(2)
        k = w[i] if i < len(w) and rng.random() < .85 else rng.choice(allw) if allw else None
        return (i, signers.get(k, 901) if k else 901, over(d))

    def tsg(d):
        k = rng.randrange(len(recs))
        pre, kt, es = recs[k]
        j = rng.randrange(len(es))
        sad, raw, keys = es[j]
        claim = (k, int(sad['s'], 16) if rng.random() < .9 else rng.randrange(4), sad['d'] if rng.random() < .9 else rng.choice(es)[0]['d'])
        sg = []
        for _ in range(rng.randint(1, len(keys))):
            i = rng.randrange(len(keys)) if rng.random() < .93 else len(keys)
            sg.append((i, keys[i] if i < len(keys) and rng.random() < .85 else rng.choice(es)[2][0], over(d)))
        return claim, sg

    last = 0
    for _ in range(rng.randint(4, 22)):
        r = rng.random()
        d = rng.choice(evs)[0]['d'] if rng.random() < .6 else evs[min(last, len(evs) - 1)][0]['d']
        if r < .3:
            j = last if rng.random() < .75 else rng.randrange(len(evs))
            if j < len(evs):
                sad, raw, sg, wg = evs[j]
                if rng.random() < .3:
                    wg = wg[:rng.randint(0, len(wg))]
                if rng.random() < .25:
                    wg = wg + [('A', rng.randrange(3), 0, 901, True)]
                if rng.random() < .1:
                    sg = sg + [('A', rng.randrange(3), 0, 901, True)]
                steps.append(('ev', j, sg, wg))
                last = max(last, j + 1)
        elif r < .42:
            k = rng.randrange(len(recs))
            steps.append(('rev', k, rng.randint(1, len(recs[k][2]))))
        elif r < .55:
            steps.append(('esc',))
        elif r < .85:
            z = rng.random()
            c = [cigar(d) for _ in range(rng.randint(1, 3))] if z < .45 or z > .92 else []
            w = [wiger(d) for _ in range(rng.randint(1, 3))] if .45 <= z < .7 or z > .92 else []
            t = [tsg(d) for _ in range(rng.randint(1, 2))] if .7 <= z else []
            steps.append(('rct', d, c, w, t, rng.random() < .5, rng.random() < .3))
        else:
            z = rng.random() < .6
            steps.append(('att', d, [cigar(d) for _ in range(rng.randint(1, 3))] if z else [], [] if z else [tsg(d)], rng.random() < .3, rng.random() < .3))
    own = None
    if rng.random() < .15:
        own = rng.choice(allw + [recs[0][0], g.st.pre]) if allw else g.st.pre
    return dict(pre=g.st.pre, evs=[(s[0], s[2], s[3]) for s in evs], recs=recs, steps=steps, own=own)


# ------------------------------------------------------------ check
def check(case):
    if case is None:
        raise Skip
    w = kel.World()
    try:
        return run(w, case)
    finally:
        w.close()


def run(w, case):
    from keri.core import coring, indexing, serdering, eventing
    from keri.core.coring import Verfer, Prefixer, Number, Diger, Cigar
    from keri import kering
    pre, evs, recs = case['pre'], case['evs'], case['recs']
    ref = Ref({**{s[0]['d']: s[0] for s in evs}, **{e[0]['d']: e[0] for r in recs for e in r[2]}})
    kvy, db = w.kvy, w.db
    own = case['own']
    if own:
        kvy.lax = False
        db.prefixes.add(own)
        kvy.prefixes.add(own)
    checked = {}

    def data(o):
        return ref.raw.get(o, b'junk')

    def mk_c(c):
        return Cigar(raw=sign(c[1], data(c[2])), code='0B', verfer=Verfer(qb64=c[0]))

    def mk_w(x):
        return indexing.Siger(raw=sign(x[1], data(x[2])), index=x[0])

    def mk_t(t):
        (k, sn, said), sg = t
        return (Prefixer(qb64=recs[k][0]), Number(num=sn), Diger(qb64=said), [mk_w(x) for x in sg])

    def verifies(kq, raw64, said):
        if (kq, raw64, said) not in checked:
            checked[kq, raw64, said] = Verfer(qb64=kq).verify(raw64, ref.raw[said])
        return checked[kq, raw64, said]

    def held(d):
        return dict(rcts={(v.qb64, c.qb64) for v, c in db.rcts.get(keys=(pre, d))}, wigs={(s.index, s.qb64) for s in db.wigs.get(keys=(pre, d))},
                    sigs={(s.index, s.qb64) for s in db.sigs.get(keys=(pre, d))},
                    vrcs={(tuple(k[2:]), s.index, s.qb64) for k, s in db.vrcs.getTopItemIter(keys=(pre, d, ''))})

    def accepted(d):
        return db.fons.get(keys=(pre, d)) is not None

    def fine(where):
        for sad, _, _ in evs:
            d = sad['d']
            if not accepted(d):
                h = held(d)
                need(not h['rcts'] and not h['vrcs'], f'{where}: receipts {h} are stored for the event {d} that is not accepted')
                continue
            wits = ref.wits(d)
            h = held(d)
            for v, c in h['rcts']:
                need(v[0] == 'B', f'{where}: receipt of {sad["t"]} {sad["s"]} credited to transferable key {v}')
                need(verifies(v, Cigar(qb64=c).raw, d), f'{where}: stored receipt of {sad["t"]} {sad["s"]} does not verify with the key {v} it is credited to')
                need(v not in wits, f'{where}: receipt of witness {v} for {sad["t"]} {sad["s"]} is stored as that of another')
            for i, q in h['wigs']:
                need(i < len(wits), f'{where}: receipt of {sad["t"]} {sad["s"]} credited to witness number {i} of {len(wits)}')
                need(verifies(wits[i], indexing.Siger(qb64=q).raw, d), f'{where}: stored receipt of {sad["t"]} {sad["s"]} does not verify with witness {i} it is credited to')
            e = sad
            while e['t'] == 'ixn':
                e = ref.evs[e['p']]
            for i, q in h['sigs']:
                need(i < len(e['k']) and verifies(e['k'][i], indexing.Siger(qb64=q).raw, d), f'{where}: stored signature {i} of {sad["t"]} {sad["s"]} does not verify')
            for (rpre, rsn, rd), i, q in h['vrcs']:
                k = [r[0] for r in recs].index(rpre)
                est = ref.evs.get(rd)
                need(est is not None and est['i'] == rpre and int(est['s'], 16) == int(rsn, 16) and 'k' in est, f'{where}: receipt credited to {rd} that is not an establishment event of {rpre} at {rsn}')
                need(db.kels.getLast(keys=rpre, on=int(rsn, 16)) == rd, f'{where}: receipt credited to the event {rd} of {rpre} that is not accepted')
                need(i < len(est['k']) and verifies(est['k'][i], indexing.Siger(qb64=q).raw, d), f'{where}: stored receipt of {sad["t"]} {sad["s"]} does not verify with key {i} of {rpre} at {rsn}')

    def ready(d):
        return accepted(d) and db.kels.getLast(keys=pre, on=int(ref.evs[d]['s'], 16)) == d

    def barred(rpre, local):
        return own and rpre == own and (pre == own or not local)

    def c_ok(c, d, local):
        return c[0][0] == 'B' and not barred(c[0], local) and verifies(c[0], sign(c[1], data(c[2])), d)

    def expect_c(c, d, local):
        if c_ok(c, d, local):
            wits = ref.wits(d)
            h = held(d)
            q = mk_c(c)
            if c[0] in wits:
                i = wits.index(c[0])
                need((i, indexing.Siger(raw=q.raw, index=i).qb64) in h['wigs'], f'{where}: good receipt of witness {c[0]} is not stored')
            else:
                need((c[0], q.qb64) in h['rcts'], f'{where}: good receipt of {c[0]} is not stored')

    def t_state(t):
        (k, sn, said), sg = t
        last = db.kels.getLast(keys=recs[k][0], on=sn)
        return last

    def expect_t(ts, d, local, e):
        for t in ts:
            (k, sn, said), sg = t
            if barred(recs[k][0], local) or t_state(t) != said or 'k' not in ref.evs[said] or any(x[0] >= len(ref.evs[said]['k']) for x in sg):
                return
            for x in sg:
                if verifies(ref.evs[said]['k'][x[0]], mk_w(x).raw, d):
                    need(((recs[k][0], '%032x' % sn, said), x[0], mk_w(x).qb64) in held(d)['vrcs'], f'{where}: good receipt of {recs[k][0]} at {sn} is not stored')
                elif e is not None:
                    return

    def other(d):
        return any(x != d for x in db.kels.get(keys=pre, on=int(ref.evs[d]['s'], 16)))

    promised = []
    for n, st in enumerate(case['steps']):
        op = st[0]
        where = f'step {n} {op}'
        if op == 'ev':
            sad, _, _ = evs[st[1]]
            w.process(ser(sad), st[2], st[3])
        elif op == 'rev':
            for sad, raw, keys in recs[st[1]][2][:st[2]]:
                w.process(raw, [('A', i, i, k, True) for i, k in enumerate(keys)], [])
        elif op == 'esc':
            kvy.processEscrows()
        elif op == 'rct':
            _, d, cs, ws, ts, asr, local = st
            sad = ref.evs[d]
            serder = eventing.receipt(pre=pre, sn=int(sad['s'], 16), said=d, pvrsn=kering.Vrsn_1_0, kind='JSON')
            was = ready(d)
            known = db.kels.getLast(keys=pre, on=int(sad['s'], 16)) is not None
            err = None
            try:
                kvy.processReceipt(serder=serder, cigars=[mk_c(c) for c in cs], wigers=[mk_w(x) for x in ws],
                                   tsgs=[] if asr else [mk_t(t) for t in ts], rsgs=[mk_t(t) for t in ts] if asr else [], local=local)
            except (kering.ValidationError, ValueError) as e:
                err = e
            if was:
                for c in cs:
                    expect_c(c, d, local)
                wits = ref.wits(d)
                for x in ws:
                    if x[0] < len(wits) and not barred(wits[x[0]], local) and verifies(wits[x[0]], mk_w(x).raw, d):
                        need((x[0], mk_w(x).qb64) in held(d)['wigs'], f'{where}: good receipt of witness {x[0]} is not stored')
                expect_t(ts, d, local, err)
            elif known:
                need(err is not None, f'{where}: a receipt of an event other than the accepted one is taken')
            else:
                need(err is not None, f'{where}: a receipt of an event not yet accepted is taken')
                u = {(a.qb64, b.qb64, c.qb64) for _, (a, b, c) in db.ures.getTopItemIter(keys=(pre, ''))}
                for c in cs:
                    if c[0][0] == 'B':
                        need((d, c[0], mk_c(c).qb64) in u, f'{where}: receipt of an event not yet accepted is not held')
                u = {tuple(v) for _, on, v in db.uwes.getTopItemIter(keys=(pre, ''))}
                for x in ws:
                    need((d, mk_w(x).qb64) in u, f'{where}: witness receipt of an event not yet accepted is not held')
                u = {(a.qb64, b.qb64, c.sn, e.qb64, f.qb64) for _, (a, b, c, e, f) in db.vres.getTopItemIter(keys=(pre, ''))}
                for (k, sn, said), sg in ts:
                    for x in sg:
                        need((d, recs[k][0], sn, said, mk_w(x).qb64) in u, f'{where}: receipt group for an event not yet accepted is not held')
                promised.append((d, cs, ts))
        else:
            _, d, cs, ts, local, firn = st
            sad = ref.evs[d]
            try:
                serder = serdering.SerderKERI(raw=ref.raw[d])
            except kering.ValidationError:
                continue                  # malformed event has no receipts attached
            fn = db.fons.get(keys=(pre, d))
            firner = Number(num=fn.num) if firn and fn is not None else None
            was = accepted(d) if firner is not None else ready(d)
            err = None
            try:
                if cs:
                    kvy.processAttachedReceiptCouples(serder=serder, cigars=[mk_c(c) for c in cs], firner=firner, local=local)
                else:
                    kvy.processAttachedReceiptSigGroups(serder=serder, rsgs=[mk_t(t) for t in ts], firner=firner, local=local)
            except (kering.ValidationError, ValueError) as e:
                err = e
            if was:
                for c in cs:
                    expect_c(c, d, local)
                if all(recs[t[0][0]][0] in kvy.kevers for t in ts):
                    expect_t(ts, d, local, err)
        fine(where)
        promised = [x for x in promised if not other(x[0])]
    # everything arrives: what was held is credited or dropped under the same condition
    where = 'at the end'
    for pre_, kt, es in recs:
        for sad, raw, keys in es:
            w.process(raw, [('A', i, i, k, True) for i, k in enumerate(keys)], [])
    for sad, sg, wg in evs:
        w.process(ser(sad), sg, wg)
        promised = [x for x in promised if not other(x[0])]      # held receipts of what is not accepted at their sn are dropped
    for _ in range(3):
        kvy.processEscrows()
        fine(where)
    for d, cs, ts in promised:
        if not other(d) and ready(d):
            for c in cs:
                expect_c(c, d, True) if not own else None
            for (k, sn, said), sg in ts:
                if t_state(((k, sn, said), sg)) == said and 'k' in ref.evs[said]:
                    for x in sg:
                        if x[0] < len(ref.evs[said]['k']) and verifies(ref.evs[said]['k'][x[0]], mk_w(x).raw, d):
                            need(((recs[k][0], '%032x' % sn, said), x[0], mk_w(x).qb64) in held(d)['vrcs'], f'{where}: held receipt of {recs[k][0]} at {sn} is not credited')
    return None


def units():
    from .p_receipts import units_c24
    return units_c24()



GROUPS = [
    Group('receipts', gen, check, 800, FN, chunks=8,
          bound='histories of up to 7 events of an identifier with witnesses, up to 2 transferable receiptors with up to 3 events, 22 deliveries, receipts and escrow passes'),
]
ASSUMPTIONS = ['an event stored under a digest is the message with that digest, and a message with the digest of a stored event is that event (content addressing, collision free digests)', 'dgKey(pre, dig) and (pre, dig) are one key',
               'signatures of an accepted event and its receipts are those stored under the event digest; what is attached to an event still in escrow is held, not credited']
RULE = 'every receipt stored for an accepted event verifies over its bytes with the key it is stored under, and good receipts are stored'
