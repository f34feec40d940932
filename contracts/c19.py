"""C19: request replays and stale requests are refused."""
import datetime
from .base import *
from . import kel
from .kel import key, dig, saidify, sign, tsat
from .replies import T0, instant, make_aid

K = 'src/keri/core/kraming.py:Kramer.'
ILKS2 = ('qry', 'rpy', 'exn', 'xip')
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def saidify2(sad):
    """size and SAID of a version 2 JSON message"""
    sad = dict(sad)
    sad['d'] = '#' * 44
    sad['v'] = 'KERICAACAAJSONAAAA.'
    n = len(kel.ser(sad))
    sad['v'] = 'KERICAACAAJSON' + ''.join(B64[n >> s & 63] for s in (18, 12, 6, 0)) + '.'
    sad['d'] = dig(kel.ser(sad))
    return sad, kel.ser(sad)


def ms(dt):
    return (instant(dt) - T0) / datetime.timedelta(milliseconds=1)


def stamp(t, off=0):
    return (T0 + datetime.timedelta(milliseconds=t)).astimezone(datetime.timezone(datetime.timedelta(minutes=off))).isoformat(timespec='microseconds')


def message(ilk, v, pre, t, r, x='', n=0):
    dt = stamp(t, 60 if n % 5 == 0 else 0)
    if v == 1:
        return saidify(dict(v='', t='exn', d='', i=pre, rp='', p='', dt=dt, r=r, q={}, a=dict(n=n), e={}))
    if ilk == 'qry':
        b = dict(i=pre, dt=dt, r=r, rr='', q=dict(n=n))
    elif ilk == 'rpy':
        b = dict(i=pre, dt=dt, r=r, a=dict(n=n))
    elif ilk == 'exn':
        b = dict(i=pre, ri='', x=x, p='', dt=dt, r=r, q={}, a=dict(n=n))
    else:
        b = dict(u='', i=pre, ri='', dt=dt, r=r, q={}, a=dict(n=n))
    return saidify2(dict(v='', t=ilk, d='', **b))


# ------------------------------------------------------------ reference
class Ref:
    def __init__(self, cfg, aids):
        self.cfg = cfg
        self.aids = aids
        self.known = {p: 0 for p in aids}
        self.extra = {p: [] for p in aids}       # further interaction events with seals
        self.accepted = set()
        self.seen = set()
        self.started = set()                     # presented in time with at least one good signature of the sender
        self.sigs = {}                           # said -> set of (idx, signer) good
        self.exch = {}                           # (sender, xid) -> dict(xdt, policy) from a cached xip
        self.deny, self.allow = set(), set()

    def log(self, p):
        return (self.aids[p][1] + self.extra[p])[:self.known[p]]

    def policy(self, ilk, r):
        c = self.cfg['caches']
        for k in ((f'{ilk}.R.{r}',) if r else ()) + (ilk, '~'):
            if k in c:
                return c[k]
        return None

    def exempt(self, sad, v):
        if not self.cfg['enabled']:
            return True
        ds = list(self.cfg['denials']) + [[[2, 0], 'rpy', '/end/role'], [[2, 0], 'rpy', '/loc/scheme']]
        for (maj, mi), ilk, r in ds:
            if maj == v and mi == 0 and (not ilk or ilk == sad['t']) and (not r or sad['r'].startswith(r)):
                return True
        return False

    def seal(self, sad, att):
        """is there a valid seal reference as last of the sender's"""
        c = [x[1:] for x in att if x[0] == 'sscs'] + [x[2:] for x in att if x[0] == 'ssts' and x[1] == sad['i']]
        if not c:
            return None
        out = []
        for sn, dg in c:
            l = self.log(sad['i'])
            out.append(sn < len(l) and l[sn][0]['d'] == dg and any(s.get('d') == sad['d'] for s in l[sn][0].get('a', [])))
        return out

    def keys(self, p):
        l = self.log(p)
        if p[0] == 'B':
            return None
        return next((e[2] for e in reversed(l) if e[0]['t'] != 'ixn'), None) if l else None

    def judge(self, sad, raw, v, att, now):
        """(may be accepted, must be accepted, verified now)"""
        p, said = sad['i'], sad['d']
        if p in self.deny or self.allow and p not in self.allow:
            return False, False
        if self.exempt(sad, v):
            return True, True
        pol = self.policy(sad['t'], sad['r'])
        keys = self.keys(p)
        if pol is None or keys is None:
            return False, False
        seals = self.seal(sad, att)
        mine = set()
        present = False
        for x in att:
            if x[0] == 'lsgs' and x[1] == p or x[0] == 'sigers':
                sg = x[-1]
            elif x[0] == 'tsgs' and x[1] == p:
                present = True
                l = self.log(p)
                if x[2] != len(l) - 1 or l[-1][0]['d'] != x[3]:
                    continue
                sg = x[-1]
            else:
                continue
            present = True
            mine |= {(i, s) for i, s, good in sg if good is True and i < len(keys) and keys[i] == s}
        kt = self.aids[p][0]
        d, sl, ll, xl, psl, pll, pxl = pol
        t = ms(sad['dt'])
        inwin = lambda ml: now - d - ml <= t <= now + d
        multi = len(keys) > 1
        acc = self.sigs.setdefault(said, set())
        acc |= mine
        acc = {(i, s) for i, s in acc if i < len(keys) and keys[i] == s}
        sealed = bool(seals) and any(seals)
        sealall = bool(seals) and all(seals)
        now_ok = tsat(kt, {i for i, _ in mine}) if multi else bool(mine)
        acc_ok = tsat(kt, {i for i, _ in acc}) if multi else bool(mine)
        # exchange
        xid = said if sad['t'] == 'xip' else sad.get('x') if v == 2 and sad['t'] == 'exn' else None
        xmay = xmust = True
        if xid:
            if sad['t'] == 'xip':
                xdt = t
            else:
                ex = self.exch.get((p, xid))
                if ex is None:
                    xmay = xmust = False
                    xdt = t
                else:
                    xdt = ex['xdt']
                    xmust = now <= xdt + ex['pxl']
            if not xdt <= t <= xdt + xl:
                xmay = xmust = False
        lag = sl if (sealall or not multi) else ll
        may = must = False
        if said not in self.accepted:
            if sealed and inwin(sl) and xmay:
                may = True
            if acc_ok and (inwin(ll if multi else sl) and xmay or said in self.started):
                may = True
            if said not in self.seen and xmust:
                if sealall and inwin(sl) and (not present or True):
                    must = True
                elif not seals and now_ok and inwin(lag):
                    must = True
        if not seals and not present:
            may = must = False
        if (mine or sealed) and xmay and inwin(ll if multi else sl):
            self.cached = True
            if mine:
                self.started.add(said)
            if sad['t'] == 'xip' and v == 2:
                self.exch.setdefault((p, said), dict(xdt=t, pxl=pxl))
        self.seen.add(said)
        return may, must


# ------------------------------------------------------------ the real code
class Cf:
    def __init__(self, cfg):
        self.cfg = cfg

    def get(self):
        return dict(kram=dict(self.cfg, caches={k: list(v) for k, v in self.cfg['caches'].items()}))


class World(kel.World):
    def __init__(self, cfg):
        from keri.core import kraming, eventing
        from keri.help import helping
        self.h, self.saved = helping, helping.nowUTC
        self.clock = 0
        helping.nowUTC = lambda: T0 + datetime.timedelta(milliseconds=self.clock)
        super().__init__()
        self.kramer = kraming.Kramer(db=self.db, cf=Cf(cfg))
        self.kvy.kramer = self.kramer
        self.got = []
        self.done = []
        real = self.kramer.intake

        def intake(serder, kwa=None):
            r = real(serder, kwa)
            self.got.append(r)
            return r
        self.kramer.intake = intake
        rec = lambda *a, **k: self.done.append(1)
        self.kvy.processQuery = self.kvy.processXip = rec
        self.kvy.rvy = type('R', (), dict(processReply=rec))()
        self.kvy.exc = type('X', (), dict(processEvent=rec))()
        self.pruner = kraming.Pruner(self.kramer, 1).do(lambda: 0)

    def close(self):
        self.h.nowUTC = self.saved
        super().close()

    def message(self, raw, att):
        """(accepted, dispatched)"""
        from keri.core import coring
        serder = self.serder(raw)
        kwa = dict(serder=serder)
        num = lambda n: coring.Number(num=n, code=coring.NumDex.Huge)
        for x in att:
            if x[0] in ('sigers', 'lsgs', 'tsgs'):
                sg = [kel.siger('A', i, None, s, good, raw) for i, s, good in x[-1]]
            if x[0] == 'sigers':
                kwa.setdefault('sigers', []).extend(sg)
            elif x[0] == 'lsgs':
                kwa.setdefault('lsgs', []).append((coring.Prefixer(qb64=x[1]), sg))
            elif x[0] == 'tsgs':
                kwa.setdefault('tsgs', []).append((coring.Prefixer(qb64=x[1]), num(x[2]), coring.Diger(qb64=x[3]), sg))
            elif x[0] == 'sscs':
                kwa.setdefault('sscs', []).append((num(x[1]), coring.Diger(qb64=x[2])))
            elif x[0] == 'ssts':
                kwa.setdefault('ssts', []).append((coring.Prefixer(qb64=x[1]), num(x[2]), coring.Diger(qb64=x[3])))
        self.got.clear()
        self.done.clear()
        err = None
        try:
            self.kvy.processMsg(kwa)
        except Exception as e:
            err = e
        return any(g is not None for g in self.got), bool(self.done), err


def check(case):
    cfg = case['cfg']
    aids = {p: (kt, [tuple(e) for e in ev]) for p, kt, ev in case['aids']}
    ref = Ref(cfg, aids)
    w = World(cfg)
    try:
        for si, st in enumerate(case['steps']):
            where = f'step {si} {st[0]} at {w.clock} ms'
            if st[0] == 'kel':
                p = st[1]
                ev = aids[p][1] + ref.extra[p]
                i = ref.known[p]
                if i < len(ev):
                    sad, raw, keys = ev[i]
                    e = w.process(raw, [('A', j, j, k, True) for j, k in enumerate(keys)], [])
                    need(e is None, f'{where}: key event refused {e}')
                    ref.known[p] += 1
            elif st[0] == 'ixn':      # the sender seals the message in its log
                p = st[1]
                sad, raw, keys = st[2]
                l = ref.log(p)
                if sad['p'] != l[-1][0]['d']:
                    continue
                e = w.process(raw, [('A', j, j, k, True) for j, k in enumerate(keys)], [])
                need(e is None, f'{where}: key event refused {e}')
                ref.extra[p].append((sad, raw, keys))
                ref.known[p] += 1
            elif st[0] == 'clock':
                w.clock += st[1]
            elif st[0] == 'prune':
                next(w.pruner)
            elif st[0] == 'lists':
                ref.deny, ref.allow = set(st[1]), set(st[2])
                w.kvy.denyList.clear()
                w.kvy.denyList.update(st[1])
                w.kvy.allowList.clear()
                w.kvy.allowList.update(st[2])
            elif st[0] == 'config':
                w.kramer.changeConfig(Cf(st[1]))
            else:
                _, sad, raw, v, att = st
                may, must = ref.judge(sad, raw, v, att, w.clock)
                ok, done, err = w.message(raw, att)
                what = f'{where}: {sad["t"]} {sad["r"]} of {sad["i"]} dated {ms(sad["dt"]):g} ms'
                need(ok or not done, f'{what} was processed although not accepted')
                if ok:
                    need(may, f'{what} accepted although ' + ('accepted before' if sad['d'] in ref.accepted else 'not timely, not authenticated or excluded'))
                    if not ref.exempt(sad, v):
                        ref.accepted.add(sad['d'])
                else:
                    need(not must, f'{what} refused although timely, new and authenticated ({type(err).__name__}: {err})')
    except Bad as e:
        return str(e)
    finally:
        w.close()
    return None


def gen(rng):
    def lags():
        sl = rng.choice([1000, 2000])
        ll = sl + rng.choice([0, 1000, 3000])
        xl = ll + rng.choice([0, 2000])
        d = rng.choice([0, 500, 1000])
        return [d, sl, ll, xl, sl + rng.choice([0, 0, 1500]), ll + rng.choice([0, 0, 1500]), xl + rng.choice([0, 0, 2000])]
    caches = {'~': lags()}
    if rng.random() < .15:
        del caches['~']
    for k in ('qry', 'exn', 'xip', 'rpy', 'qry.R.ksn', 'exn.R.ksn', 'rpy.R.logs'):
        if rng.random() < .3:
            caches[k] = lags()
    if not caches:
        caches['qry'] = lags()
    denials = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        denials.append([[rng.choice([1, 2]), 0], rng.choice(['qry', 'exn', 'rpy', 'xip']), rng.choice(['', 'ksn', 'logs', 'k'])])
    if rng.random() < .04:
        denials.append([[rng.choice([1, 2]), 0], '', ''])
    cfg = dict(enabled=rng.random() > .03, denials=denials, caches=caches)
    aids = [make_aid(rng, 100, 1, ['rot']), make_aid(rng, 200, rng.choice([2, 3]), ['rot'])]
    ev = {a[0]: a for a in aids}
    known = {a[0]: [] for a in aids}
    pend = {a[0]: list(a[2]) for a in aids}
    steps = []
    now = 0

    def kels(p):
        if pend[p]:
            e = pend[p].pop(0)
            known[p].append(e)
            steps.append(('kel', p))
    for a in aids:
        if rng.random() < .93:
            kels(a[0])
    made, xips = [], []
    cnt = 0
    mainp = rng.choice(list(ev))
    for _ in range(rng.randint(5, 14)):
        q = rng.random()
        if q < .2:
            dt = rng.choice([0, 1, 250, 500, 999, 1000, 1001, 1500, 2000, 3000, 5000])
            now += dt
            steps.append(('clock', dt))
            continue
        if q < .33:
            steps.append(('prune',))
            continue
        if q < .37:
            p = rng.choice(list(ev))
            if not any(s[0] == 'ixn' and s[1] == p for s in steps):
                kels(p)
            continue
        if q < .39:
            c = rng.choice(list(ev))
            steps.append(('lists',) + rng.choice([([], []), ([c], []), ([], [c]), ([c], [c])]))
            continue
        p = mainp if rng.random() < .75 else rng.choice(list(ev))
        if made and rng.random() < .55:
            sad, raw, v, p = rng.choice(made[-4:])
        else:
            cnt += 1
            ilk = rng.choice(ILKS2)
            v = 2
            if ilk == 'exn' and rng.random() < .4:
                v = 1
            x = ''
            if ilk == 'exn' and v == 2:
                r = rng.random()
                x = rng.choice([m[0]['d'] for m in xips if m[3] == p] or ['']) if r < .85 else rng.choice(['', dig('nothing')])
            t = now + rng.choice([0, 0, 0, 0, 500, 1000, 1001, -500, -1000, -1001, -2000, -3000, -4000, 2500])
            sad, raw = message(ilk, v, p, t, rng.choice(['ksn', 'logs', 'ksnx']), x, cnt)
            made.append((sad, raw, v, p))
            if ilk == 'xip':
                xips.append(made[-1])
        att = []
        l = known[p]
        keys = next((e[2] for e in reversed(l) if e[0]['t'] != 'ixn'), ev[p][2][0][2]) if l else ev[p][2][0][2]
        if rng.random() < .05 and len(l) > 1:
            keys = l[0][2]

        def sg():
            if rng.random() < .5:
                idx = list(range(len(keys)))
            else:
                idx = [rng.randrange(len(keys))]
            out = []
            for i in idx:
                q = rng.random()
                out.append((i, keys[i] if q < .95 else 77, True if q < .9 else 'flip') if q < .97 else (i + 1, keys[i], True))
            if rng.random() < .1:
                out.append(rng.choice(out))
            return out
        q = rng.random()
        if q < .12 and l and rng.random() < .9:
            if rng.random() < .75 and not pend[p]:
                last = l[-1][0]
                e = saidify(dict(v='', t='ixn', d='', i=p, s='%x' % len(l), p=last['d'], a=[dict(d=sad['d'] if rng.random() < .85 else dig('x'))]))
                steps.append(('ixn', p, (*e, next(e[2] for e in reversed(l) if e[0]['t'] != 'ixn'))))
                l.append(steps[-1][2])
        if q < .3 and l:
            n = rng.randrange(len(l)) if rng.random() < .3 else len(l) - 1
            dg = l[n][0]['d'] if rng.random() < .9 else dig('zz')
            att.append(rng.choice([('sscs', n, dg), ('ssts', p, n, dg)]))
        if q > .12 and q < .97:
            k = rng.random()
            if k < .45:
                att.append(('lsgs', p if rng.random() < .95 else rng.choice(list(ev)), sg()))
            elif k < .6:
                att.append(('sigers', sg()))
            elif k < .95 and l:
                n = len(l) - 1 if rng.random() < .85 else rng.randrange(len(l))
                att.append(('tsgs', p, n, l[n][0]['d'] if rng.random() < .95 else dig('q'), sg()))
            if rng.random() < .15:
                o = rng.choice([a for a in ev if a != p])
                att.append(('lsgs', o, [(0, ev[o][2][0][2][0], True)]))
        steps.append(('msg', sad, raw, v, att))
    return dict(cfg=cfg, aids=aids, steps=steps)


def policy_change():
    """a request accepted just before the accept window is widened, presented again just after"""
    import random
    aid = make_aid(random.Random(5), 100, 1, ['rot'])
    sad, raw = message('qry', 2, aid[0], -500, 'ksn', '', 1)
    att = [('lsgs', aid[0], [(0, aid[2][0][2][0], True)])]
    old = dict(enabled=True, denials=[], caches={'~': [1000, 1000, 1000, 1000, 1000, 1000, 1000]})
    new = dict(enabled=True, denials=[], caches={'~': [1000, 5000, 5000, 5000, 5000, 5000, 5000]})
    return [dict(cfg=old, aids=[aid], steps=[('kel', aid[0]), ('msg', sad, raw, 2, att), ('config', new), ('clock', 3000), ('prune',), ('clock', 1000), ('msg', sad, raw, 2, att)])]


FN = [K + x for x in ('__init__', 'intake', 'denial', 'kramit', '_fetchCacheType', '_hasSeals', '_hasSigs', '_normalizeSenderSeals', '_normalizeSenderTlsgs',
                      '_normalizeCurrentSenderTsgs', '_resolveAuthType', '_scrubSameSenderPriorEventTsgs', '_scrubFailedVerification', '_verifyAttachedSigs',
                      '_validateSenderSeal', '_pruneMessages', '_pruneExchanges')] + ['src/keri/core/eventing.py:Kevery.processMsg']
GROUPS = [
    Group('requests', gen, check, n=3000, functions=FN, chunks=8,
          bound='histories of up to 14 steps: single and multiple signature senders, seals, partial signatures, exchanges, version 1 and 2 messages, pruning and clock steps at the '
                'window boundaries, exemptions, allow and deny lists'),
    Group('policychange', lambda rng: policy_change()[0], check, n=1, functions=[K + 'changeConfig', K + 'reconcileConfig'], fixed=policy_change, chunks=1,
          bound='one history: the accept window is widened after a request was accepted'),
]
ASSUMPTIONS = ['the receiver\'s clock never steps back']
