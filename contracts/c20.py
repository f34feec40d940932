"""C20: credential registries move only through lawful states."""
import json
from .base import *
from . import kel
from .kel import key, dig, saidify, sign

T = 'src/keri/vdr/eventing.py:'


# ------------------------------------------------------------ reference
class Ref:
    """Accepted issuer logs and registry logs, and what may follow them."""

    def __init__(self):
        self.kels = {}      # issuer -> [sad]
        self.tels = {}      # registry or credential -> [(sad, raw)]
        self.given = {}     # said of registry event -> (sad, raw, [couples], {wigs})

    def registry(self, sad):
        return dict(vcp='i', vrt='i', iss='ri', rev='ri').get(sad['t']) and sad[dict(vcp='i', vrt='i', iss='ri', rev='ri')[sad['t']]] or sad['ra']['i']

    def is_reg(self, r):
        return r in self.tels and self.tels[r][0][0]['t'] == 'vcp'

    def issuer(self, r):
        return self.tels[r][0][0]['ii']

    def nb(self, r):
        return 'NB' in self.tels[r][0][0]['c']

    def backers(self, r, n):
        """(threshold, backers) of registry r after its n-th event"""
        b = list(self.tels[r][0][0]['b'])
        for sad, _ in self.tels[r][1:n + 1]:
            b = [x for x in b if x not in sad['br']] + list(sad['ba'])
        return int(self.tels[r][n][0]['bt'], 16), b

    def anchored(self, issuer, sad, couple):
        if couple is None:
            return False
        sn, d = couple
        l = self.kels.get(issuer, [])
        return sn < len(l) and l[sn]['d'] == d and l[sn].get('a') == [dict(i=sad['i'], s=sad['s'], d=sad['d'])]

    def enough(self, raw, wigs, toad, baks):
        return len(signers(raw, wigs, baks)) >= toad

    def lawful(self, sad, raw, couples, wigs):
        t, i, s = sad['t'], sad['i'], int(sad['s'], 16)
        log = self.tels.get(i)
        r = self.registry(sad)
        if t == 'vcp':
            b, n = sad['b'], int(sad['bt'], 16)
            if log is not None or s or len(set(b)) != len(b) or not (1 <= n <= len(b) if b else n == 0):
                return False
            return any(self.anchored(sad['ii'], sad, c) for c in couples) and self.enough(raw, wigs, n, b)
        if not self.is_reg(r) or not any(self.anchored(self.issuer(r), sad, c) for c in couples):
            return False
        if t == 'vrt':
            cur = self.backers(r, len(log) - 1)[1]
            cuts, adds, n = sad['br'], sad['ba'], int(sad['bt'], 16)
            if self.nb(r) or s != len(log) or sad['p'] != log[-1][0]['d'] or len(set(cuts)) != len(cuts) or len(set(adds)) != len(adds):
                return False
            if not set(cuts) <= set(cur) or set(adds) & set(cur) or set(adds) & set(cuts):
                return False
            b = [x for x in cur if x not in cuts] + list(adds)
            return (1 <= n <= len(b) if b else n == 0) and self.enough(raw, wigs, n, b)
        if t in ('iss', 'bis'):
            if log is not None or s:
                return False
        else:
            if log is None or len(log) != 1 or s != 1 or log[0][0]['t'] not in ('iss', 'bis') or self.registry(log[0][0]) != r or sad['p'] != log[0][0]['d']:
                return False
        if self.nb(r) != (t in ('iss', 'rev')):
            return False
        if t in ('iss', 'rev'):
            return True
        n = next((n for n, e in enumerate(self.tels[r]) if e[0]['d'] == sad['ra']['d']), None)
        if n is None:
            return False
        return self.enough(raw, wigs, *self.backers(r, n))


def signers(raw, wigs, baks):
    """positions of backers with a good signature: wigs are (index, signer, good)"""
    return {i for i, s, good in wigs if i < len(baks) and good is True and baks[i] == key(s, False)}


# ------------------------------------------------------------ real side
class World(kel.World):
    def __init__(self):
        from keri.vdr import eventing
        super().__init__()
        self.reger = eventing.Reger(name='v', temp=True, reopen=True, db=self.db)
        self.tvy = eventing.Tevery(reger=self.reger, db=self.db, local=False, lax=True)

    def close(self):
        self.reger.close(clear=True)
        super().close()

    def tel(self, raw, couple, wigs):
        from keri.core import coring
        try:
            serder = self.serder(raw)
        except Exception as e:
            return e
        kw = {}
        if couple is not None:
            kw = dict(seqner=coring.Seqner(sn=couple[0]), saider=coring.Saider(qb64=couple[1]))
        sg = [kel.siger('A', i, None, s, good, raw) for i, s, good in wigs]
        try:
            self.tvy.processEvent(serder=serder, wigers=sg or None, **kw)
        except Exception as e:
            return e
        return None

    def dump(self):
        out = {}
        for keys, on, d in self.reger.tels.getAllItemIter():
            out.setdefault(keys[0] if isinstance(keys, tuple) else keys, []).append(d if isinstance(d, str) else bytes(d).decode())
        return out


def check(case):
    w = World()
    try:
        ref = Ref()
        counts = 0
        for n, st in enumerate(case):
            where = f'step {n} {st[0]}'
            if st[0] == 'kel':
                _, pre, sad, raw, k = st
                e = w.process(raw, [('A', 0, None, k, True)], [])
                need(e is None, f'{where}: issuer event refused: {e!r}')
                ref.kels.setdefault(pre, []).append(sad)
                continue
            if st[0] == 'tel':
                _, sad, raw, couple, wigs = st
                g = ref.given.setdefault(sad['d'], (sad, raw, [], set()))
                g[2].append(couple)
                g[3].update(wigs)
                ok = ref.lawful(sad, raw, [couple], wigs)
                e = w.tel(raw, couple, wigs)
                if ok:
                    ref.tels.setdefault(sad['i'], []).append((sad, raw))
                    counts += 1
                    need(e is None, f'{where}: lawful {sad["t"]} refused: {e!r}')
            elif st[0] == 'escrow':
                w.tvy.processEscrows()
                got = w.dump()
                more = True
                while more:
                    more = False
                    for i, l in got.items():
                        k = len(ref.tels.get(i, []))
                        if k < len(l) and l[k] in ref.given:
                            sad, raw, cs, ws = ref.given[l[k]]
                            if ref.lawful(sad, raw, cs, ws):
                                ref.tels.setdefault(i, []).append((sad, raw))
                                more = True
            elif st[0] == 'restart':
                dict.clear(w.reger._tevers)
            agree(w, ref, where)
    finally:
        w.close()


def agree(w, ref, where):
    got = w.dump()
    exp = {i: [e[0]['d'] for e in l] for i, l in ref.tels.items()}
    if got != exp:
        for i in sorted(set(got) | set(exp)):
            a, b = got.get(i, []), exp.get(i, [])
            if a != b:
                n = next((n for n in range(max(len(a), len(b))) if a[n:n + 1] != b[n:n + 1]))
                t = ref.given[a[n]][0]['t'] if n < len(a) and a[n] in ref.given else 'event'
                raise Bad(f'{where}: log of {i[:8]} has {t} {a[n:n + 1]} at {n} where {b[n:n + 1]} is lawful')
    for r in [i for i in exp if ref.is_reg(i)]:
        log = ref.tels[r]
        need(r in w.reger.tevers, f'{where}: registry {r[:8]} lost')
        tv = w.reger.tevers[r]
        toad, baks = ref.backers(r, len(log) - 1)
        st = tv.state()
        last = log[-1][0]
        need((tv.sn, tv.serder.said, tv.pre, tv.regk) == (len(log) - 1, last['d'], ref.issuer(r), r), f'{where}: registry state at {tv.sn} {tv.serder.said[:8]}')
        need((st.i, int(st.s, 16), st.d, st.ii, st.et, int(st.bt, 16), list(st.b), 'NB' in st.c) == (
            r, len(log) - 1, last['d'], ref.issuer(r), last['t'], toad, baks, ref.nb(r)), f'{where}: reported registry state {st} is not that of the latest event')
        for v, l in ref.tels.items():
            if ref.is_reg(v):
                continue
            cs = tv.vcState(v)
            if ref.registry(l[0][0]) != r:
                need(cs is None, f'{where}: registry {r[:8]} reports state {cs} of a credential another registry issued')
                continue
            need(cs is not None and (cs.i, int(cs.s, 16), cs.d, cs.ri, cs.et) == (v, len(l) - 1, l[-1][0]['d'], r, l[-1][0]['t']),
                 f'{where}: reported credential state {cs} is not that of the latest event')
            need(ref.anchored(ref.issuer(r), l[-1][0], (cs.a['s'], cs.a['d'])), f'{where}: reported anchor {cs.a} of {l[-1][0]["t"]} is not where it is anchored')
        need(tv.vcState(dig('never')) is None, f'{where}: state of a credential never issued')
    for i, l in ref.tels.items():
        for sad, raw in l:
            r = ref.registry(sad)
            a = w.reger.ancs.get(keys=(i, sad['d']))
            need(a is not None and ref.anchored(ref.issuer(r), sad, (a[0].num, a[1].qb64)), f'{where}: stored anchor of {sad["t"]} is not where it is anchored')
            m = w.reger.tvts.get(keys=(i, sad['d']))
            need(m is not None and m.encode() == raw, f'{where}: stored {sad["t"]} differs')
            if sad['t'] in ('iss', 'rev'):
                continue
            n = int(sad['s'], 16) if r == i else next(n for n, e in enumerate(ref.tels[r]) if e[0]['d'] == sad['ra']['d'])
            toad, baks = ref.backers(r, n)
            ok = {(k, sign(s, raw)) for k, s, good in ref.given[sad['d']][3] if k < len(baks) and good is True and baks[k] == key(s, False)}
            sg = {(s.index, s.raw) for s in w.reger.tibs.get(keys=(i, sad['d']))}
            need(sg <= ok and len({k for k, _ in sg}) >= toad, f'{where}: backer signatures stored for {sad["t"]} are not {toad} good ones of its backers')


# ------------------------------------------------------------ generation
def gen(rng):
    steps = []
    ref = Ref()                   # what would be lawful if everything given so far were processed
    iss = {}
    nk = [200]

    def kelev(p, sad, raw, k):
        steps.append(('kel', p, sad, raw, k))
        ref.kels.setdefault(p, []).append(sad)

    for n in range(2):
        k = nk[0]
        nk[0] += 2
        sad, raw = saidify(dict(v='', t='icp', d='', i='', s='0', kt='1', k=[key(k)], nt='1', n=[dig(key(k + 1))], bt='0', b=[], c=[], a=[]), ('d', 'i'))
        iss[sad['i']] = k
        kelev(sad['i'], sad, raw, k)
    pres = list(iss)
    creds = [dig(f'cred{n}') for n in range(2)]
    seq = [0]

    def anchor(p, seals):
        l = ref.kels[p]
        sad, raw = saidify(dict(v='', t='ixn', d='', i=p, s='%x' % len(l), p=l[-1]['d'], a=seals))
        kelev(p, sad, raw, iss[p])
        return len(l) - 1, sad['d']

    def seal(sad):
        return dict(i=sad['i'], s=sad['s'], d=sad['d'])

    def wigs(raw, toad, baks):
        out = []
        q = rng.random()
        m = len(baks) if q < .5 else min(toad, len(baks)) if q < .75 else rng.randint(0, len(baks))
        for i in rng.sample(range(len(baks)), m):
            s = bk[baks[i]]
            z = rng.random()
            if z < .9:
                out.append((i, s, True))
            elif z < .94:
                out.append((i, s, False))
            elif z < .97:
                out.append((i, 199, True))
            else:
                out.append((i + 1, s, True))
        if out and rng.random() < .2:
            out.append(rng.choice(out))
        return out

    bk = {key(300 + i, False): 300 + i for i in range(6)}
    made = []                     # (sad, raw, toad, baks, couple)
    odd = rng.random() < .7

    def wild(p=.12):
        return odd and rng.random() < p

    def thold(b):
        n = rng.randint(1, len(b)) if b else 0
        if wild(.1):
            n = rng.choice([0, len(b) + 1, len(b)])
        return n

    def give(sad, raw, toad, baks, r):
        p = ref.issuer(r) if r in ref.tels else sad.get('ii', pres[0])
        if p not in iss:
            p = pres[0]
        if wild(.08):
            p = rng.choice(pres)
        s = [seal(sad)]
        if wild(.12):
            s = rng.choice([[dict(seal(sad), s='%x' % (int(sad['s'], 16) + 1))], [dict(seal(sad), d=dig('x'))], [dict(seal(sad), i=creds[0])], s + s, [], [dict(d=sad['d'])],
                            [dict(s=sad['s'], d=sad['d'])], s + [dict(d=dig('y'))]])
        late = rng.random() < .2
        if late:
            l = ref.kels[p]
            a, raw2 = saidify(dict(v='', t='ixn', d='', i=p, s='%x' % len(l), p=l[-1]['d'], a=s))
            couple = (len(l), a['d'])
        else:
            couple = anchor(p, s)
        if wild(.1):
            couple = rng.choice([(couple[0], dig('x')), (couple[0] + 1, couple[1]), (0, ref.kels[p][0]['d']), None])
        wg = wigs(raw, toad, baks)
        made.append((sad, raw, toad, baks, couple, r))
        tel(sad, raw, couple, wg)
        if late:
            kelev(p, a, raw2, iss[p])
            if rng.random() < .8:
                (tel(sad, raw, couple, wg) if rng.random() < .5 else steps.append(('escrow',)))
        if rng.random() < .15 and couple:
            # presented again, possibly with the couple it should have had
            tel(sad, raw, couple, wigs(raw, toad, baks))

    def tel(sad, raw, couple, wg):
        steps.append(('tel', sad, raw, couple, wg))
        if ref.lawful(sad, raw, [couple], wg):
            ref.tels.setdefault(sad['i'], []).append((sad, raw))

    def vcp():
        q = rng.random()
        c = ['NB'] if q < .55 else []
        b = [] if c or q > .9 else rng.sample(list(bk), rng.randint(1, 3))
        if b and wild(.1):
            b = b + [b[0]]
        if wild(.05):
            c = c + ['EO']
        p = rng.choice(pres)
        seq[0] += 1
        n = thold(b)
        sad, raw = saidify(dict(v='', t='vcp', d='', i='', ii=p, s='0' if not wild(.03) else '1', c=c, bt='%x' % n, b=b, n='0A' + ('%022d' % seq[0])), ('d', 'i'))
        give(sad, raw, n, b, sad['i'])

    def vrt():
        rs = [r for r in ref.tels if ref.is_reg(r)]
        r = rng.choice([x for x in rs if not ref.nb(x)] or rs)
        log = ref.tels[r]
        cur = ref.backers(r, len(log) - 1)[1]
        cuts = rng.sample(cur, rng.randint(0, len(cur)))
        free = [x for x in bk if x not in cur]
        adds = rng.sample(free, min(len(free), rng.randint(0, 2)))
        if wild(.1):
            cuts = cuts + rng.sample(list(bk), 1)
        if wild(.1):
            adds = adds + rng.sample(list(bk), 1)
        b = [x for x in cur if x not in cuts] + adds
        n = thold(b)
        p = log[-1][0]['d'] if not wild() else rng.choice([dig('x'), log[0][0]['d']])
        s = len(log) if not wild() else rng.choice([len(log) + 1, max(1, len(log) - 1)])
        seq[0] += 1
        sad, raw = saidify(dict(v='', t='vrt', d='', i=r, p=p, s='%x' % s, bt='%x' % n, br=cuts, ba=adds))
        give(sad, raw, n, b, r)

    def cred(kind):
        rs = [r for r in ref.tels if ref.is_reg(r)]
        r = rng.choice(rs)
        v = rng.choice(creds)
        if wild(.04):
            v = rng.choice(rs)
        log = ref.tels.get(v, [])
        if log and not wild(.2):
            r = ref.registry(log[0][0])
        nb = ref.nb(r)
        if wild(.06):
            nb = not nb
        seq[0] += 1
        dt = '2026-01-01T00:00:00.%06d+00:00' % seq[0]
        if kind == 'iss':
            s = 0 if not wild(.05) else 1
        else:
            s = max(1, len(log)) if rng.random() < .8 else rng.randint(1, 3)
        p = log[s - 1][0]['d'] if kind == 'rev' and s - 1 < len(log) and not wild() else dig('x') if not log else rng.choice(log)[0]['d']
        toad, b = 0, []
        if not nb:
            m = rng.randrange(len(ref.tels[r])) if rng.random() < .3 else len(ref.tels[r]) - 1
            d = ref.tels[r][m][0]['d']
            toad, b = ref.backers(r, m)
            if wild(.08):
                c = [x for x in made if x[0]['t'] == 'vrt' and x[0]['i'] == r] or [x for x in made if x[0]['t'] in ('vcp', 'vrt')]
                x = rng.choice(c)
                d, m, toad, b = x[0]['d'], int(x[0]['s'], 16), x[2], x[3]
            ra = dict(i=r, s='%x' % (m if not wild(.03) else m + 1), d=d)
        if kind == 'iss':
            sad = dict(v='', t='iss', d='', i=v, s='%x' % s, ri=r, dt=dt) if nb else dict(v='', t='bis', d='', i=v, ii=r, s='%x' % s, ra=ra, dt=dt)
        else:
            sad = dict(v='', t='rev', d='', i=v, s='%x' % s, ri=r, p=p, dt=dt) if nb else dict(v='', t='brv', d='', i=v, s='%x' % s, p=p, ra=ra, dt=dt)
        give(*saidify(sad), toad, b, r)

    for n in range(rng.randint(4, 14)):
        q = rng.random()
        rs = [r for r in ref.tels if ref.is_reg(r)]
        if not rs or q < .12:
            vcp()
        elif q < .24:
            vrt()
        elif q < .82:
            fresh = [v for v in creds if v not in ref.tels]
            cred('iss' if fresh and rng.random() < .55 or rng.random() < .1 else 'rev')
        elif q < .9:
            steps.append(('escrow',))
        elif q < .95:
            steps.append(('restart',))
        elif made:
            x = rng.choice(made)
            tel(x[0], x[1], x[4] if rng.random() < .7 else rng.choice(made)[4], wigs(x[1], x[2], x[3]))
    steps.append(('escrow',))
    return steps


def nontrivial(case):
    return sum(s[0] == 'tel' for s in case) > 2


FN = [T + 'Tever.' + x for x in ('__init__', 'incept', 'config', 'update', 'rotate', 'issue', 'revoke', 'vcState', 'vcSn', 'state', 'reload', 'logEvent', 'valAnchorBigs', 'verifyAnchor',
                                 'escrowPWEvent', 'escrowALEvent', 'getBackerState')] + [
    T + 'Tevery.' + x for x in ('processEvent', 'registryKey', 'escrowOOEvent', 'processEscrows', 'processEscrowOutOfOrders', 'processEscrowAnchorless')]
def units():
    from .p_vdr import units_c20
    return units_c20()


GROUPS = [
    Group('registries', gen, check, n=2400, functions=FN, chunks=8, nontrivial=nontrivial,
          bound='histories of up to 14 registry events (plus their issuers\' events, replays, escrow runs and restarts) over 2 issuers, several registries with and without '
                'backers, 2 credentials'),
]
ASSUMPTIONS = ['registry and credential identifiers are digests, so an identifier a registry has is not used as a credential\'s before the registry is known']
