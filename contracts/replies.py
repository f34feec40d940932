"""Histories of signed reply messages run through the real Revery and Kevery, judged by a small independent reference of
best available data acceptance (used by C17 and C18). Only `World` and `run` call the code under test."""
import datetime
from .base import *
from . import kel
from .kel import key, dig, saidify, sign, tsat

T0 = datetime.datetime(2026, 1, 1, tzinfo=datetime.timezone.utc)
ROLES = ['controller', 'witness', 'registrar', 'gateway', 'watcher', 'judge', 'juror', 'peer', 'mailbox', 'agent', 'indexer']
BASES = dict(end='/end/role', loc='/loc/scheme', wat='/watcher')


def iso(sec, off=0, us=0):
    """32 character date and time of the instant T0+sec, written in the zone off (minutes)"""
    t = (T0 + datetime.timedelta(seconds=sec, microseconds=us)).astimezone(datetime.timezone(datetime.timedelta(minutes=off)))
    return t.isoformat(timespec='microseconds')


def instant(dt):
    return datetime.datetime.fromisoformat(dt)


def make_aid(rng, base, nkeys, events):
    """a transferable identifier: list of (sad, raw, signing key numbers) from inception on"""
    n = base
    keys = list(range(n, n + nkeys))
    n += nkeys
    nxt = list(range(n, n + nkeys))
    n += nkeys
    kt = '%x' % rng.randint(1, nkeys) if nkeys < 3 or rng.random() < .5 else rng.choice([['1/2', '1/2', '1/2'], ['1/3', '1/3', '1/2'], ['1/2', '1/2', '0']])
    if nkeys == 1:
        kt = '1'
    if isinstance(kt, list) and sum(map(kel.wt, kt)) < 1:
        kt = '2'
    sad, raw = saidify(dict(v='', t='icp', d='', i='', s='0', kt=kt, k=[key(k) for k in keys], nt='1', n=[dig(key(k)) for k in nxt], bt='0', b=[], c=[], a=[]),
                       ('d', 'i'))
    out = [(sad, raw, keys)]
    pre, last = sad['i'], sad['d']
    for i, e in enumerate(events):
        s = '%x' % (i + 1)
        if e == 'ixn':
            sad, raw = saidify(dict(v='', t='ixn', d='', i=pre, s=s, p=last, a=[]))
        else:
            keys = nxt
            nxt = list(range(n, n + nkeys))
            n += nkeys
            sad, raw = saidify(dict(v='', t='rot', d='', i=pre, s=s, p=last, kt=kt, k=[key(k) for k in keys], nt='1', n=[dig(key(k)) for k in nxt], bt='0',
                                    br=[], ba=[], a=[]))
        out.append((sad, raw, keys))
        last = sad['d']
    return pre, kt, out


def reply(r, a, dt):
    return saidify(dict(v='', t='rpy', d='', dt=dt, r=r, a=a))


# ------------------------------------------------------------ reference
def subject(sad):
    """(table, keys, authority) the reply is about, or None when it must have no effect"""
    r, a = sad['r'], sad['a']
    try:
        if len(sad['dt']) != 32 or not isinstance(sad['dt'], str):
            return None
        if instant(sad['dt']).tzinfo is None:
            return None
    except (ValueError, TypeError):
        return None
    pre = lambda x: isinstance(x, str) and len(x) == 44 and x[0] in 'BDE'
    if r in ('/end/role/add', '/end/role/cut'):
        if not all(k in a for k in ('cid', 'role', 'eid')) or a['role'] not in ROLES or not pre(a['cid']) or not pre(a['eid']):
            return None
        return 'end', (a['cid'], a['role'], a['eid']), a['cid']
    if r == '/loc/scheme':
        if not all(k in a for k in ('eid', 'scheme', 'url')) or a['scheme'] not in ('tcp', 'http', 'https') or not pre(a['eid']):
            return None
        u = a['url']
        if '://' in u and u.split('://')[0] != a['scheme']:
            return None
        return 'loc', (a['eid'], a['scheme']), a['eid']
    p = r.split('/')
    if len(p) == 4 and p[1] == 'watcher' and p[3] in ('add', 'cut') and p[2]:
        if not all(k in a for k in ('cid', 'oid')):
            return None
        return 'wat', (a['cid'], p[2], a['oid']), a['cid']
    return None


def content(sad):
    r, a = sad['r'], sad['a']
    if r.startswith('/loc'):
        return a['url']
    return r.endswith('/add')


class Ref:
    def __init__(self, aids, own=()):
        self.aids = aids          # pre -> (kt, events)
        self.known = {p: 0 for p in aids}   # how many events of each are in
        self.best = {}            # subject -> dict(said, dt, lo, hi, content)   lo/hi bound the sn it stands at (None: by a non transferable couple)
        self.given = {}           # said -> {(pre, sn, dig): set of (idx, keynumber)} good signatures ever presented
        self.msgs = {}            # said -> sad
        self.own = set(own)

    def group_sn(self, sub, g, acc):
        """sn at which the signature group's own good signatures satisfy the keys of the subject's authority, else None"""
        pre, sn, dg = g
        if pre != sub[2] or pre not in self.aids or pre in self.own or sn >= self.known[pre]:
            return None
        kt, ev = self.aids[pre]
        sad, raw, keys = ev[sn]
        if sad['d'] != dg or sad['t'] == 'ixn':
            return None
        ok = {i for i, s in acc if i < len(keys) and keys[i] == s}
        return sn if tsat(kt, ok) else None

    def groups(self, sigs):
        d = {}
        for x in sigs:
            if x[0] == 'tsg':
                _, pre, sn, dg, sg = x
                d.setdefault((pre, sn, dg), set()).update((i, s) for i, s, good in sg if good is True)
        return d

    def ok(self, sub, said, dt, sns, cig, mode):
        """may ('may') or must ('must') the reply take effect; returns (bool, set of sns at which it stands)"""
        b = self.best.get(sub[:2])
        if b is not None:           # signatures given earlier may have become verifiable since
            b['hi'] = max([x for x in [b['hi']] + [self.group_sn(sub, q, v) for q, v in self.given.get(b['said'], {}).items()] if x is not None], default=None)
        later = b is None or instant(dt) > instant(b['dt'])
        if b is not None and b['said'] == said:
            return True, {s for s in sns if b['lo'] is None or s >= (b['lo'] if mode == 'may' else b['hi'])}
        out = set()
        for s in sns:
            o = None if b is None else b['lo' if mode == 'may' else 'hi']
            if b is None or (o is None and later) or (o is not None and (s > o or s == o and later)):
                out.add(s)
        if mode == 'must' and b is not None and (b['lo'] is None) != (b['hi'] is None):
            if not later:
                out = set()
        return bool(out) or (cig and later), out


def tables(w):
    db = w.db
    t = {}
    for name, ans, val, f in (('end', db.eans, db.ends, lambda r: r.allowed), ('loc', db.lans, db.locs, lambda r: r.url),
                              ('wat', db.wwas, db.obvs, lambda r: r.enabled)):
        a = {k: v.qb64 for k, v in ans.getTopItemIter()}
        v = {k: f(v) for k, v in val.getTopItemIter()}
        if set(a) != set(v):
            raise Bad(f'{name}: accepted replies {sorted(a)} and their effects {sorted(v)} are for different subjects')
        for k in a:
            t[(name, k)] = (a[k], v[k])
    return t


class World(kel.World):
    def __init__(self, own=None, lax=True, local=False):
        from keri.core import routing
        from keri.help import helping
        super().__init__()
        self.rvy = routing.Revery(db=self.db, rtr=routing.Router(), lax=lax, local=local)
        self.kvy.rvy = self.rvy
        self.kvy.registerReplyRoutes(self.rvy.rtr)
        if own:
            for o in own:
                self.db.prefixes.add(o)
        self.now = helping.nowUTC
        self.h = helping
        self.clock = 0
        helping.nowUTC = lambda: T0 + datetime.timedelta(seconds=self.clock)

    def close(self):
        self.h.nowUTC = self.now
        super().close()

    def reply(self, raw, sigs):
        from keri.core import coring, indexing
        from keri import kering
        try:
            serder = self.serder(raw)
        except kering.ValidationError as e:
            return e
        cigars, tsgs = [], []
        for x in sigs:
            if x[0] == 'cig':
                _, s, trans, good = x
                v = coring.Verfer(raw=kel.pub(s), code='D' if trans else 'B')
                sig = sign(s, raw if good else raw + b' ')
                cigars.append(coring.Cigar(raw=sig, code='0B', verfer=v))
            else:
                _, pre, sn, dg, sg = x
                tsgs.append((coring.Prefixer(qb64=pre), coring.Number(num=sn, code=coring.NumDex.Huge), coring.Diger(qb64=dg),
                             [kel.siger('A', i, None, s, good, raw) for i, s, good in sg]))
        try:
            self.rvy.processReply(serder=serder, cigars=cigars, tsgs=tsgs)
        except Exception as e:
            return e
        return None


def run(case, counts=None):
    """executes the steps on the real code, judging every one"""
    aids = {p: (kt, ev) for p, kt, ev in case['aids']}
    ref = Ref(aids, case['own'])
    w = World(own=case['own'], lax=not case['own'])
    n = dict(acc=0, ref=0, esc=0, stale=0, same=0)
    try:
        for si, st in enumerate(case['steps']):
            before = tables(w)
            where = f'step {si} {st[0]}'
            if st[0] == 'kel':
                pre = st[1]
                kt, ev = aids[pre]
                i = ref.known[pre]
                if i >= len(ev):
                    continue
                sad, raw, keys = ev[i]
                e = w.process(raw, [('A', j, j, k, True) for j, k in enumerate(keys)], [], local=True)
                if e is not None:
                    raise Bad(f'{where}: key event refused: {e}')
                ref.known[pre] += 1
                if tables(w) != before:
                    raise Bad(f'{where}: a key event changed what replies recorded')
                continue
            if st[0] == 'clock':
                w.clock += st[1]
                continue
            if st[0] == 'rpy':
                _, sad, raw, sigs = st
                said = sad['d']
                sub = subject(sad)
                e = w.reply(raw, sigs)
                after = tables(w)
                diff = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                if sub is None:
                    need(not diff, f'{where}: reply {sad["r"]} {sad["a"]} dated {sad["dt"]} changed {sorted(diff)}')
                    n['ref'] += 1
                    continue
                need(diff <= {sub[:2]}, f'{where}: reply about {sub[:2]} changed {sorted(diff)}')
                ref.msgs[said] = sad
                g = ref.groups(sigs)
                acc = ref.given.setdefault(said, {})
                for k, v in g.items():
                    acc.setdefault(k, set()).update(v)
                cig = any(x[0] == 'cig' and not x[2] and x[3] is True and key(x[1], False) == sub[2] for x in sigs) and sub[2] not in ref.own
                may_sn = {ref.group_sn(sub, k, acc[k]) for k in g} - {None}
                must_sn = {ref.group_sn(sub, k, v) for k, v in g.items()} - {None}
                may, mays = ref.ok(sub, said, sad['dt'], may_sn, cig, 'may')
                must, musts = ref.ok(sub, said, sad['dt'], must_sn, cig, 'must')
                b = ref.best.get(sub[:2])
                settle(ref, w, sub, sad, after, before, may, mays, must, musts, where, n, cig)
                continue
            if st[0] == 'esc':
                waiting = [v.qb64 for _, v in w.db.rpes.getTopItemIter()]
                w.rvy.processEscrowReply()
                after = tables(w)
                # several replies may take effect one after the other: accept any change that some order of the waiting ones justifies
                diff = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                for k in diff:
                    need(k in after, f'{where}: {k} disappeared')
                    said = after[k][0]
                    need(said in waiting, f'{where}: {k} now has reply {said} which was not waiting')
                    # chain of waiting replies about k ending in said, each justified over its predecessor
                    cands = [s for s in waiting if s in ref.msgs and subject(ref.msgs[s]) and subject(ref.msgs[s])[:2] == k]
                    for s in order(ref, cands, said):
                        sad = ref.msgs[s]
                        sub = subject(sad)
                        sns = {ref.group_sn(sub, q, v) for q, v in ref.given.get(s, {}).items()} - {None}
                        may, mays = ref.ok(sub, s, sad['dt'], sns, False, 'may')
                        if s == said:
                            need(may, f'{where}: escrowed reply {s} about {k} took effect without being authorised and later')
                            need(after[k][1] == content(sad), f'{where}: {k} is {after[k][1]!r} instead of {content(sad)!r}')
                        if may:
                            ref.best[k] = dict(said=s, dt=sad['dt'], lo=min(mays), hi=max(mays), content=content(sad))
                    need(ref.best[k]['said'] == said, f'{where}: {k} has reply {said} although a better one was waiting')
                    n['esc'] += 1
                check_store(w, after, where)
        if counts is not None:
            for k, v in n.items():
                counts[k] = counts.get(k, 0) + v
        return n
    finally:
        w.close()


def order(ref, cands, said):
    return [said]


def check_store(w, after, where):
    for k, (said, _) in after.items():
        s = w.db.rpys.get(keys=(said,))
        need(s is not None and s.said == said, f'{where}: the accepted reply {said} for {k} is not stored any more')
        need(w.db.sdts.get(keys=(said,)) is not None, f'{where}: the date of the accepted reply for {k} is not stored any more')
        need(w.db.scgs.get(keys=(said,)) or list(w.db.tsgs.getTopItemIter(keys=(said, ''))), f'{where}: no signature of the accepted reply for {k} is stored any more')


def settle(ref, w, sub, sad, after, before, may, mays, must, musts, where, n, cig):
    said = sad['d']
    k = sub[:2]
    b = ref.best.get(k)
    cur = after.get(k)
    if b is not None and b['said'] == said:       # the effective reply again: nothing may change except how well it is authorised
        need(cur == before.get(k), f'{where}: presenting the accepted reply for {k} again changed {before.get(k)} to {cur}')
        if mays or musts:
            los = [b['lo']] if b['lo'] is not None else []
            b['lo'] = max(los + list(musts)) if (los or musts) else None
            b['hi'] = max(([b['hi']] if b['hi'] is not None else []) + list(mays) + list(musts))
        n['same'] += 1
    elif cur is not None and cur[0] == said and (b is None or b['said'] != said):
        need(may, f'{where}: reply {sad["r"]} {sad["a"]} dated {sad["dt"]} took effect although not authorised and later than the accepted one ({b})')
        need(cur[1] == content(sad), f'{where}: {k} is {cur[1]!r} instead of {content(sad)!r}')
        both = mays | musts
        lo = max(musts) if musts else (min(mays) if mays and not cig else None)
        ref.best[k] = dict(said=said, dt=sad['dt'], lo=lo, hi=max(both) if both else None, content=content(sad))
        n['acc'] += 1
    else:
        need(cur == before.get(k), f'{where}: {k} went from {before.get(k)} to {cur}')
        need(not must, f'{where}: reply {sad["r"]} {sad["a"]} dated {sad["dt"]} properly authorised and later than {b} had no effect')
        n['ref' if b is None else 'stale'] += 1
    if cur is not None:
        need(cur == (ref.best[k]['said'], ref.best[k]['content']), f'{where}: {k} is {cur}, accepted was {ref.best[k]}')
    check_store(w, after, where)


# ------------------------------------------------------------ generation
def gen(kind):
    def g(rng):
        aids = [make_aid(rng, 100, 1, rng.choice([['rot'], ['ixn', 'rot'], ['rot', 'rot']])),
                make_aid(rng, 200, rng.choice([2, 3]), rng.choice([['rot'], ['ixn', 'rot', 'rot'], ['rot', 'ixn', 'rot']]))]
        if rng.random() < .4:
            aids.append(make_aid(rng, 300, rng.choice([1, 3]), ['rot']))
        nts = [1, 2]
        own = [rng.choice([aids[0][0], key(1, False)])] if rng.random() < .06 else []
        auth = [a[0] for a in aids] + [key(i, False) for i in nts]
        ev = {a[0]: a for a in aids}
        known = {a[0]: 0 for a in aids}
        steps = []

        def kels(pre):
            if known[pre] < len(ev[pre][2]):
                known[pre] += 1
                steps.append(('kel', pre))
        for a in aids:
            if rng.random() < .85:
                kels(a[0])
        focus = rng.choice(auth)
        sub_pool = []
        for _ in range(rng.choice([1, 1, 2])):
            c = focus if rng.random() < .7 else rng.choice(auth)
            t = rng.choice(['end', 'loc', 'end', 'loc', 'wat'] if kind == 'c17' else ['end', 'loc'])
            eid = rng.choice(auth)
            sub_pool.append((t, c, rng.choice(ROLES), eid, rng.choice(['http', 'https', 'tcp'])))
        made = []

        def sad_for(sub, wild):
            t, c, role, eid, sch = sub
            if kind == 'c18' and rng.random() < .3:
                role = rng.choice(ROLES)
                eid = rng.choice(auth)
                sch = rng.choice(['http', 'https', 'tcp'])
            if t == 'end':
                r = rng.choice(['/end/role/add', '/end/role/cut'])
                a = dict(cid=c, role=role, eid=eid)
            elif t == 'loc':
                r = '/loc/scheme'
                a = dict(eid=c, scheme=sch, url=rng.choice(['', f'{sch}://127.0.0.1:{rng.randint(1, 9)}/', f'{sch}://h{rng.randint(1, 9)}', 'x:y']) )
            else:
                r = rng.choice([f'/watcher/{key(1, False)}/add', f'/watcher/{key(1, False)}/cut'])
                a = dict(cid=c, oid=eid)
            if a.get('url') == 'x:y':
                a['url'] = ''
            if wild:
                q = rng.random()
                if q < .35:
                    r = rng.choice(['/end/role/adder', '/end/role/cutting', '/end/role/mod', '/end/role', '/loc/schemes', '/loc', '/end/role/add/x', '/watcher/x', '/nope',
                                    '/end/role/', '/watcher/w/mod', 'end/role/add', '/x/end/role/add', '/x/loc/scheme', '/loc/scheme/x', '/end/role/ADD'])
                elif q < .55:
                    if 'role' in a:
                        a['role'] = rng.choice(['', 'Witness', 'boss', 'witnesses', 'mail'])
                    elif 'scheme' in a:
                        a['scheme'] = rng.choice(['ftp', '', 'HTTP', 'httpss'])
                elif q < .75:
                    if a:
                        k = rng.choice(list(a))
                        if t != 'wat':
                            del a[k]
                elif q < .9 and t == 'loc':
                    a['url'] = rng.choice(['ftp://x', 'httpx://h', 'http://h' if sch != 'http' else 'https://h'])
                else:
                    for k in ('cid', 'eid'):
                        if k in a and rng.random() < .7 and t != 'wat':
                            a[k] = rng.choice([a[k][:-1], 'x' * 44, ''])
            return r, a

        def date(prev):
            q = rng.random()
            if prev and q < .3:
                d = rng.choice(prev)
                if rng.random() < .5:
                    return d
                t = instant(d)
                o = rng.choice([0, 60, -330])
                t = t + datetime.timedelta(microseconds=rng.choice([0, 0, 1, -1]))
                return t.astimezone(datetime.timezone(datetime.timedelta(minutes=o))).isoformat(timespec='microseconds')
            if q < .36:
                return rng.choice(['2026-01-01T00:00:00+00:00', '', 'x' * 32, '2026-13-01T00:00:00.000000+00:00'])
            return iso(rng.randint(-3000, 3000) if rng.random() < .9 else rng.randint(-9000, -4000), rng.choice([0, 0, 60, -330]), rng.choice([0, 0, 1, 999999]))

        def sign_by(auth_pre, good=True):
            """one signature attachment by auth_pre"""
            if auth_pre in ev:
                _, kt, evs = ev[auth_pre]
                q = rng.random()
                k = known[auth_pre]
                sn = rng.randrange(k) if k and q < .8 else rng.randrange(len(evs))
                if k and rng.random() < .5:
                    sn = max(i for i in range(k) if evs[i][0]['t'] != 'ixn')
                sad, raw, keys = evs[sn]
                dg = sad['d'] if rng.random() < .94 else rng.choice(evs)[0]['d']
                if rng.random() < .04:
                    sn = rng.randrange(len(evs) + 1)
                idx = [i for i in range(len(keys)) if rng.random() < .75] or [rng.randrange(len(keys))]
                sg = []
                for i in idx:
                    q = rng.random()
                    if q < .85:
                        sg.append((i, keys[i], True))
                    elif q < .9:
                        sg.append((i, keys[i], rng.choice([False, 'flip'])))
                    elif q < .95:
                        sg.append((i, rng.choice(keys + [77]), True))
                    else:
                        sg.append((i + len(keys), keys[i], True))
                if rng.random() < .15:
                    sg.append(rng.choice(sg))
                rng.shuffle(sg)
                return ('tsg', auth_pre, sn, dg, sg)
            s = next(i for i in nts if key(i, False) == auth_pre)
            q = rng.random()
            return ('cig', s if q < .93 else 3 - s, q > .97, True if rng.random() < .92 else False)
        for _ in range(rng.randint(4, 10)):
            q = rng.random()
            if q < .18:
                kels(rng.choice(aids)[0])
                continue
            if q < .3:
                steps.append(('esc',))
                continue
            if q < .33:
                steps.append(('clock', rng.choice([100, 2000, 5000])))
                continue
            if made and rng.random() < .4:
                sad, raw, c = rng.choice(made)
            else:
                sub = rng.choice(sub_pool)
                r, a = sad_for(sub, rng.random() < (.12 if kind == 'c17' else .35))
                sad, raw = reply(r, a, date([m[0]['dt'] for m in made if len(m[0]['dt']) == 32 and 'x' not in m[0]['dt'] and m[0]['dt'][5] != '1' or m[0]['dt'][6:7] == '1']))
                c = sub[1]
                made.append((sad, raw, c))
            if c in ev and rng.random() < .22:          # good signatures in parts, perhaps before the signer's key events are in
                evs = ev[c][2]
                sn = max(i for i in range(len(evs)) if evs[i][0]['t'] != 'ixn') if rng.random() < .7 else 0
                keys = evs[sn][2]
                cut = rng.randint(0, len(keys) - 1)
                parts = [[(i, k, True) for i, k in enumerate(keys)][:cut], [(i, k, True) for i, k in enumerate(keys)][cut:]]
                rng.shuffle(parts)
                for sg in parts:
                    if sg:
                        steps.append(('rpy', sad, raw, [('tsg', c, sn, evs[sn][0]['d'], sg)]))
                    if rng.random() < .3:
                        kels(c)
                if rng.random() < .6:
                    while known[c] <= sn:
                        kels(c)
                    steps.append(('esc',))
                continue
            sigs = [sign_by(c if rng.random() < .88 else rng.choice(auth)) for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3, 0]))]
            steps.append(('rpy', sad, raw, sigs))
        if rng.random() < .5:
            for a in aids:
                kels(a[0])
            steps.append(('esc',))
        return dict(aids=aids, own=own, steps=steps)
    return g


def check(case):
    case = dict(case, aids=[tuple(a) for a in case['aids']])
    try:
        run(case)
    except Bad as e:
        return str(e)
    return None


# ------------------------------------------------------------ key state notices
def gen_notice(rng):
    aid = make_aid(rng, 100, rng.choice([1, 2]), rng.choice([['rot'], ['ixn', 'rot'], ['rot', 'ixn', 'rot']]))
    other = make_aid(rng, 200, 1, ['rot'])
    pre, kt, ev = aid
    wits = [key(1, False), key(2, False)]
    steps = [('kel', pre)] if rng.random() < .6 else []
    made = []
    for _ in range(rng.randint(4, 10)):
        q = rng.random()
        if q < .2:
            steps.append(('kel', rng.choice([pre, pre, other[0]])))
            continue
        if made and q < .45:
            src, sad, raw = rng.choice(made)
        else:
            i = rng.randrange(len(ev))
            e = ev[i][0]
            est = max(j for j in range(i + 1) if ev[j][0]['t'] != 'ixn')
            es = ev[est][0]
            src = rng.choice(wits + [pre] + [key(3, False), other[0]])
            a = dict(vn=[1, 0], i=pre, s='%x' % i, p=e.get('p', ''), d=e['d'] if rng.random() < .93 else rng.choice(ev)[0]['d'], f='%x' % i,
                     dt=iso(rng.randint(-9, 9) * 60, rng.choice([0, 60])), et=e['t'], kt=es['kt'], k=es['k'], nt=es['nt'], n=es['n'],
                     bt='0', b=wits, c=[], ee=dict(s='%x' % est, d=es['d'], br=[], ba=[]), di='')
            if rng.random() < .08:
                a.pop(rng.choice(['i', 'd', 'dt']))
            sad, raw = reply('/ksn/' + src, a, iso(rng.randint(-9, 9) * 60))
            made.append((src, sad, raw))
        good = rng.random() < .9
        by = src if rng.random() < .92 else rng.choice(wits)
        if by[0] == 'B':
            sigs = [('cig', next(j for j in (1, 2, 3) if key(j, False) == by), False, good)]
        else:
            evs = (aid if by == pre else other)[2]
            j = rng.randrange(len(evs))
            sigs = [('tsg', by, j, evs[j][0]['d'], [(x, k, good) for x, k in enumerate(evs[j][2])])]
        steps.append(('ksn', src, sad, raw, sigs))
    return dict(aids=[aid, other], wits=wits, steps=steps)


def check_notice(case):
    aids = {p: (kt, ev) for p, kt, ev in case['aids']}
    pre = case['aids'][0][0]
    ref = Ref(aids)
    w = World()
    w.kvy.lax = False
    last, ksns = {}, {}
    held = {}           # signature groups presented before with a reply: they may have been held and count again
    try:
        for si, st in enumerate(case['steps']):
            where = f'step {si} {st[0]}'
            if st[0] == 'kel':
                kt, ev = aids[st[1]]
                i = ref.known[st[1]]
                if i < len(ev):
                    sad, raw, keys = ev[i]
                    e = w.process(raw, [('A', j, j, k, True) for j, k in enumerate(keys)], [], local=True)
                    if e is not None:
                        return f'{where}: key event refused: {e}'
                    ref.known[st[1]] += 1
                continue
            _, src, sad, raw, sigs = st
            a = sad['a']
            w.reply(raw, sigs)
            full = len(a) == 17
            x = sigs[0]
            if x[0] == 'cig':
                ok = x[3] is True and key(x[1], False) == src
            else:
                g = next(iter(ref.groups(sigs).items()))
                ok = x[1] == src and ref.group_sn(('ksn', None, src), *g) is not None
                h = held.setdefault(raw, [])
                h.append(sigs)
                also = x[1] == src and not ok and any(ref.group_sn(('ksn', None, src), *gg) is not None for s_ in h if s_[0][1] == src for gg in ref.groups(s_).items())
            maybe = False
            if full:
                trusted = src == pre or src in a['b']
                sn = int(a['s'], 16)
                known = ref.known[pre]
                fresh = not known or sn >= known - 1
                match = sn >= known or aids[pre][1][sn][0]['d'] == a['d']
                o = last.get(src)
                later = o is None or instant(a['dt']) >= instant(ksns[o]['dt'])
                if ok and trusted and fresh and match and later:
                    last[src] = a['d']
                    ksns[a['d']] = a
                elif x[0] != 'cig' and also and trusted and fresh and match and later:
                    maybe = True
            got = {k[1]: v.qb64 for k, v in w.db.knas.getTopItemIter() if k[0] == pre}
            gk = {k[0]: dict(d=v.d, dt=v.dt, s=v.s, k=list(v.k)) for k, v in w.db.ksns.getTopItemIter()}
            if maybe and got.get(src) == a['d'] and gk.get(a['d']) == dict(d=a['d'], dt=a['dt'], s=a['s'], k=a['k']):
                last[src] = a['d']
                ksns[a['d']] = a
            why = f'{where}: notice of {src} at sn {a.get("s")} dated {a.get("dt")}'
            if got != last:
                return f'{why}: the sources with notices are {got} instead of {last}'
            ex = {k: dict(d=v['d'], dt=v['dt'], s=v['s'], k=v['k']) for k, v in ksns.items()}
            if gk != ex:
                return f'{why}: the notices are {gk} instead of {ex}'
        return None
    except Bad as e:
        return str(e)
    finally:
        w.close()
