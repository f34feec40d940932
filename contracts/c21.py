"""C21: only schema-valid, issued, correctly chained credentials are saved."""
import json
from types import SimpleNamespace
from .base import *
from . import kel, c20
from .kel import key, dig, saidify, ser

V = 'src/keri/vdr/verifying.py:Verifier.'
KNOWN = ('I2I', 'NI2I', 'DI2I', 'E1E', 'NOT')


def schema(title, lo, hi, need_subject):
    s = {'$id': '#' * 44, '$schema': 'http://json-schema.org/draft-07/schema#', 'title': title, 'type': 'object', 'required': ['v', 'd', 'i', 'ri', 's', 'a'],
         'properties': {'a': {'type': 'object', 'required': ['n'] + (['i'] if need_subject else []),
                              'properties': {'n': {'type': 'integer', 'minimum': lo, 'maximum': hi}}}}}
    s['$id'] = dig(ser(s))
    return s['$id'], ser(s)


SCHEMAS = [schema('any', 0, 9, False), schema('low', 0, 5, False), schema('high', 4, 9, False), schema('subject', 0, 9, True)]
LIM = {SCHEMAS[0][0]: (0, 9, False), SCHEMAS[1][0]: (0, 5, False), SCHEMAS[2][0]: (4, 9, False), SCHEMAS[3][0]: (0, 9, True)}


def fits(said, sad):
    lo, hi, sub = LIM[said]
    a = sad.get('a')
    return isinstance(a, dict) and type(a.get('n')) is int and lo <= a['n'] <= hi and (not sub or 'i' in a)


class Ref(c20.Ref):
    def __init__(self):
        super().__init__()
        self.schemas = set()
        self.saved = {}
        self.creds = {}

    def state(self, r, v):
        """None when registry r never issued v, else whether it is in force"""
        if not self.is_reg(r) or v not in self.tels or self.registry(self.tels[v][0][0]) != r:
            return None
        return len(self.tels[v]) == 1

    def ok(self, sad):
        r, v = sad['ri'], sad['d']
        if self.state(r, v) is None or sad['i'] != self.issuer(r) or sad['s'] not in self.schemas or not fits(sad['s'], sad):
            return False
        for block in self.blocks(sad):
            for label, e in block.items():
                if label in ('d', 'o'):
                    continue
                if not self.edge(sad, e):
                    return False
        return True

    def blocks(self, sad):
        e = sad.get('e', {})
        return e if isinstance(e, list) else [e]

    def edge(self, sad, e):
        if e['n'] not in self.saved:
            return False
        far = self.saved[e['n']]
        o = e.get('o')
        o = [x for x in (o if isinstance(o, list) else [o]) if x in KNOWN]
        if 'NOT' in o:
            return False
        d = [x for x in o if x in ('I2I', 'NI2I', 'DI2I')]
        subject = far['a'].get('i')
        rel = d[-1] if d else None if o else 'I2I' if subject else 'NI2I'
        if rel == 'DI2I' or rel == 'I2I' and sad['i'] != subject:
            return False
        if 'E1E' in o and (subject is None or sad['a'].get('i') != subject):
            return False
        if not self.state(far['ri'], far['d']):
            return False
        s = e.get('s')
        return s is None or s == far['s'] or s in self.schemas and fits(s, far)


class World(c20.World):
    def __init__(self):
        from keri.vdr import verifying
        super().__init__()
        self.hby = SimpleNamespace(inited=True, db=self.db, kvy=self.kvy, name='v', temp=True, version=None, habs={})
        from keri.kering import Vrsn_1_0
        self.hby.version = Vrsn_1_0
        self.ver = verifying.Verifier(hby=self.hby, reger=self.reger)

    def cred(self, raw, pre, sn, d):
        from keri.core import serdering, coring
        try:
            creder = serdering.SerderACDC(raw=raw)
            self.ver.processCredential(creder, coring.Prefixer(qb64=pre), coring.Seqner(sn=sn), coring.Saider(qb64=d))
        except Exception as e:
            return e
        return None


def check(case):
    import contextlib
    import io
    w = World()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            run(w, case)
    finally:
        w.close()


def run(w, case):
    from keri.core import scheming
    ref = Ref()
    for n, st in enumerate(case):
        where = f'step {n} {st[0]}'
        if st[0] == 'kel':
            _, pre, sad, raw, k = st
            need(w.process(raw, [('A', 0, None, k, True)], []) is None, f'{where}: issuer event refused')
            ref.kels.setdefault(pre, []).append(sad)
        elif st[0] == 'tel':
            _, sad, raw, couple = st
            if ref.lawful(sad, raw, [couple], []):
                ref.tels.setdefault(sad['i'], []).append((sad, raw))
            w.tel(raw, couple, [])
        elif st[0] == 'schema':
            w.ver.resolver.add(st[1], st[2])
            ref.schemas.add(st[1])
        elif st[0] == 'cred':
            _, sad, raw, couple = st
            ref.creds[sad['d']] = sad
            ok = ref.ok(sad)
            e = w.cred(raw, sad['ri'], *couple)
            got = w.reger.saved.get(keys=sad['d']) is not None
            if ok:
                ref.saved[sad['d']] = sad
                need(got and e is None, f'{where}: credential with all it needs not saved: {e!r}')
            else:
                need(got == (sad['d'] in ref.saved), f'{where}: credential saved without all it needs: {why(ref, sad)}')
                need(e is not None, f'{where}: credential without all it needs processed without complaint')
        elif st[0] == 'escrow':
            w.ver.processEscrows()
            more = True
            while more:
                more = False
                for d, sad in ref.creds.items():
                    if d not in ref.saved and w.reger.saved.get(keys=d) is not None:
                        if ref.ok(sad):
                            ref.saved[d] = sad
                            more = True
        elif st[0] == 'restart':
            dict.clear(w.reger._tevers)
        got = {s.qb64 for _, s in w.reger.saved.getTopItemIter()}
        if got - set(ref.saved):
            d = min(got - set(ref.saved))
            raise Bad(f'{where}: saved {d[:8]} without all it needs: {why(ref, ref.creds[d])}')
        need(not set(ref.saved) - got, f'{where}: a saved credential is gone')
        for d, sad in ref.saved.items():
            c = w.reger.creds.get(keys=d)
            need(c is not None and c.sad == sad, f'{where}: stored credential differs')
        for tab, f in ((w.reger.issus, lambda s: s['i']), (w.reger.schms, lambda s: s['s']), (w.reger.subjs, lambda s: s['a'].get('i'))):
            a = sorted((k[0] if isinstance(k, tuple) else k, s.qb64) for k, s in tab.getTopItemIter())
            b = sorted((f(s), d) for d, s in ref.saved.items() if f(s))
            need(a == b, f'{where}: index of saved credentials is {a} instead of {b}')


def why(ref, sad):
    st = ref.state(sad['ri'], sad['d'])
    if st is None:
        return 'its registry never issued it'
    if sad['i'] != ref.issuer(sad['ri']):
        return 'its issuer does not control the registry'
    if sad['s'] not in ref.schemas or not fits(sad['s'], sad):
        return 'its content does not meet its schema'
    return f'an edge of {sad.get("e")} is not met'


def gen(rng):
    steps = []
    ref = Ref()
    iss = {}

    def kelev(p, sad, raw, k):
        steps.append(('kel', p, sad, raw, k))
        ref.kels.setdefault(p, []).append(sad)

    for n in range(2):
        k = 400 + 2 * n
        sad, raw = saidify(dict(v='', t='icp', d='', i='', s='0', kt='1', k=[key(k)], nt='1', n=[dig(key(k + 1))], bt='0', b=[], c=[], a=[]), ('d', 'i'))
        iss[sad['i']] = k
        kelev(sad['i'], sad, raw, k)
    pres = list(iss)
    subs = pres + [key(450)]
    seq = [0]

    def tel(sad, raw, p):
        l = ref.kels[p]
        a, araw = saidify(dict(v='', t='ixn', d='', i=p, s='%x' % len(l), p=l[-1]['d'], a=[dict(i=sad['i'], s=sad['s'], d=sad['d'])]))
        kelev(p, a, araw, iss[p])
        c = (len(l) - 1, a['d'])
        steps.append(('tel', sad, raw, c))
        if ref.lawful(sad, raw, [c], []):
            ref.tels.setdefault(sad['i'], []).append((sad, raw))
        return c

    regs = []
    for p in pres:
        for n in range(rng.choice([1, 1, 2])):
            seq[0] += 1
            sad, raw = saidify(dict(v='', t='vcp', d='', i='', ii=p, s='0', c=['NB'], bt='0', b=[], n='0A' + ('%022d' % seq[0])), ('d', 'i'))
            regs.append((sad, raw, p))
    know = [r for r in regs if rng.random() < .85] or regs[:1]
    for r in know:
        tel(*r)
    for s in SCHEMAS:
        if rng.random() < .85:
            steps.append(('schema', *s))
    made = []
    odd = rng.random() < .75

    def wild(p=.1):
        return odd and rng.random() < p

    def edge():
        good = [m for m in made if ref.state(m[0]['ri'], m[0]['d'])]
        far = rng.choice(good if good and rng.random() < .75 else made)
        e = dict(n=far[0]['d'] if not wild(.05) else dig('none'))
        q = rng.random()
        if q < .4:
            e['s'] = far[0]['s'] if rng.random() < .5 else rng.choice(SCHEMAS)[0]
        z = rng.random()
        if z < .4:
            e['o'] = 'NI2I'
        elif z < .8:
            e['o'] = rng.choice(['I2I', 'NI2I', 'NI2I', 'E1E', ['I2I', 'E1E'], ['E1E'], ['NI2I', 'E1E'], 'NI2I', 'I2I']) if not wild(.15) else rng.choice(
                ['NOT', 'DI2I', 'FOO', ['NOT', 'NI2I'], ['NI2I', 'I2I'], ['I2I', 'NI2I'], ['FOO', 'I2I'], []])
        return e

    def make():
        r = rng.choice(regs if rng.random() < .15 else know)
        p = r[2] if not wild(.12) else rng.choice(pres)
        a = dict(d='', n=rng.choice([0, 3, 4, 5, 6, 9]))
        if rng.random() < .7:
            a['i'] = rng.choice(subs)
        s = rng.choice(SCHEMAS)[0]
        if not fits(s, dict(a=a)) and not wild(.3):
            s = SCHEMAS[0][0]
        seq[0] += 1
        sad = dict(v='', d='', u='u%d' % seq[0], i=p, ri=r[0]['i'], s=s, a=a)
        if made and rng.random() < .6:
            e = dict(d='')
            for n in range(rng.choice([1, 1, 2])):
                e[f'l{n}'] = edge()
            if rng.random() < .1:
                e['o'] = 'AND'
            sad['e'] = e if rng.random() < .85 else [e, dict(l9=edge())]
            if isinstance(sad['e'], dict) and rng.random() < .5 and any('o' not in v or v['o'] == 'I2I' for k, v in e.items() if k[0] == 'l'):
                far = next((m[0] for m in made if m[0]['d'] == e['l0']['n']), None)
                if far and far['a'].get('i') in pres:          # let the issuer be the far subject
                    c = [x for x in know if x[2] == far['a']['i']]
                    if c:
                        sad['ri'], sad['i'] = rng.choice(c)[0]['i'], far['a']['i']
        sad, raw = saidify(sad, proto='ACDC')
        made.append((sad, raw))
        return sad, raw

    def issue(sad):
        r = next(x for x in regs if x[0]['i'] == sad['ri'])
        if wild(.08):
            r = rng.choice(regs)
        seq[0] += 1
        return tel(*saidify(dict(v='', t='iss', d='', i=sad['d'], s='0', ri=r[0]['i'], dt='2026-01-01T00:00:00.%06d+00:00' % seq[0])), r[2])

    def present(sad, raw):
        c = next((s[3] for s in steps if s[0] == 'tel' and s[1]['i'] == sad['d']), (0, ref.kels[pres[0]][0]['d']))
        steps.append(('cred', sad, raw, c))

    for n in range(rng.randint(4, 12)):
        q = rng.random()
        if q < .62 or not made:
            x = make()
            z = rng.random()
            if z < .85:
                issue(x[0])
                present(*x)
            elif z < .95:
                present(*x)
                if rng.random() < .7:
                    issue(x[0])
        elif q < .75:
            l = [v for v, l in ref.tels.items() if not ref.is_reg(v) and len(l) == 1]
            if l:
                v = rng.choice(l)
                i = ref.tels[v][0][0]
                seq[0] += 1
                tel(*saidify(dict(v='', t='rev', d='', i=v, s='1', ri=i['ri'], p=i['d'], dt='2026-01-01T00:00:01.%06d+00:00' % seq[0])), ref.issuer(i['ri']))
        elif q < .85:
            present(*rng.choice(made))
        elif q < .9:
            steps.append(('schema', *rng.choice(SCHEMAS)))
        elif q < .94:
            steps.append(('escrow',))
        elif q < .96:
            steps.append(('restart',))
        else:
            r = rng.choice(regs)
            tel(*r)
    steps.append(('escrow',))
    return steps


FN = [V + x for x in ('processCredential', 'verifyChain', 'saveCredential', 'escrowMRE', 'escrowMCE', 'escrowMSE', 'processEscrows', '_processEscrow')] + [
    'src/keri/vdr/eventing.py:Tever.vcState', 'src/keri/vdr/eventing.py:Reger.logCred', 'src/keri/vdr/eventing.py:Reger.cloneCred',
    'src/keri/core/scheming.py:Schemer.verify', 'src/keri/core/scheming.py:CacheResolver.resolve', 'src/keri/core/scheming.py:CacheResolver.add']
def units():
    from .p_vdr import units_c21
    return units_c21()


GROUPS = [
    Group('credentials', gen, check, n=2000, functions=FN, chunks=8, nontrivial=lambda c: sum(s[0] == 'cred' for s in c) > 1,
          bound='histories of up to 12 credential steps over 2 issuers, up to 4 registries without backers, 4 schemas, edges to earlier credentials with every operator'),
]
ASSUMPTIONS = ['JSON schema validation by the jsonschema package is as specified (four schemas with integer ranges and required fields are used)']
