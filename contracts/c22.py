"""C22: the keystore signs only with the keys the rotation history made current."""
from .base import *
from . import kel
from .kel import b64, dig

F = 'src/keri/app/keeping.py:'
M = F + 'Manager.'


def q(code, raw):
    """qb64 of a 32 byte primitive with a one character code, or a 16 byte salt"""
    if code == '0A':
        return '0A' + b64(b'\0\0' + raw)[2:]
    return code + b64(b'\0' + raw)[1:]


def seed(n):
    return kel.seed(1000 + n)


def pub_of(sd, trans=True):
    import pysodium
    return q('D' if trans else 'B', pysodium.crypto_sign_seed_keypair(sd)[0])


def stretch(salt, path):
    import pysodium
    return pysodium.crypto_pwhash(32, path.encode(), salt, 1, 8192)


SALTS = [b'0123456789abcdef', b'saltsaltsaltsalt']


# ------------------------------------------------------------ reference
class Seq:
    def __init__(self, pidx, algo, salt, stem):
        self.pidx, self.algo, self.salt, self.stem = pidx, algo, salt, stem
        self.old = []
        self.new = []
        self.nxt = []
        self.nr, self.nk = 0, 0       # ridx and kidx of nxt
        self.pubs = {}

    def derive(self, ridx, kidx, count, trans):
        stem = self.stem or '%x' % self.pidx
        return [stretch(self.salt, '%s%x%x' % (stem, ridx, kidx + i)) for i in range(count)]


class Ref:
    def __init__(self):
        self.seqs = {}
        self.gone = {}                # old default prefix -> prefix it was moved to
        self.secrets = {}             # pub -> seed, what the store holds
        self.pidx = 0
        self.enc = None               # number of the encryption seed
        self.checked = {}             # pub -> stored form already decrypted and compared


def dump(ks):
    out = {}
    for n in ('gbls', 'pris', 'pres', 'prms', 'sits', 'pubs'):
        out[n] = sorted((bytes(k), bytes(v)) for k, v in getattr(ks, n).db.getTopItemIter(db=getattr(ks, n).sdb, top=b''))
    return out


# ------------------------------------------------------------ check
def check(case):
    from keri.app import keeping
    ks = keeping.Keeper(name='v', temp=True, reopen=True)
    try:
        run(keeping, ks, case)
    finally:
        ks.close(clear=True)


def aeid_of(n):
    return (pub_of(seed(n), False), q('A', seed(n))) if n is not None else (None, None)


def run(keeping, ks, case):
    import pysodium
    aeid, sd = aeid_of(case['enc'])
    kw = dict(aeid=aeid) if aeid else {}
    man = keeping.Manager(ks=ks, seed=sd, salt=q('0A', SALTS[0]), **kw)
    ref = Ref()
    ref.enc = case['enc']
    root = SALTS[0]
    for n, st in enumerate(case['steps']):
        op = st[0]
        where = f'step {n} {op}'
        before = dump(ks)
        fail = None
        out = None

        def do(f):
            nonlocal fail, out
            try:
                out = f()
            except Exception as e:
                fail = e

        lawful = True
        if op == 'incept':
            _, ic, nc, algo, salt, stem, trans = st
            kwa = dict(icount=ic, ncount=nc, transferable=trans, temp=True)
            if algo:
                kwa['algo'] = algo
            if salt is not None:
                kwa['salt'] = q('0A', SALTS[salt])
            if stem:
                kwa['stem'] = stem
            s = Seq(ref.pidx, algo or 'salty', SALTS[salt] if salt is not None else root, stem)
            lawful = ic > 0 and nc >= 0
            if lawful and s.algo == 'salty':
                isd = s.derive(0, 0, ic, trans)
                nsd = s.derive(1, ic, nc, trans)
                lawful = pub_of(isd[0], trans) not in ref.gone and pub_of(isd[0], trans) not in ref.seqs
            do(lambda: man.incept(**kwa))
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                vs, ds = out
                sit = ks.sits.get(vs[0].qb64)
                if s.algo == 'randy':
                    isd, nsd = [secret(man, v.qb64) for v in vs], [secret(man, p) for p in sit.nxt.pubs]
                s.new = [pub_of(x, trans) for x in isd]
                s.nxt = [pub_of(x, trans) for x in nsd]
                need([v.qb64 for v in vs] == s.new and len(vs) == ic, f'{where}: keys are not those of the path and salt')
                need([d.qb64 for d in ds] == [dig(p) for p in s.nxt] and len(ds) == nc, f'{where}: next digests are not those of the next keys')
                s.nr, s.nk = 1, ic
                s.pubs = {0: s.new, 1: s.nxt}
                ref.seqs[s.new[0]] = s
                ref.pidx += 1
                for p, x in zip(s.new + s.nxt, isd + nsd):
                    ref.secrets.setdefault(p, x)
        elif op == 'ingest':
            _, lists, iridx, nc, stem, bad = st
            secs = [[q('A', seed(x)) for x in l] for l in lists]
            if bad is not None:
                secs[bad][-1] = secs[bad][-1][:-2]
            s = Seq(ref.pidx, 'salty', root, stem)
            flat = [[pub_of(seed(x)) for x in l] for l in lists]
            lawful = iridx < len(lists) and bad is None and flat[0][0] not in ref.gone and flat[0][0] not in ref.seqs
            do(lambda: man.ingest(secs, iridx=iridx, ncount=nc, temp=True, **(dict(stem=stem) if stem else {})))
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                pre, vs = out
                tot = sum(map(len, flat))
                nsd = s.derive(len(flat), tot, nc, True)
                flat.append([pub_of(x) for x in nsd])
                need(pre == flat[0][0] and [[v.qb64 for v in l] for l in vs] == flat[:-1], f'{where}: keys are not those given')
                s.old = flat[iridx - 1] if iridx else []
                s.new, s.nxt = flat[iridx], flat[iridx + 1]
                s.nr, s.nk = iridx + 1, sum(map(len, flat[:iridx + 1]))
                s.pubs = dict(enumerate(flat))
                ref.seqs[pre] = s
                ref.pidx += 1
                for l, m in zip(lists, flat):
                    for x, p in zip(l, m):
                        ref.secrets.setdefault(p, seed(x))
                for x, p in zip(nsd, flat[-1]):
                    ref.secrets.setdefault(p, x)
        elif op == 'rotate':
            _, pre, nc, erase = st
            pre = name(ref, pre)
            s = ref.seqs.get(pre)
            if s and s.nr + 1 in s.pubs:
                raise Skip
            lawful = s is not None and bool(s.nxt) and nc >= 0 and all(p in ref.secrets for p in s.nxt)
            do(lambda: man.rotate(pre, ncount=nc, erase=erase, temp=True))
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                vs, ds = out
                need([v.qb64 for v in vs] == s.nxt, f'{where}: current keys are not the ones announced as next')
                trans = s.nxt[0][0] == 'D'
                k = s.nk + len(s.nxt)
                sit = ks.sits.get(pre)
                nsd = s.derive(s.nr + 1, k, nc, True) if s.algo == 'salty' else [secret(man, p) for p in sit.nxt.pubs]
                nxt = [pub_of(x) for x in nsd]
                need([d.qb64 for d in ds] == [dig(p) for p in nxt] and len(ds) == nc, f'{where}: fresh next keys are not those of the path and salt')
                gone = s.old
                s.old, s.new, s.nxt, s.nr, s.nk = s.new, s.nxt, nxt, s.nr + 1, k
                s.pubs[s.nr] = nxt
                for p, x in zip(nxt, nsd):
                    ref.secrets.setdefault(p, x)
                if erase:
                    for p in gone:
                        ref.secrets.pop(p, None)
        elif op == 'replay':
            _, pre, adv, erase = st
            pre = name(ref, pre)
            s = ref.seqs.get(pre)
            lawful = s is not None
            if s:
                cur, nx = (s.nxt, s.pubs.get(s.nr + 1)) if adv else (s.new, s.nxt)
                lawful = nx is not None and all(p in ref.secrets for p in cur)
                if adv and nx == []:
                    raise Skip
            do(lambda: man.replay(pre, advance=adv, erase=erase))
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                vs, ds = out
                need([v.qb64 for v in vs] == cur and [d.qb64 for d in ds] == [dig(p) for p in nx], f'{where}: keys replayed are not the recorded ones')
                if adv:
                    if erase:
                        for p in s.old:
                            ref.secrets.pop(p, None)
                    s.nk += len(s.nxt)
                    s.old, s.new, s.nxt, s.nr = s.new, s.nxt, nx, s.nr + 1
        elif op == 'move':
            _, pre, new = st
            old = name(ref, pre)
            new = name(ref, new) if isinstance(new, int) else new
            lawful = new == old or old in ref.seqs and ( new not in ref.seqs and new not in ref.gone)
            do(lambda: man.move(old, new))
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                if new != old:
                    ref.seqs[new] = ref.seqs.pop(old)
                    ref.gone[old] = new
        elif op == 'sign':
            _, pre, which, how, use = st
            s = ref.seqs.get(name(ref, pre))
            pubs = (getattr(s, which) if s else []) + (['D' + 'A' * 43] if how == 'unknown' else [])
            if not pubs:
                continue
            ser = b'message %d' % n
            kwa = {}
            if how in ('indices', 'both', 'short'):
                kwa['indices'] = [5 + 2 * i for i in range(len(pubs))]
            if how == 'both':
                kwa['ondices'] = [None if i % 2 else 7 + i for i in range(len(pubs))]
            if how == 'short':
                kwa['indices'] = kwa['indices'] + [1]
            if how == 'plain':
                kwa['indexed'] = False
            lawful = all(p in ref.secrets for p in pubs) and how != 'short'
            if use:
                from keri.core import coring
                kwa['verfers'] = [coring.Verfer(qb64=p) for p in pubs] if how != 'unknown' else None
                if how == 'unknown':
                    continue
            else:
                kwa['pubs'] = pubs
            do(lambda: man.sign(ser, **kwa))
            need(dump(ks) == before, f'{where}: signing changed the keystore')
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                need(len(out) == len(pubs), f'{where}: {len(out)} signatures for {len(pubs)} keys')
                for i, (p, sg) in enumerate(zip(pubs, out)):
                    need(sg.verfer.qb64 == p and sg.raw == kelsign(ref.secrets[p], ser), f'{where}: signature {i} is not by the secret of its key')
                    if how == 'plain':
                        need(type(sg).__name__ == 'Cigar', f'{where}: not a Cigar')
                    else:
                        x = kwa['indices'][i] if 'indices' in kwa else i
                        o = kwa['ondices'][i] if 'ondices' in kwa else x
                        need((sg.index, sg.ondex) == (x, o), f'{where}: signature has indices {sg.index, sg.ondex} instead of {x, o}')
        elif op == 'aeid':
            _, en, mis = st
            a, sd = aeid_of(en)
            if mis and en is not None:
                sd = aeid_of(mis)[1] if mis < 9 else None
            lawful = not (mis and en is not None)
            do(lambda: man.updateAeid(a, sd))
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                ref.enc = en
        elif op == 'reopen':
            _, en = st
            a, sd = aeid_of(en)
            lawful = ref.enc is None or en == ref.enc
            if ref.enc is None and en is not None:
                do(lambda: keeping.Manager(ks=ks, seed=sd, aeid=a))
                ref.enc = en
            else:
                do(lambda: keeping.Manager(ks=ks, seed=sd))
            if lawful:
                need(fail is None, f'{where}: refused: {fail!r}')
                man = out
        if not lawful:
            need(fail is not None, f'{where}: {st[1:]} not refused')
            need(dump(ks) == before, f'{where}: refused but changed the keystore ({type(fail).__name__}: {fail})')
        agree(man, ks, ref, where, root)


def name(ref, x):
    if isinstance(x, int):
        l = list(ref.seqs)
        return l[x % len(l)] if l else 'D' + 'B' * 43
    return x


def secret(man, p):
    s = man.ks.pris.get(p, decrypter=man.decrypter)
    need(s is not None, f'no secret stored for {p[:8]}')
    return s.raw


def kelsign(sd, ser):
    import pysodium
    return pysodium.crypto_sign_detached(ser, pysodium.crypto_sign_seed_keypair(sd)[1])


def agree(man, ks, ref, where, root):
    need(man.pidx == ref.pidx, f'{where}: next path index {man.pidx} instead of {ref.pidx}')
    need(man.salt == q('0A', root), f'{where}: root salt is {man.salt}')
    d = dump(ks)
    a = aeid_of(ref.enc)[0]
    need((man.aeid or None) == a, f'{where}: keystore is encrypted for {man.aeid}')
    held = {k.decode(): v for k, v in d['pris']}
    need(set(held) == set(ref.secrets), f'{where}: secrets held {sorted(set(held) ^ set(ref.secrets))} differ')
    for p, v in held.items():
        if ref.checked.get(p) != (v, ref.enc):
            s = ks.pris.get(p, decrypter=man.decrypter)
            need(s.raw == ref.secrets[p] and s.verfer.qb64 == p, f'{where}: stored secret is not that of {p[:8]}')
            ref.checked[p] = (v, ref.enc)
    clear = [q('A', x).encode() for x in ref.secrets.values()] + [q('0A', x).encode() for x in SALTS]
    if ref.enc is not None:
        for t, l in d.items():
            for k, v in l:
                need(not any(c in v for c in clear), f'{where}: a secret is stored in the clear in {t} at {k[:12]}')
    for pre, s in ref.seqs.items():
        sit, prm = ks.sits.get(pre), ks.prms.get(pre)
        need(sit is not None and prm is not None, f'{where}: key sequence {pre[:8]} lost')
        need((sit.old.pubs, sit.new.pubs, sit.nxt.pubs) == (s.old, s.new, s.nxt), f'{where}: key sequence {pre[:8]} is not the one its history makes')
        need((sit.nxt.ridx, sit.nxt.kidx) == (s.nr, s.nk) or not s.nxt, f'{where}: next keys of {pre[:8]} at {sit.nxt.ridx, sit.nxt.kidx} instead of {s.nr, s.nk}')
        need((prm.pidx, prm.algo, prm.stem) == (s.pidx, s.algo, s.stem if s.algo == 'salty' else ''), f'{where}: parameters of {pre[:8]} are {prm}')
        for r, l in s.pubs.items():
            ps = ks.pubs.get(f'{pre}.{r:032x}')
            need(ps is not None and ps.pubs == l, f'{where}: keys recorded at {r} of {pre[:8]} differ')
        v = ks.pres.get(pre)
        need(v is not None and v.qb64 == pre, f'{where}: prefix of {pre[:8]} is {v and v.qb64}')
    for p, m in ref.gone.items():
        v = ks.pres.get(p)
        need(v is not None and v.qb64 == m and ks.sits.get(p) is None and ks.prms.get(p) is None, f'{where}: moved prefix {p[:8]} not left to {m[:8]}')


# ------------------------------------------------------------ generation
def gen(rng):
    steps = []
    n = 0
    sd = [20]
    for _ in range(rng.randint(4, 12)):
        z = rng.random()
        if z < .22 or not n:
            if rng.random() < .25:
                lists = []
                for _ in range(rng.randint(1, 4)):
                    k = rng.randint(1, 2)
                    lists.append(list(range(sd[0], sd[0] + k)))
                    sd[0] += k
                bad = rng.randrange(len(lists)) if rng.random() < .12 else None
                ir = rng.choice([0, len(lists) - 1, rng.randrange(len(lists)), len(lists) if rng.random() < .3 else 0])
                steps.append(('ingest', lists, ir, rng.randint(0, 2), rng.choice(['', 'ing-']), bad))
            else:
                algo = rng.choice([None, 'salty', 'randy'])
                steps.append(('incept', rng.choice([1, 1, 2, 3, 0]) if rng.random() < .9 else -1, rng.choice([1, 1, 2, 3, 0]) if rng.random() < .95 else -1, algo,
                              None if algo == 'randy' else rng.choice([None, None, 0, 1]), rng.choice(['', '', 'stem-', 'own.']) if algo != 'randy' else '', rng.random() < .93))
            n += 1
        elif z < .5:
            steps.append(('rotate', rng.randrange(8) if rng.random() < .93 else 'D' + 'C' * 43, rng.choice([1, 1, 2, 3, 0]) if rng.random() < .94 else -1, rng.random() < .75))
        elif z < .58:
            steps.append(('replay', rng.randrange(8), rng.random() < .75, rng.random() < .7))
        elif z < .66:
            steps.append(('move', rng.randrange(8), rng.randrange(8) if rng.random() < .3 else dig('moved%d' % rng.randrange(6))))
        elif z < .82:
            steps.append(('sign', rng.randrange(8), rng.choice(['new', 'new', 'nxt', 'old']), rng.choice(['default', 'indices', 'both', 'plain', 'short', 'unknown']), rng.random() < .3))
        elif z < .92:
            steps.append(('aeid', rng.choice([None, 0, 1, 2]), rng.choice([0, 0, 0, 3, 9])))
        else:
            steps.append(('reopen', rng.choice([None, 0, 1, 2])))
    return dict(enc=rng.choice([None, 0, 0, 1]), steps=steps)


FN = [M + x for x in ('__init__', 'setup', 'updateAeid', 'salt', 'pidx', 'incept', 'move', 'rotate', 'sign', 'ingest', 'replay')] + [
    F + x for x in ('SaltyCreator.create', 'RandyCreator.create', 'Creatory.make', 'riKey')] + [
    'src/keri/core/signing.py:' + x for x in ('Encrypter.encrypt', 'Encrypter.verifySeed', 'Decrypter.decrypt', 'Salter.stretch', 'Salter.signer', 'Signer.sign')] + [
    'src/keri/db/subing.py:CryptSignerSuber.' + x for x in ('put', 'pin', 'get', 'getTopItemIter')]
GROUPS = [
    Group('keystore', gen, check, n=900, functions=FN, chunks=8,
          bound='histories of up to 12 operations on up to 12 key sequences of at most 3 keys, 3 encryption seeds, 2 salts, the fast (temp) key stretching'),
]
ASSUMPTIONS = ['derivation paths of different keys differ (stem, rotation index and key index are concatenated without separators, so they coincide for some indices above 15)',
               'the stand-ins for Ed25519, X25519 sealed boxes and Argon2id in /verif/shims agree with libsodium']


def units():
    from . import p_keystore
    return p_keystore.units()
