"""Proof units on the keystore (C22)."""
from .p_vdr import *
from .p_kel import _lo

KP = 'src/keri/app/keeping.py:'
K0 = 'keri.app.keeping:'
VERF = AT('verfer')
MADE_N, MADE = z3.Function('made_n', US, INT), z3.Function('made', US, z3.ArraySort(INT, US))
MAKE = z3.Function('creator_of', US, US, US, US, US)
SALTU, STEMU, TIERU = AT('salt'), AT('stem'), AT('tier')
ENCS = z3.Function('encrypted', US, US, US)
DECS = z3.Function('decrypted', US, US, US)


def kq(t):
    """public key text of a signer"""
    return QB64(VERF(t))


def store(st):
    """the keystore tables.  Reads are fixed by the key; a private key read under a public key is the signer of that key
    (an obligation on every write), and every write is recorded"""
    def key(ip, args, kw, n='keys'):
        return kn(ip.ctx.toU(kw.get(n, args[1] if len(args) > 1 else None)))

    def gget(ip, args, kw, f):
        k = kw.get('keys', args[1] if len(args) > 1 else None)
        if k not in st['gbls']:
            st['gbls'][k] = ip.ctx.mk('U', k)
        return st['gbls'][k]

    def gpin(ip, args, kw, f):
        a = bound(('keys', 'val'), args, kw)
        st['writes'].append(('gbls', a['keys'], a['val']))
        st['gbls'][a['keys']] = a['val']
        return True

    def pget(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'decrypter'), args, kw)
        k = kn(ctx.toU(a['keys']))
        same(ip, 'read_with_the_decrypter', a.get('decrypter'), st['h'].fields['decrypter'])
        if ctx.branch(z3.Function('has_private', US, BOOL)(k)):
            t = z3.Function('private', US, US)(k)
            ctx.assume(z3.And(truthyF(t), kq(t) == k))
            return U(t, 'Signer')
        return None

    def pput(op):
        def h(ip, args, kw, f):
            ctx = ip.ctx
            a = bound(('keys', 'val', 'encrypter'), args, kw)
            k, v = kn(ctx.toU(a['keys'])), ctx.toU(a['val'])
            ctx.prove('private_key_under_its_own_public_key', kq(v) == k)
            same(ip, 'stored_encrypted_if_encryption_is_on', a.get('encrypter'), st['h'].fields['encrypter'])
            if st['h'].fields['encrypter'] is not None and 'checked' in st:
                ctx.prove('storable_was_checked_before', z3.BoolVal(st['checked']))
            st['puts'].a = z3.Store(st['puts'].a, v, z3.BoolVal(True))
            st['any'] = True
            return B(ctx.fresh('answer', BOOL))
        return h

    def prem(ip, args, kw, f):
        ctx = ip.ctx
        k = kn(ctx.toU(kw.get('keys', args[1] if len(args) > 1 else None)))
        ctx.prove('only_former_keys_are_erased', st['former'](ip, k))
        st['rems'].a = z3.Store(st['rems'].a, k, z3.BoolVal(True))
        st['any'] = True
        return B(ctx.fresh('answer', BOOL))
    return {('meth', 'Gbls', 'get'): gget, ('meth', 'Gbls', 'pin'): gpin, ('meth', 'Pris', 'get'): pget, ('meth', 'Pris', 'put'): pput('put'), ('meth', 'Pris', 'pin'): pput('pin'), ('meth', 'Pris', 'rem'): prem}


def same(ip, name, a, b):
    """the same object or both None"""
    if a is None or b is None:
        ip.ctx.prove(name, z3.BoolVal(a is None and b is None))
    else:
        ip.ctx.prove(name, ip.ctx.toU(a) == ip.ctx.toU(b))


def wtab(st, name, answer=None):
    def w(op):
        def h(ip, args, kw, f):
            ctx = ip.ctx
            a = bound(('keys', 'val'), args, kw)
            r = answer(ip, name, op, a) if answer else True
            if r is not False:
                st['writes'].append((name, op, a['keys'], a.get('val')))
            return r
        return h
    return {('meth', name.capitalize(), op): w(op) for op in ('put', 'pin', 'rem')}


def manager(ip, st, both=True, enc=None):
    from keri.app import keeping
    ctx = ip.ctx
    h = HObj(keeping.Manager, 'manager', {})
    h.fields['ks'] = ctx.mk('obj:Keeper', 'ks')
    h.fields['_seed'] = ctx.mk('str', 'seed')
    h.fields['encrypter'] = h.fields['decrypter'] = None
    if enc is True or enc is None and ctx.choose(2, 'encryption') == 1:
        h.fields['encrypter'] = ctx.mk('obj:Encrypter', 'encrypter')
    if both and ctx.choose(2, 'decryption') == 1:
        h.fields['decrypter'] = ctx.mk('obj:Decrypter', 'decrypter')
    st['h'] = h
    st['puts'] = ctx.mk('set:U', 'puts')
    st['rems'] = ctx.mk('set:U', 'rems')
    st.update(writes=[], gbls=dict(aeid=ctx.mk('U', 'aeid')), any=False, created=[])
    ctx.assume(forall([Q], z3.Not(z3.Select(st['puts'].a, Q))))
    ctx.assume(forall([Q], z3.Not(z3.Select(st['rems'].a, Q))))
    return h


Q = z3.Const('qk', US)
KATTRS = {('Keeper', x): 'obj:' + x.capitalize() for x in ('gbls', 'pris', 'prms', 'sits', 'pubs', 'pres')}
KATTRS.update({('Signer', 'verfer'): 'obj:Verfer', ('Verfer', 'qb64b'): 'bytes', ('Creator', 'salt'): 'Text', ('Creator', 'stem'): 'U', ('Creator', 'tier'): 'U', ('Cipher', 'qb64'): 'str'})


def publot(ip, name):
    from keri.app import keeping
    o = HObj(keeping.PubLot, name, {})
    o.fields.update(pubs=ip.ctx.mk('list:str', name + '_pubs'), ridx=ip.ctx.mk('int', name + '_ridx'), kidx=ip.ctx.mk('int', name + '_kidx'), dt=ip.ctx.mk('str', name + '_dt'))
    return o


def kmodels(st):
    def make(ip, args, kw, f):
        c = ip.ctx
        t = MAKE(args[0].t, *[c.toU(kw.get(x)) for x in ('salt', 'stem', 'tier')])
        c.assume(truthyF(t))
        st['creator'] = t
        return U(t, 'Creator')

    def creatory(ip, args, kw, cls):
        c = ip.ctx
        a = c.toU(kw.get('algo', args[0] if args else None))
        if c.choose(2, 'algorithm known') == 1:
            raise PyRaise(ValueError)
        st['algo'] = a
        return U(a, 'Creatory')

    def create(ip, args, kw, f):
        """new signers, one for each code (contract: units SaltyCreator.create, RandyCreator.create)"""
        c = ip.ctx
        a = dict(codes=None, count=1, pidx=0, ridx=0, kidx=0, transferable=True, temp=False)
        a.update(zip(('codes', 'count', 'code', 'pidx', 'ridx', 'kidx', 'transferable', 'temp'), args[1:]))
        a.update(kw)
        n = ops.to_L(ip, a['codes'], 'U').n
        st['created'].append(a)
        l = L(c.fresh('signers_n', INT), c.fresh('signers', z3.ArraySort(INT, US)), 'U')
        l.ecls = 'Signer'
        c.assume(z3.And(l.n >= 0, z3.If(ops.zi(n) > 0, l.n == ops.zi(n), l.n == ops.zi(c.int_t(a['count'])))))
        c.assume(forall([J], z3.Implies(rng(J, l.n), truthyF(VERF(sel(l, J)))), pats=[z3.Select(l.a, J)]))
        a['made'] = l
        return l

    def encrypt(ip, args, kw, f):
        c = ip.ctx
        v = kw.get('ser', kw.get('prim', args[1] if len(args) > 1 else None))
        if c.choose(2, 'encrypts') == 1:
            raise PyRaise(ValueError)
        t = ENCS(args[0].t, c.toU(v))
        c.assume(truthyF(t))
        return U(t, 'Cipher')

    def decrypt(ip, args, kw, f):
        c = ip.ctx
        v = kw.get('qb64', kw.get('cipher', kw.get('ser')))
        if c.choose(2, 'decrypts') == 1:
            raise PyRaise(ValueError)
        t = DECS(args[0].t, c.toU(v))
        c.assume(truthyF(t))
        return U(t, 'Salter')

    def storable(ip, args, kw, f):
        """every signer to be written can be encrypted, or an exception (unit verifyStorable)"""
        c = ip.ctx
        l = ops.to_L(ip, bound(('signers',), args, kw)['signers'], 'U')
        made = [x['made'] for x in st['created']]
        at = lambda off, m: forall([J], z3.Implies(rng(J, m.n), sel(l, off + J) == sel(m, J)))
        zero = z3.IntVal(0)
        if len(made) == 2:
            x, y = made
            ok = z3.And(ops.zi(l.n) == x.n + y.n, z3.Or(z3.And(at(zero, x), at(x.n, y)), z3.And(at(zero, y), at(y.n, x))))
        else:
            ok = z3.And(ops.zi(l.n) == made[0].n, at(zero, made[0])) if made else z3.BoolVal(False)
        c.prove('every_new_key_is_checked', ok)
        if c.choose(2, 'storable') == 1:
            raise PyRaise(ValueError)
        st['checked'] = True
        return None

    def diger(ip, args, kw, cls):
        c = ip.ctx
        t = z3.Function('digest_of', US, US, US)(kn(c.toU(kw.get('ser'))), c.toU(kw.get('code')))
        c.assume(truthyF(t))
        return U(t, 'Diger')

    def pidx(ip, args, kw, f):
        if len(args) == 1:
            return st['pidx']
        st['writes'].append(('pidx', args[1]))
        return None

    def salt(ip, args, kw, f):
        if len(args) == 1:
            st.setdefault('salt', ip.ctx.mk('Text' if False else 'str', 'salt'))
            return st['salt']
        st['writes'].append(('salt', args[1]))

    def rikey(ip, args, kw, f):
        a = dict(zip(('pre', 'ri'), args))
        a.update(kw)
        return (a['pre'], a['ri'])
    m = store(st)
    m.update({('meth', 'Creatory', 'make'): make, 'new:Creatory': creatory, ('meth', 'Creator', 'create'): create, ('meth', 'Encrypter', 'encrypt'): encrypt, ('meth', 'Decrypter', 'decrypt'): decrypt, K0 + 'Manager._verifyStorable': storable,
              'new:Diger': diger, K0 + 'Manager.pidx': pidx, K0 + 'Manager.salt': salt, K0 + 'riKey': rikey, 'new:Prefixer': named('Prefixer'), 'keri.help.helping:nowIso8601': lambda ip, args, kw, f: ip.ctx.mk('str', 'now'),
              'new:PubLot': record, 'new:PreSit': record, 'new:PrePrm': record, 'new:PubSet': record, ('attr', 'Verfer', 'qb64b'): encoded('qb64'),
              'new:Salter': lambda ip, args, kw, cls: U(z3.Function('salter_named', US, US)(ip.ctx.toU(kw.get('qb64'))), 'Salter'), ('meth', 'Text', 'encode'): lambda ip, args, kw, f: ops._encode(ip, U(args[0].t, 'str'), [], {})})
    return m


def codes_are(ip, got, given, count, code):
    """the list given or, without one, as many of the code as wanted"""
    l = ops.to_L(ip, got, 'U')
    n = ops.zi(l.n)
    c = ip.ctx.toU(code)
    return z3.If(given.n > 0, z3.And(n == given.n, forall([J], z3.Implies(rng(J, given.n), sel(l, J) == sel(given, J)))),
                 z3.And(n == z3.If(count > 0, count, 0), forall([J], z3.Implies(rng(J, n), sel(l, J) == c))))


def pubs_of(ip, lot, made):
    l = ops.to_L(ip, lot.fields['pubs'], 'str')
    return z3.And(ops.zi(l.n) == made.n, forall([J], z3.Implies(rng(J, made.n), sel(l, J) == kq(sel(made, J)))))


def allput(lv, st):
    """every signer the loop has gone over is stored"""
    out = []
    if lv.seq is not None and lv.i is not None:
        e = lv.ctx.toU(lv.elem(J))
        out.append(('?stored', forall([J], z3.Implies(rng(J, ops.zi(lv.i)), z3.Select(st['puts'].a, e)))))
        out.append(('?erased', forall([J], z3.Implies(rng(J, ops.zi(lv.i)), z3.Select(st['rems'].a, e)))))
    for k, x in enumerate(st['created']):
        if 'made' in x:
            m = x['made']
            out.append((f'?before{k}', forall([J], z3.Implies(rng(J, m.n), z3.Select(st['puts'].a, sel(m, J))))))
    return out


def unit_incept(enc):
    """the new sequence starts with the keys created at 0 and announces those created at 1; every secret is stored under its
    key, encrypted if encryption is on; an identifier known is refused, and a refusal writes nothing"""
    from keri.app import keeping
    st = {}

    def setup(ip):
        ctx = ip.ctx
        h = manager(ip, st, False, enc)
        st['checked'] = False
        st['pidx'] = ctx.mk('int', 'pidx')
        st['former'] = lambda ip, k: z3.BoolVal(False)
        st['icodes'], st['ncodes'] = ctx.mk('list:str', 'icodes'), ctx.mk('list:str', 'ncodes')
        st['icount'], st['ncount'] = ctx.mk('int', 'icount'), ctx.mk('int', 'ncount')
        st['icode'], st['ncode'], st['dcode'] = (ctx.mk('str', x) for x in ('icode', 'ncode', 'dcode'))
        kw = dict(icodes=st['icodes'], icount=st['icount'], icode=st['icode'], ncodes=st['ncodes'], ncount=st['ncount'], ncode=st['ncode'], dcode=st['dcode'])
        kw.update(algo=ctx.mk('U', 'algo'), salt=ctx.mk('U', 'gsalt'), stem=ctx.mk('U', 'gstem'), tier=ctx.mk('U', 'gtier'), rooted=ctx.mk('bool', 'rooted'),
                  transferable=ctx.mk('bool', 'transferable'), temp=ctx.mk('bool', 'temp'))
        st['kw'] = kw
        return keeping.Manager.incept, [h], kw

    def answer(ip, name, op, a):
        if op != 'put':
            return True
        if name == 'pres':
            st['fresh'] = ip.ctx.choose(2, 'identifier new') == 0
            return st['fresh']
        return True         # tables of parameters and situations hold no identifier that the table of identifiers does not

    def post(ip, out):
        ctx = ip.ctx
        W = st['writes']
        if out[0] == 'raise':
            ctx.prove('refusal_writes_nothing', z3.BoolVal(not W and not st['any']))
            return
        C = st['created']
        ctx.prove('two_sets_created', z3.BoolVal(len(C) == 2))
        i, n = C
        kw = st['kw']
        size = z3.If(st['icodes'].n > 0, st['icodes'].n, st['icount'].t)
        ctx.prove('first_keys', z3.And(codes_are(ip, i['codes'], st['icodes'], st['icount'].t, st['icode']), ctx.int_t(i['pidx']) == st['pidx'].t, ctx.int_t(i['ridx']) == 0, ctx.int_t(i['kidx']) == 0))
        ctx.prove('next_keys', z3.And(codes_are(ip, n['codes'], st['ncodes'], st['ncount'].t, st['ncode']), ctx.int_t(n['pidx']) == st['pidx'].t, ctx.int_t(n['ridx']) == 1, ctx.int_t(n['kidx']) == size))
        for nm, c in (('first', i), ('next', n)):
            ctx.prove(nm + '_created_as_asked', z3.And(bt(ip, c['transferable']) == kw['transferable'].t, bt(ip, c['temp']) == kw['temp'].t))
        m, nm = i['made'], n['made']
        d = {}
        for w in W:
            d.setdefault(w[0], []).append(w)
        ctx.prove('tables_written', z3.BoolVal({k: len(v) for k, v in d.items()} == dict(pres=1, prms=1, sits=1, pubs=2, pidx=1)))
        pre = kq(sel(m, z3.IntVal(0)))
        ctx.prove('under_its_first_key', z3.And(*[kn(ctx.toU(d[x][0][2])) == pre for x in ('pres', 'prms', 'sits')]))
        ctx.prove('identifier_is_its_first_key', QB64(ctx.toU(d['pres'][0][3])) == pre)
        ps, pp = d['sits'][0][3].fields, d['prms'][0][3].fields
        ctx.prove('current_keys_are_the_first', z3.And(pubs_of(ip, ps['new'], m), ctx.int_t(ps['new'].fields['ridx']) == 0, ctx.int_t(ps['new'].fields['kidx']) == 0))
        ctx.prove('announced_keys_are_the_next', z3.And(pubs_of(ip, ps['nxt'], nm), ctx.int_t(ps['nxt'].fields['ridx']) == 1, ctx.int_t(ps['nxt'].fields['kidx']) == size))
        for w, want, lot in zip(d['pubs'], (0, 1), (m, nm)):
            ctx.prove(f'keys_listed_{want}', z3.And(kn(ctx.toU(w[2][0])) == pre, ctx.int_t(w[2][1]) == want, pubs_of(ip, w[3], lot)))
        ctx.prove('next_sequence_gets_the_next_number', ctx.int_t(d['pidx'][0][1]) == st['pidx'].t + 1)
        c = st['creator']
        ctx.prove('parameters_kept', z3.And(ctx.int_t(pp['pidx']) == st['pidx'].t, ctx.toU(pp['algo']) == st['algo'], ctx.toU(pp['stem']) == STEMU(c), ctx.toU(pp['tier']) == TIERU(c)))
        enc = st['h'].fields['encrypter']
        ctx.prove('salt_kept_encrypted_if_encryption_is_on', z3.If(truthyF(SALTU(c)), ctx.toU(pp['salt']) == (SALTU(c) if enc is None else QB64(ENCS(enc.t, SALTU(c)))), ctx.toU(pp['salt']) == ctx.injt('')))
        for x, l in (('first', m), ('next', nm)):
            ctx.prove(x + '_secrets_stored', forall([J], z3.Implies(rng(J, l.n), z3.Select(st['puts'].a, sel(l, J)))))
        v, g = out[1]
        v, g = ops.to_L(ip, v, 'U'), ops.to_L(ip, g, 'U')
        ctx.prove('returns_the_public_keys', z3.And(ops.zi(v.n) == m.n, forall([J], z3.Implies(rng(J, m.n), sel(v, J) == VERF(sel(m, J))))))
        ctx.prove('returns_the_digests_of_the_next', z3.And(ops.zi(g.n) == nm.n, forall([J], z3.Implies(rng(J, nm.n), sel(g, J) == z3.Function('digest_of', US, US, US)(kq(sel(nm, J)), st['dcode'].t)))))
    m = kmodels(st)
    for t in ('pres', 'prms', 'sits', 'pubs'):
        m.update(wtab(st, t, answer))
    return Unit('incept_' + ('encrypted' if enc else 'plain'), [KP + 'Manager.incept'], setup, post, models=m, attrs=KATTRS, invariants={'*': lambda lv: allput(lv, st)}, cover=['return', 'raise:ValueError'], groups=['keystore'], budget=300)


def situation(ip, st):
    """the stored situation of the sequence, or nothing"""
    from keri.app import keeping

    def prms(ip, args, kw, f):
        st['pre?'] = kn(ip.ctx.toU(kw.get('keys', args[1] if len(args) > 1 else None)))
        return st['pp']

    def sits(ip, args, kw, f):
        st['pre?'] = kn(ip.ctx.toU(kw.get('keys', args[1] if len(args) > 1 else None)))
        return st['ps']
    return {('meth', 'Prms', 'get'): prms, ('meth', 'Sits', 'get'): sits}


def mksit(ip, st):
    from keri.app import keeping
    ctx = ip.ctx
    st['pp'] = st['ps'] = None
    if ctx.choose(2, 'parameters stored') == 0:
        o = st['pp'] = HObj(keeping.PrePrm, 'pp', {})
        o.fields.update(pidx=ctx.mk('int', 'pp_pidx'), algo=ctx.mk('str', 'pp_algo'), salt=ctx.mk('str', 'pp_salt'), stem=ctx.mk('str', 'pp_stem'), tier=ctx.mk('str', 'pp_tier'))
        st['pp0'] = dict(o.fields)
        if ctx.choose(2, 'situation stored') == 0:
            p = st['ps'] = HObj(keeping.PreSit, 'ps', {})
            p.fields.update({k: publot(ip, k) for k in ('old', 'new', 'nxt')})
            st['ps0'] = {k: dict(v.fields) for k, v in p.fields.items()}


def lot_is(ip, lot, was):
    f = lot.fields
    l = ops.to_L(ip, f['pubs'], 'str')
    w = was['pubs']
    return z3.And(ops.zi(l.n) == w.n, forall([J], z3.Implies(rng(J, w.n), sel(l, J) == sel(w, J))), ip.ctx.int_t(f['ridx']) == was['ridx'].t, ip.ctx.int_t(f['kidx']) == was['kidx'].t)


def unlocked(ctx, st):
    return z3.Implies(truthyF(ctx.toU(st['gbls']['aeid'])), z3.BoolVal(st['h'].fields['decrypter'] is not None))


def verferinv(lv, st):
    """the keys collected are those of the public keys gone over"""
    out = allput(lv, st)
    if lv.seq is not None and lv.i is not None:
        e = kn(lv.ctx.toU(lv.elem(J)))
        out.append(('?unlocked', z3.Implies(ops.zi(lv.i) > 0, unlocked(lv.ctx, st))))
        for x, l in lv.lists():
            out.append((f'?keys_{x}_n', ops.zi(l.n) == ops.zi(lv.i)))
            out.append((f'?keys_{x}', forall([J], z3.Implies(rng(J, ops.zi(lv.i)), QB64(sel(l, J)) == e))))
            out.append((f'?signers_{x}', forall([J], z3.Implies(rng(J, ops.zi(lv.i)), kq(sel(l, J)) == e))))
    return out


def unit_rotate():
    """the keys announced become the current ones, the next are created at the following path and key index, every new secret is
    stored under its key and only keys two establishments old are erased; a failure writes nothing"""
    from keri.app import keeping
    st = {}

    def setup(ip):
        ctx = ip.ctx
        h = manager(ip, st)
        st['checked'] = False
        mksit(ip, st)
        st['former'] = lambda ip, k: z3.And(truthyF(k) == truthyF(k), z3.Exists([J], z3.And(rng(J, st['ps0']['old']['pubs'].n), sel(st['ps0']['old']['pubs'], J) == k))) if st['ps'] is not None else z3.BoolVal(False)
        st['ncodes'], st['ncount'], st['ncode'], st['dcode'] = ctx.mk('list:str', 'ncodes'), ctx.mk('int', 'ncount'), ctx.mk('str', 'ncode'), ctx.mk('str', 'dcode')
        st['pre'] = ctx.mk('str', 'pre')
        st['kw'] = kw = dict(ncodes=st['ncodes'], ncount=st['ncount'], ncode=st['ncode'], dcode=st['dcode'], transferable=ctx.mk('bool', 'transferable'), temp=ctx.mk('bool', 'temp'), erase=ctx.mk('bool', 'erase'))
        return keeping.Manager.rotate, [h, st['pre']], kw

    def post(ip, out):
        ctx = ip.ctx
        W = st['writes']
        if out[0] == 'raise':
            ctx.prove('failure_writes_nothing', z3.BoolVal(not W and not st['any']))
            return
        C = st['created']
        ctx.prove('one_set_created', z3.BoolVal(len(C) == 1))
        n, kw, o, pp = C[0], st['kw'], st['ps0'], st['pp0']
        made = n['made']
        ctx.prove('created_at_the_next_place', z3.And(codes_are(ip, n['codes'], st['ncodes'], st['ncount'].t, st['ncode']), ctx.int_t(n['pidx']) == pp['pidx'].t, ctx.int_t(n['ridx']) == o['nxt']['ridx'].t + 1, ctx.int_t(n['kidx']) == o['nxt']['kidx'].t + o['nxt']['pubs'].n))
        ctx.prove('created_as_asked', z3.And(bt(ip, n['transferable']) == kw['transferable'].t, bt(ip, n['temp']) == kw['temp'].t))
        dec = st['h'].fields['decrypter']
        plain = z3.If(truthyF(pp['salt'].t), QB64(DECS(dec.t, pp['salt'].t)) if dec is not None else QB64(z3.Function('salter_named', US, US)(pp['salt'].t)), pp['salt'].t)
        alt = z3.If(truthyF(pp['salt'].t), QB64(z3.Function('salter_named', US, US)(pp['salt'].t)), pp['salt'].t)
        ctx.prove('created_from_the_stored_parameters', z3.Or(*[st['creator'] == MAKE(pp['algo'].t, s, pp['stem'].t, pp['tier'].t) for s in (plain, alt)]))
        if dec is not None:
            aeid = ctx.toU(st['gbls']['aeid'])
            ctx.prove('salt_decrypted_if_encryption_is_on', z3.Implies(truthyF(aeid), st['creator'] == MAKE(pp['algo'].t, plain, pp['stem'].t, pp['tier'].t)))
        d = {}
        for w in W:
            d.setdefault(w[0], []).append(w)
        ctx.prove('tables_written', z3.BoolVal({k: len(v) for k, v in d.items()} == dict(sits=1, pubs=1)))
        w = d['sits'][0]
        ctx.prove('situation_replaced', z3.And(z3.BoolVal(w[1] == 'pin'), kn(ctx.toU(w[2])) == st['pre'].t))
        ps = w[3].fields
        ctx.prove('current_become_old', lot_is(ip, ps['old'], o['new']))
        ctx.prove('announced_become_current', lot_is(ip, ps['new'], o['nxt']))
        ctx.prove('created_are_announced', z3.And(pubs_of(ip, ps['nxt'], made), ctx.int_t(ps['nxt'].fields['ridx']) == o['nxt']['ridx'].t + 1, ctx.int_t(ps['nxt'].fields['kidx']) == o['nxt']['kidx'].t + o['nxt']['pubs'].n))
        w = d['pubs'][0]
        ctx.prove('keys_listed', z3.And(kn(ctx.toU(w[2][0])) == st['pre'].t, ctx.int_t(w[2][1]) == o['nxt']['ridx'].t + 1, pubs_of(ip, w[3], made)))
        ctx.prove('secrets_stored', forall([J], z3.Implies(rng(J, made.n), z3.Select(st['puts'].a, sel(made, J)))))
        v, g = out[1]
        v, g = ops.to_L(ip, v, 'U'), ops.to_L(ip, g, 'U')
        np = o['nxt']['pubs']
        ctx.prove('returns_the_keys_announced', z3.And(np.n > 0, ops.zi(v.n) == np.n, forall([J], z3.Implies(rng(J, np.n), QB64(sel(v, J)) == sel(np, J)))))
        ctx.prove('returns_the_digests_of_the_next', z3.And(ops.zi(g.n) == made.n, forall([J], z3.Implies(rng(J, made.n), sel(g, J) == z3.Function('digest_of', US, US, US)(kq(sel(made, J)), st['dcode'].t)))))
        ctx.prove('no_decrypter_no_keys_under_encryption', unlocked(ctx, st))
    m = kmodels(st)
    for t in ('sits', 'pubs', 'prms', 'pres'):
        m.update(wtab(st, t))
    m.update(situation(None, st))
    return Unit('rotate', [KP + 'Manager.rotate'], setup, post, models=m, attrs=KATTRS, invariants={'*': lambda lv: verferinv(lv, st)}, cover=['return', 'raise:ValueError', 'raise:DecryptError'], groups=['keystore'], budget=300)


SIGI = z3.Function('signed_at', US, US, INT, BOOL, US, US)
SIGU = z3.Function('signed', US, US, US)


def unit_sign(indexed):
    """signature i is made by the secret of the i-th public key over exactly the bytes given, at the index asked for"""
    from keri.app import keeping
    st = {}

    def setup(ip):
        ctx = ip.ctx
        h = manager(ip, st)
        st['former'] = lambda ip, k: z3.BoolVal(False)
        st['pubs'] = ctx.mk('list:str', 'pubs')
        st['by'] = ctx.choose(2, 'by')
        st['verfers'] = _lo(ctx, 'Verfer', 'verfers')
        st['ser'] = ctx.mk('bytes', 'ser')
        st['indices'] = ctx.mk('list:int', 'indices') if indexed and ctx.choose(2, 'indices') == 1 else None
        st['ondices'] = ctx.mk('list:U', 'ondices') if indexed and ctx.choose(2, 'ondices') == 1 else None
        return keeping.Manager.sign, [h, st['ser']], dict(pubs=st['pubs'] if st['by'] == 0 else None, verfers=st['verfers'] if st['by'] != 0 else None, indexed=indexed, indices=st['indices'], ondices=st['ondices'])

    def sign(ip, args, kw, f):
        c = ip.ctx
        a = bound(('ser', 'index', 'only', 'ondex'), args, kw)
        if c.choose(2, 'signs') == 1:
            raise PyRaise(ValueError)
        if a.get('index') is None:
            return U(SIGU(args[0].t, c.toU(a['ser'])), 'Cigar')
        return U(SIGI(args[0].t, c.toU(a['ser']), c.int_t(a['index']), bt(ip, a.get('only', False)), c.toU(a.get('ondex'))), 'Siger')

    def keyof(k):
        return sel(st['pubs'], k) if st['by'] == 0 else QB64(sel(st['verfers'], k))

    def n():
        return st['pubs'].n if st['by'] == 0 else st['verfers'].n

    def made(ctx, k, got):
        """what signature k is"""
        p = z3.Function('private', US, US)(keyof(k))
        ser = st['ser'].t
        if not indexed:
            return got == SIGU(p, ser)
        ix = st['indices']
        i = k if ix is None else z3.If(ix.n > 0, sel(ix, k), k)
        od = st['ondices']
        none = ctx.injt(None)
        o = iU(i) if od is None else z3.If(od.n > 0, sel(od, k), iU(i))
        return got == SIGI(p, ser, i, o == none, o)

    def inv(lv):
        out = []
        if lv.seq is not None and lv.i is not None:
            i = ops.zi(lv.i)
            out.append(('?unlocked', z3.Implies(i > 0, unlocked(lv.ctx, st))))
            for x, l in lv.lists():
                out.append((f'?n_{x}', ops.zi(l.n) == i))
                out.append((f'?signers_{x}', forall([J], z3.Implies(rng(J, i), sel(l, J) == z3.Function('private', US, US)(keyof(J))))))
                out.append((f'?sigs_{x}', forall([J], z3.Implies(rng(J, i), made(lv.ctx, J, sel(l, J))))))
                if st['indices'] is not None:
                    out.append((f'?idx_{x}', forall([J], z3.Implies(z3.And(rng(J, i), st['indices'].n > 0), sel(st['indices'], J) >= 0))))
        return out

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('nothing_written', z3.BoolVal(not st['writes'] and not st['any']))
        if out[0] == 'raise':
            return
        l = ops.to_L(ip, out[1], 'U')
        ctx.prove('a_signature_for_each_key', ops.zi(l.n) == n())
        ctx.prove('each_by_the_secret_of_its_key_over_the_bytes_given', forall([J], z3.Implies(rng(J, n()), made(ctx, J, sel(l, J)))))
        ctx.prove('no_signature_under_encryption_without_decrypter', z3.Implies(n() > 0, unlocked(ctx, st)))
        if st['indices'] is not None:
            ctx.prove('indices_are_whole_numbers', forall([J], z3.Implies(z3.And(st['indices'].n > 0, rng(J, n())), sel(st['indices'], J) >= 0)))
    m = kmodels(st)
    m[('meth', 'Signer', 'sign')] = m[('meth', None, 'sign')] = sign
    return Unit('sign_' + ('indexed' if indexed else 'plain'), [KP + 'Manager.sign'], setup, post, models=m, attrs=KATTRS, invariants={'*': inv}, cover=['return', 'raise:ValueError', 'raise:DecryptError'], groups=['keystore'], budget=300)


FS1, FS3 = z3.Function('fs:{x}', US, US), z3.Function('fs:{}{x}{x}', US, US, US, US)
SGN = z3.Function('salter_signer', US, US, US, US, BOOL, BOOL, US)
RND = z3.Function('random_signer', US, BOOL, US)


def unit_create(algo):
    """one new key per code; with a salt, key i is the one at stem (or number of the sequence), rotation index and key index + i"""
    from keri.app import keeping
    st = {}
    cls = keeping.SaltyCreator if algo == 'salty' else keeping.RandyCreator

    def setup(ip):
        ctx = ip.ctx
        h = st['h'] = HObj(cls, 'creator', {})
        if algo == 'salty':
            h.fields['salter'] = ctx.mk('obj:Salter', 'salter')
            h.fields['_stem'] = ctx.mk('str', 'stem')
        st['codes'], st['count'], st['code'] = ctx.mk('list:str', 'codes'), ctx.mk('int', 'count'), ctx.mk('str', 'code')
        st['kw'] = kw = dict(codes=st['codes'], count=st['count'], code=st['code'], transferable=ctx.mk('bool', 'transferable'), temp=ctx.mk('bool', 'temp'), **{x: ctx.mk('int', x) for x in ('pidx', 'ridx', 'kidx')})
        return cls.create, [h], kw

    def signer(ip, args, kw, f):
        c = ip.ctx
        a = bound(('path', 'code', 'transferable', 'tier', 'temp'), args, kw)
        return U(SGN(args[0].t, c.toU(a['path']), c.toU(a.get('code')), c.toU(a.get('tier')), bt(ip, a.get('transferable', True)), bt(ip, a.get('temp', False))), 'Signer')

    def rnd(ip, args, kw, c):
        return U(RND(ip.ctx.toU(kw.get('code')), bt(ip, kw.get('transferable', True))), 'Signer')

    def want(ctx, k, got):
        kw = st['kw']
        code = z3.If(st['codes'].n > 0, sel(st['codes'], k), st['code'].t)
        if algo != 'salty':
            return got == RND(code, kw['transferable'].t)
        s = st['h'].fields['_stem'].t
        tier = TIERU(st['h'].fields['salter'].t)
        def at(stem):
            return SGN(st['h'].fields['salter'].t, FS3(stem, iU(kw['ridx'].t), iU(kw['kidx'].t + k)), code, tier, kw['transferable'].t, kw['temp'].t)
        return z3.And(z3.Implies(truthyF(s), got == at(s)), z3.Implies(z3.Not(truthyF(s)), got == at(FS1(iU(kw['pidx'].t)))))

    def n():
        return z3.If(st['codes'].n > 0, st['codes'].n, z3.If(st['count'].t > 0, st['count'].t, 0))

    def inv(lv):
        out = []
        if lv.i is not None:
            i = ops.zi(lv.i)
            for x, l in lv.lists():
                out.append((f'?n_{x}', ops.zi(l.n) == i))
                out.append((f'?are_{x}', forall([J], z3.Implies(rng(J, i), want(lv.ctx, J, sel(l, J))))))
        return out

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'raise':
            ctx.prove('no_exception', z3.BoolVal(False))
            return
        l = ops.to_L(ip, out[1], 'U')
        ctx.prove('a_key_for_each_code', ops.zi(l.n) == n())
        ctx.prove('each_at_its_place', forall([J], z3.Implies(rng(J, n()), want(ctx, J, sel(l, J)))))
    m = {('meth', 'Salter', 'signer'): signer, 'new:Signer': rnd}
    c = cls.__name__
    return Unit('create_' + algo, [KP + c + '.create'], setup, post, models=m, attrs={('Salter', 'tier'): 'U'}, invariants={'*': inv}, cover=['return'], groups=['keystore'])


def unit_storable():
    """returns only if every signer can be encrypted, or encryption is off; writes nothing"""
    from keri.app import keeping
    st = {}
    CAN = z3.Function('encryptable', US, BOOL)

    def setup(ip):
        ctx = ip.ctx
        h = manager(ip, st, False)
        st['l'] = _lo(ctx, 'Signer', 'signers')
        return keeping.Manager._verifyStorable, [h, st['l']], {}

    def encrypt(ip, args, kw, f):
        c = ip.ctx
        v = c.toU(kw.get('prim', args[1] if len(args) > 1 else None))
        if c.branch(CAN(v)):
            return c.mk('obj:Cipher', 'cipher')
        raise PyRaise(ValueError)

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('nothing_written', z3.BoolVal(not st['writes'] and not st['any']))
        if out[0] == 'return' and st['h'].fields['encrypter'] is not None:
            ctx.prove('every_signer_can_be_encrypted', forall([J], z3.Implies(rng(J, st['l'].n), CAN(sel(st['l'], J)))))
        if out[0] == 'raise':
            ctx.prove('refuses_only_what_cannot', z3.And(z3.BoolVal(st['h'].fields['encrypter'] is not None), z3.Exists([J], z3.And(rng(J, st['l'].n), z3.Not(CAN(sel(st['l'], J)))))))
    m = kmodels(st)
    m[('meth', 'Encrypter', 'encrypt')] = encrypt
    del m[K0 + 'Manager._verifyStorable']
    inv = lambda lv: [('?can', forall([J], z3.Implies(rng(J, ops.zi(lv.i)), CAN(lv.ctx.toU(lv.elem(J))))))] if lv.i is not None else []
    return Unit('verifyStorable', [KP + 'Manager._verifyStorable'], setup, post, models=m, attrs=KATTRS, invariants={'*': inv}, cover=['return', 'raise'], groups=['keystore'])


def unit_replay():
    """an advance makes the announced keys current and announces the next recorded ones; the keys returned are those of the public
    keys current; a failure writes nothing"""
    from keri.app import keeping
    st = {}

    def setup(ip):
        ctx = ip.ctx
        h = manager(ip, st)
        mksit(ip, st)
        st['former'] = lambda ip, k: z3.Exists([J], z3.And(rng(J, st['ps0']['old']['pubs'].n), sel(st['ps0']['old']['pubs'], J) == k)) if st['ps'] is not None else z3.BoolVal(False)
        st['pre'], st['dcode'] = ctx.mk('str', 'pre'), ctx.mk('str', 'dcode')
        st['kw'] = dict(dcode=st['dcode'], advance=ctx.mk('bool', 'advance'), erase=ctx.mk('bool', 'erase'))
        return keeping.Manager.replay, [h, st['pre']], dict(st['kw'])

    def pubs(ip, args, kw, f):
        c = ip.ctx
        k = kw.get('keys', args[1] if len(args) > 1 else None)
        st['asked'] = (kn(c.toU(k[0])), c.int_t(k[1]))
        if c.choose(2, 'set recorded') == 1:
            return None
        o = HObj(keeping.PubSet, 'pubset', {})
        o.fields['pubs'] = st['set'] = c.mk('list:str', 'recorded')
        return o

    def post(ip, out):
        ctx = ip.ctx
        W = st['writes']
        if out[0] == 'raise':
            ctx.prove('failure_writes_nothing', z3.BoolVal(not W and not st['any']))
            return
        o = st['ps0']
        adv = st['kw']['advance'].t
        v, g = out[1]
        v, g = ops.to_L(ip, v, 'U'), ops.to_L(ip, g, 'U')
        DG = z3.Function('digest_of', US, US, US)
        def returned(cur, nxt):
            return z3.And(ops.zi(v.n) == cur.n, forall([J], z3.Implies(rng(J, cur.n), QB64(sel(v, J)) == sel(cur, J))), ops.zi(g.n) == nxt.n, forall([J], z3.Implies(rng(J, nxt.n), sel(g, J) == DG(sel(nxt, J), st['dcode'].t))))
        if not W:
            ctx.prove('no_advance_no_change', z3.And(z3.Not(adv), z3.BoolVal(not st['any'])))
            ctx.prove('returns_the_current_and_the_announced', returned(o['new']['pubs'], o['nxt']['pubs']))
            return
        ctx.prove('one_write', z3.BoolVal(len(W) == 1 and W[0][0] == 'sits' and W[0][1] == 'pin'))
        w = W[0]
        ctx.prove('only_on_advance', adv)
        ctx.prove('of_this_sequence', kn(ctx.toU(w[2])) == st['pre'].t)
        ps = w[3].fields
        ctx.prove('current_become_old', lot_is(ip, ps['old'], o['new']))
        ctx.prove('announced_become_current', lot_is(ip, ps['new'], o['nxt']))
        ctx.prove('asked_for_the_following_set', z3.And(st['asked'][0] == st['pre'].t, st['asked'][1] == o['nxt']['ridx'].t + 1))
        rec = dict(pubs=st['set'], ridx=I(o['nxt']['ridx'].t + 1), kidx=I(o['nxt']['kidx'].t + o['nxt']['pubs'].n))
        ctx.prove('recorded_become_announced', lot_is(ip, ps['nxt'], rec))
        ctx.prove('returns_the_new_current_and_announced', returned(o['nxt']['pubs'], st['set']))
        ctx.prove('no_keys_under_encryption_without_decrypter', z3.Implies(o['nxt']['pubs'].n > 0, unlocked(ctx, st)))
    m = kmodels(st)
    for t in ('sits', 'pubs', 'prms', 'pres'):
        m.update(wtab(st, t))
    m.update(situation(None, st))
    m[('meth', 'Pubs', 'get')] = pubs
    return Unit('replay', [KP + 'Manager.replay'], setup, post, models=m, attrs=KATTRS, invariants={'*': lambda lv: verferinv(lv, st)}, cover=['return', 'raise:ValueError', 'raise:IndexError', 'raise:DecryptError'], groups=['keystore'], budget=300)


ENCOF, DECOF = z3.Function('encrypter_of', US, US), z3.Function('decrypter_of', US, US)
SEEDOK = z3.Function('seed_of', US, US, BOOL)


def unit_update():
    """authority changes only from the seed of the old to a seed of the new; then the salt, every stored salt and every stored
    secret are re-encrypted with the new, unaltered; a refusal changes nothing"""
    from keri.app import keeping
    st = {}

    def setup(ip):
        ctx = ip.ctx
        h = manager(ip, st)
        st['e0'], st['d0'], st['s0'] = h.fields['encrypter'], h.fields['decrypter'], h.fields['_seed']
        st['a0'] = st['gbls']['aeid']
        st['salt0'] = st['gbls']['salt'] = ctx.mk('U', 'salt')
        for x in ('prm', 'pri'):
            l = st[x] = _lo(ctx, x.capitalize() + 'Row', x + 'rows')
        st['iterated'] = []
        st['pinned'] = ctx.mk('set:U', 'pinned')
        ctx.assume(forall([Q], z3.Not(z3.Select(st['pinned'].a, Q))))
        ctx.assume(forall([J], z3.Implies(rng(J, st['pri'].n), kq(IT[1](sel(st['pri'], J))) == kn(IT[0](sel(st['pri'], J)))), pats=[z3.Select(st['pri'].a, J)]))
        st['olds'] = ctx.mems['salt'].a
        # distinct rows hold distinct records
        ctx.assume(forall([J, K], z3.Implies(z3.And(rng(J, st['prm'].n), rng(K, st['prm'].n), IT[1](sel(st['prm'], J)) == IT[1](sel(st['prm'], K))), J == K)))
        st['aeid'], st['seed'] = ctx.mk('str', 'aeid'), ctx.mk('str', 'seed')
        return keeping.Manager.updateAeid, [h, st['aeid'], st['seed']], {}

    def named1(F, ty):
        def h(ip, args, kw, cls):
            c = ip.ctx
            t = F(c.toU(kw.get('verkey', kw.get('seed', args[0] if args else None))))
            c.assume(truthyF(t))
            return U(t, ty)
        return h

    def verify(ip, args, kw, f):
        return B(SEEDOK(args[0].t, ip.ctx.toU(args[1] if len(args) > 1 else kw['seed'])))

    def rows(x):
        def h(ip, args, kw, f):
            if x == 'pri':
                same(ip, 'secrets_read_with_the_old_decrypter', kw.get('decrypter'), st['d0'])
            st['iterated'].append(x)
            return st[x]
        return h

    def resalt(t):
        """the stored salt re-encrypted"""
        plain = DECS(st['d0'].t, t) if st['d0'] is not None else z3.Function('salter_named', US, US)(t)
        e = st['h'].fields['encrypter']
        return QB64(ENCS(e.t, plain)) if e is not None else QB64(plain)

    def ppin(ip, args, kw, f):
        c = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        d, k = c.toU(a['val']), c.toU(a['keys'])
        c.prove('record_under_its_own_key', z3.Exists([J], z3.And(rng(J, st['prm'].n), IT[1](sel(st['prm'], J)) == d, IT[0](sel(st['prm'], J)) == k)))
        c.prove('salt_reencrypted_unaltered', c.toU(ops.getattr_(ip, a['val'], 'salt')) == resalt(z3.Select(st['olds'], d)))
        st['pinned'].a = z3.Store(st['pinned'].a, d, z3.BoolVal(True))
        st['any'] = True
        return True

    def inv(lv):
        out = []
        c = lv.ctx
        mem = c.mems['salt'].a
        l = st['prm']
        at = lambda k: IT[1](sel(l, k))
        if lv.i is not None:
            i = ops.zi(lv.i)
            e = IT[1](c.toU(lv.elem(J)))
            out.append(('?pinned', forall([J], z3.Implies(z3.And(rng(J, i), truthyF(z3.Select(st['olds'], e))), z3.Select(st['pinned'].a, e)))))
            out.append(('?stored', forall([J], z3.Implies(rng(J, i), z3.Select(st['puts'].a, e)))))
            out.append(('?rest', forall([J], z3.Implies(rng(J, l.n, i), z3.Select(mem, at(J)) == z3.Select(st['olds'], at(J))))))
        out.append(('?allpinned', forall([J], z3.Implies(z3.And(rng(J, l.n), truthyF(z3.Select(st['olds'], at(J)))), z3.Select(st['pinned'].a, at(J))))))
        return out

    def post(ip, out):
        ctx = ip.ctx
        h = st['h'].fields
        W = st['writes']
        new = [w for w in W if w[1] == 'aeid']
        e, d, s = h['encrypter'], h['decrypter'], h['_seed']
        old = z3.Implies(truthyF(ctx.toU(st['a0'])), z3.And(truthyF(st['s0'].t), SEEDOK(st['e0'].t, st['s0'].t)) if st['e0'] is not None else z3.BoolVal(False))
        want = z3.Implies(truthyF(st['aeid'].t), z3.And(truthyF(st['seed'].t), SEEDOK(ENCOF(st['aeid'].t), st['seed'].t)))
        if out[0] == 'raise':
            ctx.prove('authority_unchanged', z3.BoolVal(not new and s is st['s0'] and d is st['d0']))
            from keri.kering import AuthError
            if out[1] is AuthError:
                ctx.prove('refusal_changes_nothing', z3.BoolVal(not W and not st['any'] and e is st['e0']))
                ctx.prove('refused_only_without_authority', z3.Not(z3.And(old, want)))
            return
        ctx.prove('old_authority_shown', old)
        ctx.prove('new_authority_shown', want)
        ctx.prove('encrypter_is_the_new', z3.If(truthyF(st['aeid'].t), ctx.toU(e) == ENCOF(st['aeid'].t), z3.BoolVal(e is None)))
        ctx.prove('decrypter_is_the_new', z3.If(truthyF(st['seed'].t), ctx.toU(d) == DECOF(st['seed'].t), z3.BoolVal(d is None)))
        ctx.prove('new_identifier_recorded', z3.BoolVal(len(new) == 1) if not new else z3.And(z3.BoolVal(len(new) == 1), ctx.toU(new[0][2]) == st['aeid'].t, ctx.toU(s) == st['seed'].t))
        if st['d0'] is not None or e is not None:
            ctx.prove('everything_gone_over', z3.BoolVal(sorted(st['iterated']) == ['pri', 'prm']))
            ctx.prove('every_salt_stored_again', forall([J], z3.Implies(z3.And(rng(J, st['prm'].n), truthyF(z3.Select(st['olds'], IT[1](sel(st['prm'], J))))), z3.Select(st['pinned'].a, IT[1](sel(st['prm'], J))))))
            ctx.prove('every_secret_stored_again', forall([J], z3.Implies(rng(J, st['pri'].n), z3.Select(st['puts'].a, IT[1](sel(st['pri'], J))))))
        salt = [w for w in W if w[1] == 'salt']
        s0 = ctx.toU(st['salt0'])
        plain = QB64(DECS(st['d0'].t, s0)) if st['d0'] is not None else s0
        if salt:
            ctx.prove('root_salt_stored_again', z3.And(z3.BoolVal(len(salt) == 1), ctx.toU(salt[0][2]) == (QB64(ENCS(e.t, plain)) if e is not None else plain)))
        else:
            ctx.prove('no_root_salt', plain == ctx.injt(None))
    m = kmodels(st)
    del m[K0 + 'Manager.salt']
    m.update({'new:Encrypter': named1(ENCOF, 'Encrypter'), 'new:Decrypter': named1(DECOF, 'Decrypter'), ('meth', 'Encrypter', 'verifySeed'): verify, ('meth', 'Prms', 'getTopItemIter'): rows('prm'), ('meth', 'Pris', 'getTopItemIter'): rows('pri'),
              ('meth', 'Prms', 'pin'): ppin})
    u = Unit('updateAeid', [KP + 'Manager.updateAeid', KP + 'Manager.salt', KP + 'Manager.aeid'], setup, post, models=m, attrs=KATTRS, invariants={'*': inv}, heap_attrs={'salt': 'str'}, item_types={('PriRow', 1): 'Signer', ('PrmRow', 1): 'PrePrm'},
                cover=['return', 'raise:AuthError'], groups=['keystore'], budget=300)
    return u


PUBS, HASP = z3.Function('pubset_at', US, INT, US), z3.Function('pubset_known', US, INT, BOOL)


def unit_move():
    """the whole sequence is found under its new identifier, the old one names the new; nothing known is overwritten"""
    from keri.app import keeping
    st = {}

    def setup(ip):
        ctx = ip.ctx
        h = manager(ip, st, False, False)
        st['old'], st['new'] = ctx.mk('str', 'old'), ctx.mk('str', 'new')
        st['copied'] = ctx.fresh('copied', z3.ArraySort(INT, BOOL))
        st['g'] = HObj(object, 'ghost', {})
        st['g'].fields['copied'] = ctx.mk('set:int', 'copied')
        ctx.assume(forall([J], z3.Not(z3.Select(st['g'].fields['copied'].a, J))))
        st['any'] = False
        return keeping.Manager.move, [h, st['old'], st['new']], {}

    def get(x):
        def h(ip, args, kw, f):
            c = ip.ctx
            k = c.toU(kw.get('keys', args[1] if len(args) > 1 else None))
            t = z3.Function('stored_' + x, US, US)(k)
            if c.branch(z3.Function('has_' + x, US, BOOL)(k)):
                c.assume(z3.And(t != c.injt(None), truthyF(t)))
                return U(t, None)
            return None
        return h

    def answer(ip, name, op, a):
        c = ip.ctx
        if op == 'put':
            st['any'] = True
            return c.branch(z3.Not(z3.Function('has_' + name, US, BOOL)(c.toU(a['keys']))))
        return True

    def pget(ip, args, kw, f):
        c = ip.ctx
        k = kw.get('keys', args[1] if len(args) > 1 else None)
        c.prove('copied_from_the_old', c.toU(k[0]) == st['old'].t)
        i = c.int_t(k[1])
        if c.branch(HASP(c.toU(k[0]), i)):
            t = PUBS(c.toU(k[0]), i)
            c.assume(z3.And(truthyF(t), t != c.injt(None)))
            st['last'] = None
            return U(t, None)
        st['last'] = i
        return None

    def pput(ip, args, kw, f):
        c = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        k = a['keys']
        i = c.int_t(k[1])
        c.prove('copied_to_the_same_place', z3.And(c.toU(k[0]) == st['new'].t, c.toU(a['val']) == PUBS(st['old'].t, i)))
        s = st['g'].fields['copied']
        s.a = z3.Store(s.a, i, z3.BoolVal(True))
        st['any'] = True
        return B(c.fresh('answer', BOOL))

    def inv(lv):
        out = []
        for x, v in lv.ints():
            i = lv.ctx.int_t(v)
            out.append((f'?at_{x}', i >= 0))
            out.append((f'?copied_{x}', forall([J], z3.Implies(rng(J, i), z3.And(HASP(st['old'].t, J), z3.Select(st['g'].fields['copied'].a, J))))))
        return out

    def post(ip, out):
        ctx = ip.ctx
        W = st['writes']
        o, n = st['old'].t, st['new'].t
        has = lambda x, k: z3.Function('has_' + x, US, BOOL)(k)
        pre = z3.And(has('pres', o), z3.Not(has('pres', n)), *[z3.And(has(x, o), z3.Not(has(x, n))) for x in ('prms', 'sits')])
        if out[0] == 'raise':
            if not st['any']:
                ctx.prove('refused_for_a_reason', z3.Not(pre))
                ctx.prove('refusal_writes_nothing', z3.BoolVal(not W))
            else:
                ctx.prove('nothing_known_was_overwritten', pre)
            return
        if not W:
            ctx.prove('nothing_to_do', o == n)
            return
        ctx.prove('only_a_known_one_to_an_unknown', pre)
        got = lambda name, op, k: [w for w in W if w[0] == name and w[1] == op]
        ctx.prove('writes', z3.BoolVal(sorted((w[0], w[1]) for w in W) == [('pres', 'pin'), ('pres', 'put'), ('prms', 'put'), ('prms', 'rem'), ('sits', 'put'), ('sits', 'rem')]))
        w = {(x[0], x[1]): x for x in W}
        for x in ('prms', 'sits'):
            ctx.prove(x + '_moved', z3.And(ctx.toU(w[x, 'put'][2]) == n, ctx.toU(w[x, 'put'][3]) == z3.Function('stored_' + x, US, US)(o), ctx.toU(w[x, 'rem'][2]) == o))
        ctx.prove('old_names_new', z3.And(ctx.toU(w['pres', 'pin'][2]) == o, QB64(ctx.toU(w['pres', 'pin'][3])) == kn(n), ctx.toU(w['pres', 'put'][2]) == n, QB64(ctx.toU(w['pres', 'put'][3])) == kn(n)))
        ctx.prove('every_key_set_copied', z3.And(z3.BoolVal(st['last'] is not None), z3.Not(HASP(o, st['last'])), forall([J], z3.Implies(rng(J, st['last']), z3.Select(st['g'].fields['copied'].a, J)))))
    m = kmodels(st)
    for t in ('sits', 'prms', 'pres'):
        m.update(wtab(st, t, answer))
        m[('meth', t.capitalize(), 'get')] = get(t)
    m[('meth', 'Pubs', 'get')], m[('meth', 'Pubs', 'put')] = pget, pput
    return Unit('move', [KP + 'Manager.move'], setup, post, models=m, attrs=KATTRS, invariants={'*': inv}, whiles={'*': 'inv'}, cover=['return', 'raise:ValueError'], groups=['keystore'])


def unit_crypt(op):
    """what is stored is the encrypted primitive if an encrypter is given; what is read is decrypted if a decrypter is given, with
    the transferability of the public key it is stored under"""
    from keri.db import subing
    st = {}
    S = 'src/keri/db/subing.py:CryptSignerSuber.'

    def setup(ip):
        ctx = ip.ctx
        h = st['h'] = HObj(subing.CryptSignerSuber, 'suber', {})
        h.fields['db'], h.fields['sdb'] = ctx.mk('obj:Lmdb', 'db'), ctx.mk('U', 'sdb')
        from keri.core.signing import Signer
        h.fields['klas'] = Signer
        st.pop('raw', None)
        st['writes'] = []
        st['key'] = ctx.mk('str', 'key')
        st['crypt'] = ctx.mk('obj:' + ('Decrypter' if op == 'get' else 'Encrypter'), 'crypt') if ctx.choose(2, 'encryption') == 1 else None
        st['val'] = ctx.mk('obj:Signer', 'val')
        if op == 'get':
            return subing.CryptSignerSuber.get, [h, st['key']], dict(decrypter=st['crypt'])
        return getattr(subing.CryptSignerSuber, op), [h, st['key'], st['val']], dict(encrypter=st['crypt'])

    def write(nm):
        def h(ip, args, kw, f):
            st['writes'].append((nm, kw))
            return B(ip.ctx.fresh('answer', BOOL))
        return h

    def read(ip, args, kw, f):
        c = ip.ctx
        st['read'] = kw
        if c.choose(2, 'stored') == 1:
            return None
        st['raw'] = c.mk('bytes', 'raw')
        return st['raw']
    KEYS, TOKEY = z3.Function('keys_of', US, US), z3.Function('key_of', US, US)
    OPENED = z3.Function('opened', US, US, BOOL, US)

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'raise':
            ctx.prove('no_exception', z3.BoolVal(False))
            return
        k = TOKEY(st['key'].t)
        if op == 'get':
            ctx.prove('reads_its_key', z3.And(ctx.toU(st['read']['key']) == k, ctx.toU(st['read']['db']) == ctx.toU(st['h'].fields['sdb'])))
            if out[1] is None:
                ctx.prove('none_only_if_none_stored', z3.BoolVal('raw' not in st))
                return
            with_ = st['crypt'].t if st['crypt'] is not None else ctx.injt('Signer')
            ctx.prove('decrypted_as_stored', ctx.toU(out[1]) == OPENED(with_, st['raw'].t, TRANS(VERFER(kn(KEYS(k))))))
            return
        ctx.prove('one_write', z3.BoolVal(len(st['writes']) == 1 and st['writes'][0][0] == ('putVal' if op == 'put' else 'setVal')))
        w = st['writes'][0][1]
        v = st['val'].t if st['crypt'] is None else ENCS(st['crypt'].t, st['val'].t)
        ctx.prove('encrypted_if_asked', z3.And(ctx.toU(w['val']) == z3.Function('enc', US, US)(QB64(v)), ctx.toU(w['key']) == k, ctx.toU(w['db']) == ctx.toU(st['h'].fields['sdb'])))

    def opened(ip, args, kw, f):
        c = ip.ctx
        return U(OPENED(args[0].t if args else c.injt('Signer'), c.toU(kw.get('qb64', kw.get('qb64b'))), bt(ip, kw.get('transferable', False))), 'Signer')
    B0 = 'keri.db.subing:SuberBase.'
    m = {B0 + '_tokey': lambda ip, args, kw, f: U(TOKEY(ip.ctx.toU(args[1] if len(args) > 1 else kw['keys'])), 'bytes'), B0 + '_tokeys': lambda ip, args, kw, f: (U(KEYS(ip.ctx.toU(args[1] if len(args) > 1 else kw['key'])), 'str'),),
         ('meth', 'Lmdb', 'putVal'): write('putVal'), ('meth', 'Lmdb', 'setVal'): write('setVal'), ('meth', 'Lmdb', 'getVal'): read, ('meth', 'Encrypter', 'encrypt'): lambda ip, args, kw, f: U(ENCS(args[0].t, ip.ctx.toU(kw.get('prim', kw.get('ser')))), 'Cipher'),
         ('meth', 'Decrypter', 'decrypt'): opened, 'new:Signer': opened, 'new:Verfer': verfer_new, ('attr', 'Signer', 'qb64b'): encoded('qb64'), ('attr', 'Cipher', 'qb64b'): encoded('qb64')}
    return Unit('secret_' + op, [S + op], setup, post, models=m, attrs={('Verfer', 'transferable'): 'bool'}, cover=['return'], groups=['keystore'])


def units():
    return [unit_incept(False), unit_incept(True), unit_rotate(), unit_sign(True), unit_sign(False), unit_create('salty'), unit_create('randy'), unit_storable(), unit_replay(), unit_update(), unit_move()] + [unit_crypt(x) for x in ('put', 'pin', 'get')]
