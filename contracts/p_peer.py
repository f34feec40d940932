"""Proof units on peer to peer messages and mailboxes (C23, C28)."""
from .p_replies import *
from .p_kel import _lo

X = 'src/keri/peer/exchanging.py:'
X0 = 'keri.peer.exchanging:'
ST = 'src/keri/app/storing.py:'
XV = z3.Const('x?', US)


def unit_exchange():
    """a message reaches its handler, and is stored, only from its sender's verified signatures, only once, and with only the signatures that verified"""
    from keri.peer import exchanging
    from keri.kering import ValidationError, MissingSignatureError
    st = {}
    IT = [z3.Function(f'item{i}', US, US) for i in range(4)]
    q, n = z3.Function('at_qb64', US, US), z3.Function('at_sn', US, INT)
    TH, VF = z3.Function('threshold_at', US, INT, US, US), z3.Function('keys_at', US, INT, US, US)
    IDXS, VSIG = z3.Function('verified_positions', US, US, US, US), z3.Function('verified_signatures', US, US, US, US)
    SAT = z3.Function('satisfied_by', US, US, BOOL)
    CIG = z3.Function('cigar_ok', US, US, US, BOOL)
    vfr, raw, tr = z3.Function('at_verfer', US, US), z3.Function('at_raw', US, US), z3.Function('at_transferable', US, BOOL)
    KSN, KIN = z3.Function('kever_sn', US, INT), z3.Function('known', US, BOOL)
    g = lambda ip, o, x: ops.getattr_(ip, o, x)
    KED = z3.Function('ked', US, US, US)

    def setup(ip):
        ctx = ip.ctx
        st.update(calls=[], logged=[], logsigs=[], verify=[], trimmed=[])
        h = HObj(exchanging.Exchanger, 'exchanger', dict(hby='obj:Habery', routes='obj:Routes', kevers='obj:Kevers', cues='U'))
        st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
        st['behavior'] = None if ctx.choose(2, 'handler') == 1 else U(ctx.fresh('handler', US), 'Handler')
        st['hasverify'] = z3.BoolVal(False) if st['behavior'] is None else z3.Function('hasattr_verify', US, BOOL)(st['behavior'].t)
        st['tsgs'] = ops.mk_kind(ip, 'list:obj=Tsg', 'tsgs') if ctx.choose(2, 'tsgs') == 0 else None
        st['cigars'] = ops.mk_kind(ip, 'list:obj=Cigar', 'cigars') if ctx.choose(2, 'cigars') == 0 else None
        st['saved'] = B(ctx.fresh('saved', BOOL))
        st['ptds'] = []
        st['essr'] = None
        return exchanging.Exchanger.processEvent, [h], dict(serder=st['serder'], tsgs=st['tsgs'], cigars=st['cigars'], ptds=st['ptds'], nests=ctx.mk('U', 'nests'))

    sender = lambda ip: KED(g(ip, st['serder'], 'ked').t, ip.ctx.injt('i'))

    def good(ip, t):
        """a group of the sender, whose verified signatures satisfy the threshold at the key state it names"""
        r = g(ip, st['serder'], 'raw').t
        k = [f(q(IT[0](t)), n(IT[1](t)), q(IT[2](t))) for f in (TH, VF)]
        return z3.And(q(IT[0](t)) == sender(ip), KIN(q(IT[0](t))), KSN(q(IT[0](t))) >= n(IT[1](t)), SAT(k[0], IDXS(r, IT[3](t), k[1])))

    def goodc(ip, c):
        return z3.And(q(vfr(c)) == sender(ip), z3.Not(tr(vfr(c))), CIG(vfr(c), raw(c), g(ip, st['serder'], 'raw').t))

    def vgroup(ip, t):
        """what of the group is stored"""
        return z3.Function('tup4', US, US, US, US, US)(IT[0](t), IT[1](t), IT[2](t), VSIG(g(ip, st['serder'], 'raw').t, IT[3](t), VF(q(IT[0](t)), n(IT[1](t)), q(IT[2](t)))))

    def authentic(ip):
        ts, cs = st['tsgs'], st['cigars']
        tn = ts.n if ts is not None else z3.IntVal(0)
        cn = cs.n if cs is not None else z3.IntVal(0)
        c = [z3.And(tn > 0, forall(J, z3.Implies(rng(J, tn), good(ip, sel(ts, J)))))] if ts is not None else []
        c += [z3.And(tn == 0, cn > 0, forall(J, z3.Implies(rng(J, cn), goodc(ip, sel(cs, J)))))] if cs is not None else []
        return z3.Or(*c) if c else z3.BoolVal(False)

    def resolve(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('pre', 'sn', 'dig'), args, kw)
        k = (ctx.toU(a['pre']), ctx.int_t(a['sn']), ctx.toU(a['dig']))
        if ctx.choose(2, 'resolveVerifiers raises') == 1:
            raise PyRaise(ValidationError)
        return (U(TH(*k), 'Tholder'), U(VF(*k)))

    def verify_sigs(ip, args, kw, f):
        ctx = ip.ctx
        a = dict(zip(('raw', 'sigers', 'verfers'), args))
        a.update(kw)
        k = tuple(ctx.toU(a[x]) for x in ('raw', 'sigers', 'verfers'))
        return (U(VSIG(*k)), U(IDXS(*k)))

    def stored(ip, a):
        """only signatures that verified are handed on"""
        ctx = ip.ctx
        ctx.prove('stored_message_is_this_one', ctx.toU(a['serder']) == st['serder'].t)
        t, c = a.get('tsgs'), a.get('cigars')
        if t is not None:
            t = ops.to_L(ip, t, 'U')
            ts = st['tsgs']
            if ts is None:
                ctx.prove('only_verified_groups_stored', ops.zi(t.n) == 0)
            elif st['logged_new']:
                ctx.prove('only_verified_groups_stored', z3.And(ops.zi(t.n) == ts.n, forall(J, z3.Implies(rng(J, ts.n), sel(t, J) == vgroup(ip, sel(ts, J))))))
            else:
                ctx.prove('as_many_groups_stored', ops.zi(t.n) == ts.n)
        if c is not None:
            ctx.prove('only_verified_couples_stored', z3.And(ops.to_L(ip, c, 'U').a == st['cigars'].a, forall(J, z3.Implies(rng(J, st['cigars'].n), goodc(ip, sel(st['cigars'], J))))))

    def log(ip, args, kw, f):
        a = bound(('serder', 'pathed', 'tsgs', 'cigars', 'essrs', 'nests'), args, kw)
        ctx = ip.ctx
        st['logged_new'] = True
        ctx.prove('stored_only_if_authentic', authentic(ip))
        ctx.prove('stored_once', z3.And(z3.Not(st['saved'].t), z3.BoolVal(not st['logged'])))
        ctx.prove('stored_only_if_its_handler_allows', z3.Or(z3.Not(st['hasverify']), *[bt(ip, v) for v in st['verify']]))
        stored(ip, a)
        st['logged'].append(1)

    def logsigs(ip, args, kw, f):
        a = bound(('serder', 'tsgs', 'cigars'), args, kw)
        st['logged_new'] = False
        ip.ctx.prove('late_signatures_only_of_a_stored_message', st['saved'].t)
        stored(ip, a)
        st['logsigs'].append(1)

    def escrow(ip, args, kw, f):
        ip.ctx.prove('not_held_once_stored', z3.Not(st['saved'].t))
        return B(ip.ctx.fresh('held', BOOL))

    def verify(ip, args, kw, f):
        v = B(ip.ctx.fresh('allowed', BOOL))
        st['verify'].append(v)
        return v

    def handle(ip, args, kw, f):
        ctx = ip.ctx
        ctx.prove('delivered_only_if_authentic', authentic(ip))
        ctx.prove('delivered_once_when_stored', z3.And(z3.Not(st['saved'].t), z3.BoolVal(len(st['logged']) == 1 and not st['calls'])))
        ctx.prove('delivered_message_is_this_one', ctx.toU(kw.get('serder', args[1] if len(args) > 1 else None)) == st['serder'].t)
        st['calls'].append(1)
        if ctx.choose(2, 'handler lacks something') == 1:
            raise PyRaise(AttributeError)

    def inv(lv):
        if lv.seq is None:
            return []
        ip = lv.ip
        el = lambda k: lv.ctx.toU(lv.elem(k))
        o = [('?groups', forall(J, z3.Implies(rng(J, lv.i), z3.Or(st['saved'].t, good(ip, el(J)))))), ('?couples', forall(J, z3.Implies(rng(J, lv.i), goodc(ip, el(J)))))]
        for x, l in lv.lists('U'):
            o += [(f'?many_{x}', ops.zi(l.n) == lv.i), (f'?verified_{x}', forall(J, z3.Implies(rng(J, lv.i), z3.Or(st['saved'].t, sel(l, J) == vgroup(ip, el(J))))))]
        return o

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'raise':
            ctx.prove('refused_without_delivery', z3.BoolVal(not st['calls']))
            return
        ctx.prove('stored_implies_delivered', z3.BoolVal(not st['logged'] or bool(st['calls']) or st['behavior'] is None))
        ctx.prove('repeated_message_not_delivered', z3.Implies(st['saved'].t, z3.BoolVal(not st['calls'] and not st['logged'])))
        # an authentic new message whose handler does not object is delivered
        objects = z3.And(st['hasverify'], z3.Or(*[z3.Not(bt(ip, v)) for v in st['verify']] or [z3.BoolVal(False)]))
        ctx.prove('nothing_else_withholds_it', z3.Or(st['saved'].t, objects, z3.BoolVal(bool(st['logged']))))

    def behavior_in(ip, c, k):
        return z3.BoolVal(st['behavior'] is not None)

    m = {('in', 'Routes'): behavior_in, ('getitem', 'Routes'): lambda ip, o, k: st['behavior'], ('in', 'Kevers'): lambda ip, c, k: KIN(ip.ctx.toU(k)),
         ('getitem', 'Kevers'): lambda ip, o, k: U(z3.Function('kever_of', US, US)(ip.ctx.toU(k)), 'Kever'), ('attr', 'Kever', 'sn'): lambda ip, o: I(KSN(o.t.arg(0))),
         ('getitem', 'Ked'): lambda ip, o, k: U(KED(o.t, ip.ctx.toU(k)), 'str'), ('meth', 'Ked', 'get'): lambda ip, args, kw, f: U(ip.ctx.fresh('field', US)),
         ('meth', 'Baser', 'resolveVerifiers'): resolve, E0 + 'verifySigs': verify_sigs, ('meth', 'Tholder', 'satisfy'): lambda ip, args, kw, f: B(SAT(args[0].t, ip.ctx.toU(args[1] if len(args) > 1 else kw['indices']))),
         ('meth', 'Verfer', 'verify'): lambda ip, args, kw, f: B(CIG(args[0].t, ip.ctx.toU(args[1] if len(args) > 1 else kw['sig']), ip.ctx.toU(args[2] if len(args) > 2 else kw['ser']))),
         X0 + 'Exchanger.logEvent': log, X0 + 'Exchanger.logSigs': logsigs, X0 + 'Exchanger.escrowPSEvent': escrow, X0 + 'Exchanger.complete': lambda ip, args, kw, f: st['saved'],
         ('meth', 'Handler', 'verify'): verify, ('meth', 'Handler', 'handle'): handle, ('meth', 'Esigs', 'get'): lambda ip, args, kw, f: U(ip.ctx.fresh('stored', US)),
         ('meth', 'Esigs', 'trim'): lambda ip, args, kw, f: None, 'new:Pather': lambda ip, args, kw, cls: U(ip.ctx.fresh('pather', US), 'Pather')}
    at = {('Habery', 'db'): 'obj:Baser', ('Baser', 'esigs'): 'obj:Esigs', ('SerderKERI', 'ked'): 'obj:Ked', ('SerderKERI', 'seals'): 'U', ('Cigar', 'verfer'): 'obj:Verfer', ('Verfer', 'transferable'): 'bool',
          ('Number', 'sn'): 'int'}
    return Unit('processEvent', [X + 'Exchanger.processEvent'], setup, post, models=m, attrs=at, invariants={'*': inv}, item_types={('Tsg', 0): 'Prefixer', ('Tsg', 1): 'Number', ('Tsg', 2): 'Diger', ('Tsg', 3): None},
                cover=['return', 'raise:MissingSignatureError'], groups=['exchanges'])


def unit_store():
    """the message is kept under its own digest, and that digest gets the next ordinal of the topic; nothing else is written"""
    from keri.app import storing
    st = {}
    DG = z3.Function('digest', US, US, US)

    def setup(ip):
        ctx = ip.ctx
        st['w'] = []
        h = HObj(storing.Mailboxer, 'mailboxer', dict(tpcs='obj:Tpcs', msgs='obj:Msgs'))
        st['topic'], st['msg'] = ctx.mk('bytes', 'topic'), ctx.mk('bytes', 'msg')
        st['ok'] = B(ctx.fresh('pinned', BOOL))
        return storing.Mailboxer.storeMsg, [h], dict(topic=st['topic'], msg=st['msg'])

    def diger(ip, args, kw, cls):
        t = ip.ctx.fresh('diger', US)
        ip.ctx.assume(z3.Function('at_qb64b', US, US)(t) == DG(ip.ctx.toU(kw['ser']), ip.ctx.toU(kw['code'])))
        return U(t, 'Diger')

    def w(name, r):
        def h(ip, args, kw, f):
            a = bound(('keys', 'val'), args, kw)
            st['w'].append((name, ip.ctx.toU(a['keys']), ip.ctx.toU(a['val'])))
            return r(ip)
        return h

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        d = DG(st['msg'].t, ctx.injt(storing.MtrDex.Blake3_256))
        ws = dict((x[0], x) for x in st['w'])
        ctx.prove('one_ordinal_one_message', z3.BoolVal(sorted(x[0] for x in st['w']) == ['append', 'pin']))
        if 'append' in ws:
            ctx.prove('next_ordinal_of_the_topic', z3.And(ws['append'][1] == st['topic'].t, ws['append'][2] == d))
        if 'pin' in ws:
            ctx.prove('unaltered_under_its_digest', z3.And(ws['pin'][1] == d, ws['pin'][2] == st['msg'].t))
    m = {'new:Diger': diger, ('meth', 'Tpcs', 'append'): w('append', lambda ip: I(ip.ctx.fresh('on', INT))), ('meth', 'Msgs', 'pin'): w('pin', lambda ip: st['ok'])}
    return Unit('storeMsg', [ST + 'Mailboxer.storeMsg'], setup, post, models=m, attrs={('Diger', 'qb64b'): 'bytes'}, cover=['return'], groups=['mailbox'])


def unit_topic(fn):
    """what reading a topic yields: every message of the topic at or after the ordinal, in order, unaltered"""
    from keri.app import storing
    st = {}
    IT = [z3.Function(f'item{i}', US, US) for i in range(3)]
    MSG = z3.Function('message_at', US, US)
    gen = fn == 'cloneTopicIter'

    def setup(ip):
        ctx = ip.ctx
        h = HObj(storing.Mailboxer, 'mailboxer', dict(tpcs='obj:Tpcs', msgs='obj:Msgs'))
        st['topic'], st['fn'] = ctx.mk('bytes', 'topic'), ctx.mk('int', 'fn')
        st['items'] = ops.mk_kind(ip, 'list:obj=Item', 'items')
        # every digest listed in the topic has its message (storeMsg)
        ctx.assume(forall(J, z3.Implies(rng(J, st['items'].n), z3.And(truthyF(MSG(IT[2](sel(st['items'], J)))), MSG(IT[2](sel(st['items'], J))) != ctx.injt(None)))))
        return getattr(storing.Mailboxer, fn), [h], dict(topic=st['topic'], fn=st['fn'])

    def items(ip, args, kw, f):
        a = bound(('keys', 'on'), args, kw)
        ip.ctx.prove('reads_this_topic_from_there', z3.And(ip.ctx.toU(a['keys']) == st['topic'].t, ip.ctx.int_t(a.get('on', 0)) == st['fn'].t))
        return st['items']

    def getval(ip, args, kw, f):
        a = bound(('db', 'key'), args, kw)
        k = ip.ctx.toU(a['key'])
        return U(MSG(UNENC(k)), 'bytes')
    UNENC = z3.Function('decoded', US, US)

    def want(ctx, t):
        return z3.Function('tup3', US, US, US, US)(IT[1](t), st['topic'].t, MSG(IT[2](t))) if gen else MSG(IT[2](t))

    def inv(lv):
        if lv.seq is None:
            return []
        o = []
        el = lambda k: lv.ctx.toU(lv.elem(k))
        for x, l in lv.lists('U') + ([('$yield', lv.var('$yield'))] if gen and '$yield' in lv.names else []):
            if l is None:
                continue
            l = ops.to_L(lv.ip, l, 'U')
            o += [(f'?many_{x}', ops.zi(l.n) == lv.i), (f'?each_{x}', forall(J, z3.Implies(rng(J, lv.i), sel(l, J) == want(lv.ctx, el(J)))))]
        return o

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        l = ops.to_L(ip, out[1], 'U')
        ctx.prove('every_message_and_no_other', ops.zi(l.n) == st['items'].n)
        ctx.prove('in_order_unaltered', forall(J, z3.Implies(rng(J, st['items'].n), sel(l, J) == want(ctx, sel(st['items'], J)))))
    enc = lambda ip, args, kw, f: U(z3.Function('enc', US, US)(args[0].t), 'Key')
    m = {('meth', 'Tpcs', 'getAllItemIter'): items, ('meth', 'Mailboxer', 'getVal'): getval, 'keri.db.dbing:LMDBer.getVal': getval, ('meth', 'Dig', 'encode'): lambda ip, args, kw, f: _e(ip, args[0], UNENC)}
    return Unit(fn, [ST + 'Mailboxer.' + fn], setup, post, models=m, invariants={'*': inv}, item_types={('Item', 0): None, ('Item', 1): None, ('Item', 2): 'Dig'}, cover=['return'], groups=['mailbox'])


def _e(ip, o, dec):
    t = z3.Function('encoded', US, US)(o.t)
    ip.ctx.assume(dec(t) == o.t)
    return U(t, 'bytes')


def units_c23():
    return [unit_exchange()]


def units_c28():
    return [unit_store(), unit_topic('getTopicMsgs'), unit_topic('cloneTopicIter')]
