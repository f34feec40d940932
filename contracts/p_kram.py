"""Proof units on requests (C19): an accepted request is timely, not a replay, and authenticated by its sender."""
from .p_vdr import *
from .p_kel import _lo, gate_models, distinct
from vc.engine import R as RV

KR = 'src/keri/core/kraming.py:'
KR0 = 'keri.core.kraming:'
TSTAMP = z3.Function('timestamp', US, z3.RealSort())
DTOF = z3.Function('instant_of', US, US)
IDXF = AT('index', INT)


def now(ip, st):
    if 'now' not in st:
        st['now'] = ip.ctx.mk('str', 'now')
    return st['now']


def kram_models(st):
    def ts(ip, args, kw, f):
        return RV(TSTAMP(args[0].t))

    def fetch(ip, args, kw, f):
        st['ctyp'] = ip.ctx.mk('obj:Ctyp', 'ctyp')
        return st['ctyp']

    def resolve(ip, args, kw, f):
        """how the request is authenticated (unit resolveAuthType)"""
        from keri.core.kraming import AuthTypes
        c = ip.ctx
        k = c.choose(4, 'authentication')
        if k == 0:
            st['auth'] = ('seal', True)
            st['sealed'] = True
            return (AuthTypes.AttachedSealReference, True)
        if k == 1:
            st['auth'] = ('seal', False)
            return (AuthTypes.AttachedSealReference, False)
        if k == 2:
            st['auth'] = ('single', False)
            c.assume(st['nkeys'](ip) == 1)
            return (AuthTypes.AttachedSignatureSingleKey, False)
        st['auth'] = ('multi', False)
        c.assume(st['nkeys'](ip) != 1)
        return (AuthTypes.AttachedSignatureMultiKey, False)

    def seal(ip, args, kw, f):
        from keri.kering import MissingSenderKeyStateError
        c = ip.ctx
        a = bound(('msg', 'senderId', 'kwa'), args, kw)
        c.prove('seal_of_this_message_and_its_sender', z3.And(c.toU(a['msg']) == st['msg'].t, c.toU(a['senderId']) == st['pre']))
        k = c.choose(3, 'sealed')
        if k == 2:
            raise PyRaise(MissingSenderKeyStateError)
        if k == 0:
            st['sealed'] = True
        return k == 0

    def sigs(ip, args, kw, f):
        """what is verified is verified over this message with the sender's current keys (unit verifyAttachedSigs)"""
        from keri.core.kraming import SigVerifyResult
        c = ip.ctx
        a = bound(('msg', 'senderId', 'kever', 'kwa'), args, kw)
        c.prove('signatures_of_this_message_and_its_sender', z3.And(c.toU(a['msg']) == st['msg'].t, c.toU(a['senderId']) == st['pre'], c.toU(a['kever']) == st['kever']))
        o = HObj(SigVerifyResult, 'result', {})
        o.fields['verified'] = st['ok'] = c.mk('bool', 'verified')
        o.fields['sigers'] = st['vs'] = _lo(c, 'Siger', 'verified')
        return o

    def satisfy(ip, args, kw, f):
        c = ip.ctx
        r = B(c.fresh('satisfied', BOOL))
        x = args[1] if len(args) > 1 else kw['indices']
        st['satisfy'].append((args[0], x, r))
        return r

    def nop(name):
        def h(ip, args, kw, f):
            st[name] = st.get(name, 0) + 1
            return None
        return h

    def first(ip, args, kw, f):
        c = ip.ctx
        k = args[1]
        st['exchange'] = [c.toU(x) for x in k]
        if c.choose(2, 'exchange known') == 1:
            return []
        st['xrec'] = c.mk('obj:TxnRec', 'xrec')
        return [((c.mk('str', 'k0'), c.mk('str', 'k1'), c.mk('str', 'k2')), st['xrec'])]

    def nxt(ip, args, kw, f):
        l = args[0]
        return l[0] if l else args[1]
    m = {**DBMODELS, 'keri.help.helping:fromIso8601': lambda ip, args, kw, f: U(DTOF(ip.ctx.toU(args[0])), 'Instant'), ('meth', 'Instant', 'timestamp'): ts, 'keri.help.helping:nowIso8601': lambda ip, args, kw, f: now(ip, st),
         KR0 + 'Kramer._fetchCacheType': fetch, KR0 + 'Kramer._resolveAuthType': resolve, KR0 + 'Kramer._validateSenderSeal': seal, KR0 + 'Kramer._verifyAttachedSigs': sigs, ('meth', 'Tholder', 'satisfy'): satisfy,
         KR0 + 'Kramer._storeNonAuthAttachments': nop('kept'), KR0 + 'Kramer._rehydrateKwaFromEscrow': nop('restored'), KR0 + 'Kramer._normalizeSenderSeals': nop('x1'), KR0 + 'Kramer._normalizeSenderTlsgs': nop('x2'),
         KR0 + 'Kramer._hasSeals': lambda ip, args, kw, f: B(z3.Bool('has_seals')), KR0 + 'Kramer._hasSigs': lambda ip, args, kw, f: B(z3.Bool('has_sigs')),
         'new:MsgCacheRecord': record, 'new:TxnMsgCacheRecord': record, 'new:Diger': named('Diger'), ('meth', 'Kramtmsc', 'getTopItemIter'): first, 'next': nxt,
         ('meth', 'Ked', 'get'): lambda ip, args, kw, f: U(KED(args[0].t, ip.ctx.injt(args[1])), 'Text')}
    return m


KRA = {('Baser', 'kram' + x): 'obj:Kram' + x.lower() for x in ('MSGC', 'PMKM', 'PMKS', 'PMSK', 'TMSC')}
KRA.update({('Baser', 'kevers'): 'obj:Kevers', ('Kever', 'sner'): 'obj:Number', ('Kever', 'serder'): 'obj:SerderKERI', ('Kever', 'verfers'): 'list:obj=Verfer', ('Kever', 'tholder'): 'obj:Tholder', ('Kever', 'sn'): 'int', ('SerderKERI', 'ked'): 'obj:Ked',
            ('SerderKERI', 'stamp'): 'str', ('SerderKERI', 'route'): 'str', ('Cache', 'mdt'): 'str', ('Number', 'num'): 'int', ('TxnRec', 'xdt'): 'str', ('Verfer', 'transferable'): 'bool'})
KRA.update({('Ctyp', x): 'int' for x in ('d', 'sl', 'll', 'xl', 'psl', 'pll', 'pxl')})
CX = AT('xl', INT), AT('d', INT), AT('sl', INT), AT('ll', INT)


def unit_kramit(kind):
    """a request accepted is inside its window (and its exchange's lifetime), authenticated, and was not accepted before; its
    acceptance is remembered under its sender and digest"""
    from keri.core import kraming
    from keri.kering import Vrsn_1_0, Vrsn_2_0
    st = {}
    ilk = dict(xip='xip', exn='exn', exn1='exn', qry='qry')[kind]
    vers = Vrsn_1_0 if kind == 'exn1' else Vrsn_2_0

    def setup(ip):
        ctx = ip.ctx
        for k in ('now', 'auth', 'ctyp', 'ok', 'vs', 'exchange', 'xrec', 'part', 'cache', 'state', 'esc'):
            st.pop(k, None)
        st.update(writes=[], satisfy=[], sealed=False, cues=[])
        h = HObj(kraming.Kramer, 'kramer', {})
        h.fields['db'] = ctx.mk('obj:Baser', 'db')
        h.fields['cues'] = ctx.mk('obj:Cues', 'cues')
        st['msg'] = ctx.mk('obj:SerderKERI', 'msg')
        st['pre'], st['said'] = AT('pre')(st['msg'].t), AT('said')(st['msg'].t)
        st['kever'] = z3.Function('kever_of', US, US)(st['pre'])
        st['nkeys'] = lambda ip: ops.zi(ops.to_L(ip, ops.getattr_(ip, U(st['kever'], 'Kever'), 'verfers'), 'U').n)
        return kraming.Kramer.kramit, [h, st['msg']], dict(kwa={})

    def kev(ip, args, kw, f):
        c = ip.ctx
        c.prove('key_state_of_the_sender', c.toU(args[1]) == st['pre'])
        if c.choose(2, 'sender known') == 1:
            return None
        c.assume(truthyF(st['kever']))
        return U(st['kever'], 'Kever')

    def keyof(ip, k):
        return [ip.ctx.toU(x) for x in k]

    def get(name, ty):
        def h(ip, args, kw, f):
            c = ip.ctx
            k = kw.get('keys', args[1] if len(args) > 1 else None)
            if name not in st:
                if c.choose(2, name + ' known') == 1:
                    st[name] = None
                else:
                    st[name] = _lo(c, 'Siger', 'held') if ty == 'list' else ((c.mk('obj:Number', 'psn'), c.mk('obj:Diger', 'psd')) if ty == 'pair' else c.mk('obj:' + ty, name))
                st[name + '_key'] = keyof(ip, k)
            else:
                c.prove(name + '_same_key', samekeys(keyof(ip, k), st[name + '_key']))
            return st[name]
        return h

    def add(ip, args, kw, f):
        c = ip.ctx
        k, v = kw.get('keys', args[1]), kw.get('val', args[2] if len(args) > 2 else None)
        c.prove('part_kept_under_its_own_key', samekeys(keyof(ip, k), [st['pre'], st['said']]))
        v = c.toU(v)
        c.prove('part_kept_was_verified', z3.Exists([J], z3.And(rng(J, st['vs'].n), sel(st['vs'], J) == v)))
        st['addsig'] = True
        return True

    def tw(name, op):
        def h(ip, args, kw, f):
            st['writes'].append((name, op, keyof(ip, kw.get('keys', args[1])), kw.get('val', args[2] if len(args) > 2 else None)))
            return True
        return h

    def post(ip, out):
        ctx = ip.ctx
        W = st['writes']
        caches = [w for w in W if w[0] in ('kramMSGC', 'kramTMSC')]
        if out[0] == 'raise':
            ctx.prove('nothing_remembered', z3.BoolVal(not W))
            return
        accepted = out[1] is not None
        if accepted:
            ctx.prove('answers_the_message', ctx.toU(out[1]) == st['msg'].t)
        own = [st['pre'], st['said']]
        x = KED(AT('ked')(st['msg'].t), ctx.injt('x'))
        ex = None
        if kind == 'xip':
            ex = st['said']
        if kind == 'exn' and caches and caches[0][0] == 'kramTMSC':
            ex = x
        # time
        rdt, mdt = TSTAMP(DTOF(now(ip, st).t)) * 1000, TSTAMP(DTOF(AT('stamp')(st['msg'].t))) * 1000
        for w in caches:
            c = st['ctyp'].t
            d = z3.ToReal(CX[1](c))
            ml = z3.ToReal(CX[3](c) if st['auth'][0] == 'multi' else CX[2](c))
            ctx.prove('inside_its_window', z3.And(rdt - d - ml <= mdt, mdt <= rdt + d))
            ctx.prove('stamp_remembered', z3.And(z3.BoolVal(w[1] == 'pin'), ctx.toU(w[3].fields['mdt']) == AT('stamp')(st['msg'].t)))
            if w[0] == 'kramTMSC':
                xdts = KED(AT('ked')(st['msg'].t), ctx.injt('dt')) if kind == 'xip' else (AT('xdt')(st['xrec'].t) if 'xrec' in st else None)
                ctx.prove('exchange_is_known', z3.BoolVal(xdts is not None))
                if xdts is not None:
                    xdt = TSTAMP(DTOF(xdts)) * 1000
                    ctx.prove('inside_the_lifetime_of_its_exchange', z3.And(xdt <= mdt, mdt <= xdt + z3.ToReal(CX[0](c))))
                    ctx.prove('remembers_when_the_exchange_began', ctx.toU(w[3].fields['xdt']) == xdts)
                if kind == 'exn':
                    ctx.prove('the_exchange_it_names', samekeys(st['exchange'], [st['pre'], x]))
                ctx.prove('remembered_under_its_own_key', samekeys(w[2], [st['pre'], ex, st['said']]) if ex is not None else z3.BoolVal(False))
            else:
                ctx.prove('remembered_under_its_own_key', samekeys(w[2], own))
                ctx.prove('belongs_to_no_exchange', z3.BoolVal(kind in ('qry', 'exn1')) if kind != 'exn' else z3.Not(truthyF(x)))
            ctx.prove('was_not_remembered_before', z3.BoolVal(st.get('cache', 0) is None))
            ctx.prove('looked_up_under_the_same_key', samekeys(st['cache_key'], w[2]))
        ctx.prove('remembered_at_most_once', z3.BoolVal(len(caches) <= 1))
        th = AT('tholder')(st['kever'])

        def met(n, at):
            """the sender's threshold was asked about exactly these indices and they satisfy it"""
            cs = []
            for t, l, r in st['satisfy']:
                if not isinstance(l, L):
                    continue
                cs.append(z3.And(ctx.toU(t) == th, r.t, ops.zi(l.n) == n, forall([J], z3.Implies(rng(J, n), sel(l, J) == at(J)))))
            return z3.Or(*cs) if cs else z3.BoolVal(False)
        if accepted and caches:
            a = st['auth'][0]
            if a == 'seal':
                ctx.prove('sealed_in_its_senders_log', z3.BoolVal(st['sealed']))
            elif a == 'single':
                ctx.prove('signed_with_the_senders_key', z3.And(st['ok'].t, st['nkeys'](ip) == 1))
            else:
                vs = st['vs']
                ctx.prove('signed_to_the_senders_threshold', z3.And(st['ok'].t, met(vs.n, lambda j: IDXF(sel(vs, j)))))
        if accepted and not caches:
            ctx.prove('accepted_only_if_remembered_or_completed', z3.BoolVal(st.get('cache') is not None and 'vs' in st))
            if 'vs' in st and st.get('cache') is not None:
                ctx.prove('parts_under_its_own_key', z3.And(samekeys(st['esc_key'], own) if 'esc_key' in st else z3.BoolVal(False)))
                held, vs = st.get('esc'), st['vs']
                hn = held.n if held is not None else z3.IntVal(0)
                had = lambda i: z3.Exists([K], z3.And(rng(K, held.n), IDXF(sel(held, K)) == i)) if held is not None else z3.BoolVal(False)
                ctx.prove('verified_now', st['ok'].t)
                ctx.prove('same_key_state_as_the_parts', z3.BoolVal(st.get('state', 0) is None) if st.get('state') is None else z3.And(SNF(st['state'][0].t) == SNF(AT('sner')(st['kever'])) if False else AT('num', INT)(st['state'][0].t) == AT('num', INT)(AT('sner')(st['kever'])), QB64(st['state'][1].t) == AT('said')(AT('serder')(st['kever']))))
                asked = [(t, l, r) for t, l, r in st['satisfy'] if isinstance(l, L)]
                ctx.prove('the_senders_threshold_was_asked', z3.BoolVal(bool(asked)))
                if asked:
                    t, l, r = asked[-1]
                    j0 = ctx.fresh('asked', INT)
                    ctx.assume(rng(j0, ops.zi(l.n)))
                    i0 = sel(l, j0)
                    ctx.prove('the_senders_threshold_is_met', z3.And(ctx.toU(t) == th, r.t))
                    ctx.prove('each_part_asked_about_is_held_or_verified_now', z3.Or(had(i0), z3.Exists([K], z3.And(rng(K, vs.n), IDXF(sel(vs, K)) == i0))))
                if held is not None:
                    ctx.prove('parts_alone_did_not', z3.Or(hn == 0, *[z3.And(ctx.toU(t) == th, z3.Not(r.t)) for t, l, r in st['satisfy'][:1]]))
                ctx.prove('the_parts_attachments_are_restored', z3.BoolVal(st.get('restored', 0) >= 1))
        for w in W:
            if w[0] in ('kramPMKM', 'kramPMSK'):
                ctx.prove('part_filed_under_its_own_key', samekeys(w[2], own))
                if w[0] == 'kramPMSK':
                    a, b = w[3]
                    ctx.prove('key_state_filed_is_the_senders', z3.And(ctx.toU(a) == AT('sner')(st['kever']), QB64(ctx.toU(b)) == AT('said')(AT('serder')(st['kever']))))
                else:
                    ctx.prove('message_filed_is_this', ctx.toU(w[3]) == st['msg'].t)
    m = kram_models(st)
    m.update({('attr', 'SerderKERI', 'ilk'): lambda ip, o: ilk, ('attr', 'SerderKERI', 'pvrsn'): lambda ip, o: vers, ('meth', 'Kevers', 'get'): kev, ('meth', 'Cues', 'append'): lambda ip, args, kw, f: None,
              ('meth', 'Krammsgc', 'get'): get('cache', 'Cache'), ('meth', 'Kramtmsc', 'get'): get('cache', 'Cache'), ('meth', 'Krampmkm', 'get'): get('part', 'SerderKERI'), ('meth', 'Krampmks', 'get'): get('esc', 'list'),
              ('meth', 'Krampmsk', 'get'): get('state', 'pair'), ('meth', 'Krampmks', 'add'): add})
    for n in ('MSGC', 'TMSC', 'PMKM', 'PMSK'):
        for op in ('pin', 'put', 'rem'):
            m[('meth', 'Kram' + n.lower(), op)] = tw('kram' + n, op)
    return Unit('kramit_' + kind, [KR + 'Kramer.kramit'], setup, post, models=m, attrs=KRA, invariants={'*': lambda lv: []}, cover=['return', 'raise'], groups=['requests'], budget=300)


def kramer(ip):
    from keri.core import kraming
    h = HObj(kraming.Kramer, 'kramer', {})
    h.fields['db'] = ip.ctx.mk('obj:Baser', 'db')
    h.fields['cues'] = ip.ctx.mk('obj:Cues', 'cues')
    return h


def message(ip, st):
    st['msg'] = ip.ctx.mk('obj:SerderKERI', 'msg')
    st['sender'] = ip.ctx.mk('str', 'sender')
    st['kever'] = ip.ctx.mk('obj:Kever', 'kever')
    return st['msg']


def unit_seal():
    """true only if the event the reference names is the sender's accepted event at that number and holds a seal of this message"""
    from keri.core import kraming
    st = {}

    def setup(ip):
        c = ip.ctx
        st['raised'] = False
        message(ip, st)
        st['kwa'] = kwa = {}
        for x in ('sscs', 'ssts'):
            if c.choose(2, x) == 0:
                kwa[x] = _lo(c, 'Ref' if x == 'sscs' else 'Ref3', x)
        return kraming.Kramer._validateSenderSeal, [kramer(ip), st['msg'], st['sender'], kwa], {}

    def post(ip, out):
        c = ip.ctx
        if out[0] != 'return':
            return
        k = kn(st['sender'].t)
        none = c.injt(None)

        def sealed(n, dq):
            d = LAST(k, n)
            e = EVT(k, kn(d))
            l = seals_of(ip, e)
            return z3.And(d != none, kn(d) == dq, e != none, z3.Exists([J], z3.And(rng(J, ops.zi(l.n)), KED(sel(l, J), c.injt('d')) == AT('said')(st['msg'].t))))
        n = z3.Int('n_of')
        w = z3.Exists([n], sealed(n, kn(LAST(k, n)))) if not st['reads'] else z3.Or(*[sealed(x, kn(LAST(k, x))) for x in st['reads']])
        c.prove('true_only_if_sealed_in_the_senders_accepted_log', z3.Implies(bt(ip, out[1]), w))
        c.prove('says_no_without_a_reference', z3.Implies(z3.BoolVal(not st['kwa']), z3.Not(bt(ip, out[1]))))

    def last(ip, args, kw, f):
        st.setdefault('reads', [])
        st['reads'].append(ip.ctx.int_t(kw.get('on', args[2] if len(args) > 2 else None)))
        t = dbget('kels_last', 'str')(ip, args, kw, f)
        if ip.ctx.choose(2, 'known') == 1:
            ip.ctx.assume(t.t == ip.ctx.injt(None))
            return None
        ip.ctx.assume(t.t != ip.ctx.injt(None))
        return t

    def seals_of(ip, e):
        return ops.to_L(ip, ops.getattr_(ip, U(e, 'SerderKERI'), 'seals'), 'U')

    m = {**DBMODELS, ('meth', 'Kels', 'getLast'): last, 'new:Prefixer': named('Prefixer'), ('attr', 'Prefixer', 'qb64b'): encoded('qb64'), ('attr', 'Diger', 'qb64b'): encoded('qb64'),
         ('meth', 'Ked', 'get'): lambda ip, args, kw, f: U(KED(args[0].t, ip.ctx.injt(args[1])), 'Text')}
    at = {('Baser', 'kels'): 'obj:Kels', ('Baser', 'evts'): 'obj:Evts', ('Number', 'sn'): 'int', ('SerderKERI', 'seals'): 'list:obj=Ked', ('SerderKERI', 'said'): 'str', ('Prefixer', 'qb64'): 'str', ('Diger', 'qb64'): 'str'}
    old = setup

    def setup2(ip):
        st['reads'] = []
        return old(ip)
    return Unit('validateSenderSeal', [KR + 'Kramer._validateSenderSeal'], setup2, post, models=m, attrs=at, invariants={'*': lambda lv: []},
                item_types={('Ref', 0): 'Number', ('Ref', 1): 'Diger', ('Ref3', 0): 'Prefixer', ('Ref3', 1): 'Number', ('Ref3', 2): 'Diger'}, cover=['return', 'raise'], groups=['requests'])


def unit_auth():
    """which rule authenticates the request: the seal only if it is there and, where signatures are too, it validated"""
    from keri.core import kraming
    st = {}

    def setup(ip):
        c = ip.ctx
        message(ip, st)
        st['asked'] = None
        st['hs'], st['hg'] = c.mk('bool', 'has_seals'), c.mk('bool', 'has_sigs')
        st['kwa'] = {}
        return kraming.Kramer._resolveAuthType, [kramer(ip), st['msg'], st['kwa'], st['kever'], st['hs'], st['hg'], st['sender']], {}

    def seal(ip, args, kw, f):
        from keri.kering import MissingSenderKeyStateError
        c = ip.ctx
        a = bound(('msg', 'senderId', 'kwa'), args, kw)
        c.prove('seal_of_this_message_and_its_sender', z3.And(c.toU(a['msg']) == st['msg'].t, c.toU(a['senderId']) == st['sender'].t))
        if c.choose(2, 'unknown') == 1:
            raise PyRaise(MissingSenderKeyStateError)
        st['asked'] = c.mk('bool', 'sealed')
        return st['asked']

    def post(ip, out):
        from keri.core.kraming import AuthTypes
        c = ip.ctx
        if out[0] != 'return':
            c.prove('no_exception', z3.BoolVal(False))
            return
        a, v = out[1]
        n = ops.zi(ops.to_L(ip, ops.getattr_(ip, st['kever'], 'verfers'), 'U').n)
        hs, hg = st['hs'].t, st['hg'].t
        vt = bt(ip, v)
        c.prove('sealed_only_if_validated', z3.Implies(vt, st['asked'].t if st['asked'] is not None else z3.BoolVal(False)))
        if a == AuthTypes.AttachedSealReference:
            c.prove('by_seal', z3.And(hs, z3.Or(z3.Not(hg), vt)))
        elif a == AuthTypes.AttachedSignatureSingleKey:
            c.prove('by_the_one_key', z3.And(hg, n == 1))
        elif a == AuthTypes.AttachedSignatureMultiKey:
            c.prove('by_the_threshold', z3.And(hg, n != 1))
        else:
            c.prove('by_nothing', z3.And(z3.Not(hs), z3.Not(hg), z3.Not(vt)))
    return Unit('resolveAuthType', [KR + 'Kramer._resolveAuthType'], setup, post, models={KR0 + 'Kramer._validateSenderSeal': seal}, attrs={('Kever', 'verfers'): 'list:obj=Verfer'}, cover=['return'], groups=['requests'])


def unit_sigs():
    """verified only by the sender's own non-transferable key over this message, or by signatures that verify over this message
    under the sender's current keys"""
    from keri.core import kraming
    st = {}
    CIG = z3.Function('cig_verifies', US, US, US, BOOL)

    def setup(ip):
        c = ip.ctx
        st['verified'] = []
        message(ip, st)
        st['kwa'] = kwa = dict(sigers=_lo(c, 'Siger', 'sigers'))
        for x, ty in (('cigars', 'Cigar'), ('lsgs', 'Lsg'), ('tsgs', 'Tsg')):
            if c.choose(2, x) == 0:
                kwa[x] = _lo(c, ty, x)
        st['cigars'] = kwa.get('cigars')
        return kraming.Kramer._verifyAttachedSigs, [kramer(ip)], dict(msg=st['msg'], senderId=st['sender'], kever=st['kever'], kwa=kwa)

    def post(ip, out):
        c = ip.ctx
        if out[0] != 'return':
            return
        r = out[1]
        ok, sigers = r.verified, ops.to_L(ip, r.sigers, 'U')
        g = st['cigars']
        raw = AT('raw')(st['msg'].t)
        own = z3.BoolVal(False)
        if g is not None:
            v = lambda j: AT('verfer')(sel(g, j))
            own = z3.Exists([J], z3.And(rng(J, g.n), z3.Not(AT('transferable', BOOL)(v(J))), AT('qb64')(v(J)) == st['sender'].t, CIG(v(J), AT('raw')(sel(g, J)), raw)))
        keys = ops.to_L(ip, ops.getattr_(ip, st['kever'], 'verfers'), 'U')
        by = z3.BoolVal(False)
        for rw, given, ks, vs, vi in st['verified']:
            by = z3.Or(by, z3.And(rw == raw, ks.n == keys.n, forall([J], z3.Implies(rng(J, keys.n), sel(ks, J) == sel(keys, J))), ops.zi(sigers.n) == vs.n, forall([J], z3.Implies(rng(J, vs.n), sel(sigers, J) == sel(vs, J)))))
        c.prove('verified_by_the_sender', z3.Implies(bt(ip, ok), z3.Or(own, z3.And(by, ops.zi(sigers.n) > 0))))
        c.prove('signatures_answered_verify', z3.Or(ops.zi(sigers.n) == 0, by))

    def vsigs(ip, args, kw, f):
        return gate_models(st)[E0 + 'verifySigs'](ip, args, kw, f)
    m = {('iter', 'Sigs'): lambda ip, o: _lo(ip.ctx, 'Siger', 'group'), E0 + 'verifySigs': vsigs, KR0 + 'verifySigs': vsigs, 'new:Siger': named('Siger'), 
         ('meth', 'Verfer', 'verify'): lambda ip, args, kw, f: B(CIG(args[0].t, ip.ctx.toU(args[1] if len(args) > 1 else kw['sig']), ip.ctx.toU(args[2] if len(args) > 2 else kw['ser'])))}
    for x in ('_normalizeCurrentSenderTsgs', '_scrubSameSenderPriorEventTsgs', '_scrubFailedVerification'):
        m[KR0 + 'Kramer.' + x] = (lambda ip, args, kw, f: _lo(ip.ctx, 'Stale', 'stale'))
    at = {('Kever', 'verfers'): 'list:obj=Verfer', ('Kever', 'sner'): 'obj:Number', ('Kever', 'serder'): 'obj:SerderKERI', ('Cigar', 'verfer'): 'obj:Verfer', ('Verfer', 'transferable'): 'bool', ('Number', 'num'): 'int', ('Number', 'sn'): 'int'}

    def inv(lv):
        return []
    return Unit('verifyAttachedSigs', [KR + 'Kramer._verifyAttachedSigs'], setup, post, models=m, attrs=at, invariants={'*': inv},
                item_types={('Lsg', 0): 'Prefixer', ('Lsg', 1): 'Sigs', ('Tsg', 0): 'Prefixer', ('Tsg', 1): 'Number', ('Tsg', 2): 'Diger', ('Tsg', 3): 'Sigs'}, cover=['return'], groups=['requests'])


def units():
    return [unit_seal(), unit_auth(), unit_sigs()] + [unit_kramit(k) for k in ('qry', 'exn1', 'xip', 'exn')]
