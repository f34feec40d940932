"""Proof units on receipts (C24): a receipt signature is stored for an event only with the key that made it."""
from .p_replies import *
from .p_kel import _lo

AT = lambda x, s=US: z3.Function('at_' + x, US, s)
QB64, RAWF, SAIDF = AT('qb64'), AT('raw'), AT('said')
TRANS = AT('transferable', BOOL)
VERFER = z3.Function('verfer_of', US, US)
WITS = z3.Function('witness_list_n', US, US, INT), z3.Function('witness_list', US, US, z3.ArraySort(INT, US))      # of the event with this identifier and digest
LAST, EVT, FEL = z3.Function('db_kels_last1', US, INT, US), z3.Function('db_evts2', US, US, US), z3.Function('db_fels1', US, INT, US)
IT = [z3.Function(f'item{i}', US, US) for i in range(5)]
SNF = AT('sn', INT)
ONK = AT('onkey')


def fit(ip, got, want):
    return z3.And(*[z3.Or(x == y) for x, y in zip(got, want)]) if len(got) == len(want) else z3.BoolVal(False)


def sigs(ip, u):
    l = ops.u_list(ip, u)
    l.ecls = 'Siger'
    return l


def compares(ip, args, kw, f):
    return B(CMP(args[0].t, kn(ip.ctx.toU(kw.get('said', args[1] if len(args) > 1 else None)))))


def dgkey(ip, args, kw, f):
    a = dict(zip(('pre', 'dig'), args))
    a.update(kw)
    return (a['pre'], a['dig'])


def sgkey(ip, args, kw, f):
    a = dict(zip(('pre', 'sn'), args))
    a.update(kw)
    return (a['pre'], a['sn'])


def siger_new(ip, args, kw, cls):
    """a signature made of given raw material at an index, or read from its text"""
    ctx = ip.ctx
    t = ctx.fresh('siger', US)
    ctx.assume(truthyF(t))
    if 'raw' in kw:
        ctx.assume(z3.And(RAWF(t) == ctx.toU(kw['raw']), IDX(t) == ctx.int_t(kw['index'])))
        u = U(t, 'Siger')
        if 'verfer' in kw:
            ops.setattr_(ip, u, 'verfer', kw['verfer'])
        return u
    ctx.assume(z3.And(QB64(t) == ctx.toU(kw.get('qb64', args[0] if args else None)), IDX(t) >= 0))
    return U(t, 'Siger')


def verfer_new(ip, args, kw, cls):
    ctx = ip.ctx
    q = kn(ctx.toU(kw.get('qb64', kw.get('qb64b', args[0] if args else None))))
    t = VERFER(q)
    ctx.assume(z3.And(QB64(t) == q, truthyF(t)))
    return U(t, 'Verfer')


def named(cls):
    """object made from its qb64"""
    def h(ip, args, kw, c):
        ctx = ip.ctx
        q = kn(ctx.toU(kw.get('qb64', kw.get('qb64b', args[0] if args else None))))
        t = z3.Function(cls + '_named', US, US)(q)
        ctx.assume(z3.And(QB64(t) == q, truthyF(t)))
        return U(t, cls)
    return h


def number_new(ip, args, kw, cls):
    ctx = ip.ctx
    n = ctx.int_t(kw.get('num', args[0] if args else None))
    t = z3.Function('number_named', INT, US)(n)
    ctx.assume(z3.And(SNF(t) == n, truthyF(t)))
    return U(t, 'Number')


def wstate(st):
    """the witnesses in force at the event named (its own contract: unit fetchWitnessState)"""
    def h(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('pre', 'sn', 'said'), args, kw)
        pre, sn = kn(ctx.toU(a['pre'])), ctx.int_t(a['sn'])
        d = kn(ctx.toU(a['said'])) if a.get('said') is not None else LAST(pre, sn)
        n = WITS[0](pre, d)
        ctx.assume(z3.And(n >= 0, forall([J, K], z3.Implies(z3.And(rng(J, n), rng(K, n), QB64(z3.Select(WITS[1](pre, d), J)) == QB64(z3.Select(WITS[1](pre, d), K))), J == K))))
        st.setdefault('asked', []).append((pre, sn, d))
        l = _lo(ctx, 'Prefixer', 'wits')
        ctx.assume(z3.And(l.n == n, l.a == WITS[1](pre, d)))
        return l
    return h


def credit(st):
    """the obligations on every signature that is stored with an event"""
    def accepted(ip, pre, d):
        """the digest is the one of the event receipted"""
        if 'accepted' in st:
            return st['accepted'](ip, kn(pre), d)
        return z3.And(kn(pre) == st['pre'](ip), z3.Or(*[d == x for x in st['dig'](ip)]))

    def over(ip, sig, ver, pre, d):
        """it verifies over the exact bytes of the event"""
        return OK(ver, RAWF(sig), RAWF(EVT(pre, d)))

    def verfer(ip, u):
        return ip.ctx.toU(ops.getattr_(ip, u, 'verfer'))

    def wigs(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        k = keyterms(ip, a['keys'])
        ctx.prove('key_has_two_parts', z3.BoolVal(len(k) == 2))
        pre, d = k
        w = ctx.toU(a['val'])
        v = verfer(ip, a['val'])
        n, l = WITS[0](pre, d), WITS[1](pre, d)
        ctx.prove('of_the_accepted_event', accepted(ip, pre, d))
        ctx.prove('witness_signature_verifies_over_the_event', over(ip, w, v, pre, d))
        ctx.prove('with_the_key_of_the_witness_at_its_index', z3.And(IDX(w) >= 0, IDX(w) < n, QB64(v) == QB64(z3.Select(l, IDX(w)))))
        ctx.prove('witness_key_is_not_transferable', z3.Not(TRANS(v)))
        st['stored'] = True
        return B(ctx.fresh('answer', BOOL))

    def rcts(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        k = keyterms(ip, a['keys'])
        ctx.prove('key_has_two_parts', z3.BoolVal(len(k) == 2))
        pre, d = k
        v, c = a['val']
        v, c = ctx.toU(v), ctx.toU(c)
        ctx.prove('of_the_accepted_event', accepted(ip, pre, d))
        ctx.prove('receipt_verifies_over_the_event', over(ip, c, v, pre, d))
        ctx.prove('claimed_key_is_not_transferable', z3.Not(TRANS(v)))
        ctx.prove('not_of_a_witness', forall(J, z3.Implies(rng(J, WITS[0](pre, d)), QB64(z3.Select(WITS[1](pre, d), J)) != QB64(v))))
        st['stored'] = True
        return B(ctx.fresh('answer', BOOL))

    def vrcs(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        k = keyterms(ip, a['keys'])
        ctx.prove('key_has_five_parts', z3.BoolVal(len(k) == 5))
        pre, d, sp, sn, sd = k
        s = ctx.toU(a['val'])
        ctx.prove('of_the_accepted_event', accepted(ip, pre, d))
        kn_, ka = AT('verfers_n', INT), z3.Function('at_verfers_a', US, z3.ArraySort(INT, US))

        def group(P):
            """some group given (its receiptor, number, digest)"""
            return z3.Or(*[z3.Exists([K], z3.And(rng(K, l.n), P(QB64(IT[o](of(sel(l, K)))), IT[o + 1](of(sel(l, K))), QB64(IT[o + 2](of(sel(l, K))))))) for l, o, of in st['groups'](ip)])
        named = lambda p, n, q: z3.And(sp == p, sn == ONK(n), sd == q)
        est = lambda p, n: EVT(p, LAST(p, SNF(n)))
        ctx.prove('stored_under_the_establishment_event_named', group(named))
        ctx.prove('that_event_is_accepted', group(lambda p, n, q: z3.And(named(p, n, q), LAST(p, SNF(n)) != ctx.injt(None), CMP(est(p, n), q))))
        ctx.prove('verifies_with_the_receiptors_key_at_its_index', group(lambda p, n, q: z3.And(named(p, n, q), IDX(s) < kn_(est(p, n)), OK(z3.Select(ka(est(p, n)), IDX(s)), RAWF(s), RAWF(EVT(pre, d))))))
        st['stored'] = True
        return B(ctx.fresh('answer', BOOL))
    return {('meth', 'Wigs', 'add'): wigs, ('meth', 'Rcts', 'add'): rcts, ('meth', 'Vrcs', 'add'): vrcs}


ATTRS = {('Baser', x): 'obj:' + x.capitalize() for x in ('kels', 'evts', 'wigs', 'rcts', 'vrcs', 'fels', 'dtss', 'uwes', 'ures', 'vres', 'wits')}
ATTRS.update({('Cigar', 'verfer'): 'obj:Verfer', ('Verfer', 'transferable'): 'bool', ('Number', 'sn'): 'int', ('Siger', 'index'): 'int', ('SerderKERI', 'verfers'): 'list:obj=Verfer', ('SerderKERI', 'ked'): 'obj:Ked',
              'estive': 'bool', ('Number', 'onkey'): 'U'})


def base(st):
    m = {**DBMODELS, ('iter', 'Sigs'): sigs, ('meth', 'SerderKERI', 'compare'): compares, **credit(st), E0 + 'Kevery.fetchWitnessState': wstate(st), 'keri.db.dbing:dgKey': dgkey, 'keri.db.dbing:snKey': sgkey, E0 + 'dgKey': dgkey, E0 + 'snKey': sgkey,
         'new:Siger': siger_new, 'new:Verfer': verfer_new, ('meth', 'Fels', 'get'): dbget('fels', None), ('getitem', 'Ked'): lambda ip, o, k: U(z3.Function('ked', US, US, US)(o.t, ip.ctx.toU(k)), 'str'),
         ('meth', 'Verfer', 'verify'): lambda ip, args, kw, f: B(OK(args[0].t, ip.ctx.toU(args[1] if len(args) > 1 else kw['sig']), ip.ctx.toU(args[2] if len(args) > 2 else kw['ser']))),
         ('attr', 'Prefixer', 'qb64b'): encoded('qb64'), ('attr', 'Diger', 'qb64b'): encoded('qb64'), ('in', 'Kevers'): lambda ip, c, k: z3.Function('known', US, BOOL)(ip.ctx.toU(k)),
         ('in', 'Own'): lambda ip, c, k: z3.Function('own', US, BOOL)(ip.ctx.toU(k))}
    for x in ('escrowUReceipt', 'escrowUWReceipt', 'escrowTRGroups', 'escrowTReceipts', 'escrowTransReceiptGroup'):
        m[E0 + 'Kevery.' + x] = (lambda x: lambda ip, args, kw, f: st.setdefault('held', []).append(x))(x)
    return m


def kevery(ip, st):
    from keri.core import eventing
    ctx = ip.ctx
    # content addressing: an event in the store under a digest is the one message with that digest
    st['h'] = HObj(eventing.Kevery, 'kevery', dict(db='obj:Baser', lax='bool', local='bool', prefixes='obj:Own', kevers='obj:Kevers'))
    return st['h']


SA = z3.Const('a?', US)


def unit_receipt(which):
    """whatever a receipt message carries, only what verifies over the accepted event is stored with it"""
    from keri.core import eventing
    st = {}
    sig = z3.Function('sigs_n', US, INT), z3.Function('sigs_a', US, z3.ArraySort(INT, US))

    def setup(ip):
        ctx = ip.ctx
        st.clear()
        h = kevery(ip, st)
        s = st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
        g = lambda x: ops.getattr_(ip, s, x)
        ctx.assume(forall(SA, IDX(SA) >= 0, pats=[IDX(SA)]))
        st['pre'] = lambda ip: g('pre').t
        st['groups'] = lambda ip: [(st[x], 0, lambda t: t) for x in ('tsgs', 'rsgs') if x in st]
        local = ctx.mk('bool', 'local') if ctx.choose(2, 'local given') == 0 else None
        args = dict(serder=s, local=local)
        if which == 'receipt':
            st['cigars'], st['wigers'] = ops.mk_kind(ip, 'list:obj=Cigar', 'cigars'), ops.mk_kind(ip, 'list:obj=Siger', 'wigers')
            st['tsgs'], st['rsgs'] = ops.mk_kind(ip, 'list:obj=Tsg', 'tsgs'), ops.mk_kind(ip, 'list:obj=Tsg', 'rsgs')
            args.update(cigars=st['cigars'], wigers=st['wigers'], tsgs=st['tsgs'], rsgs=st['rsgs'])
            st['dig'] = lambda ip: [LAST(g('pre').t, g('sn').t)]
            return eventing.Kevery.processReceipt, [h], args
        args['firner'] = st['firner'] = ctx.mk('obj:Number', 'firner') if ctx.choose(2, 'first seen ordinal given') == 0 else None
        d = FEL(g('pre').t, SNF(st['firner'].t)) if st['firner'] is not None else LAST(g('pre').t, g('sn').t)
        # content addressing: a message with the digest of a stored event is that event
        ctx.assume(forall(SA, z3.Implies(CMP(s.t, SA), RAWF(EVT(g('pre').t, SA)) == RAWF(s.t)), pats=[CMP(s.t, SA)]))
        ctx.assume(CMP(s.t, g('said').t))
        if which == 'couples':
            st['cigars'] = args['cigars'] = ops.mk_kind(ip, 'list:obj=Cigar', 'cigars')
            st['dig'] = lambda ip: [d]
            return eventing.Kevery.processAttachedReceiptCouples, [h], args
        st['rsgs'] = args['rsgs'] = ops.mk_kind(ip, 'list:obj=Tsg', 'rsgs')
        st['dig'] = lambda ip: [d, g('said').t]
        return eventing.Kevery.processAttachedReceiptSigGroups, [h], args

    def inv(lv):
        return []

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('no_index_error', z3.BoolVal(out[0] != 'raise' or not (isinstance(out[1], type) and issubclass(out[1], IndexError))))
    m = base(st)
    return Unit({'receipt': 'processReceipt', 'couples': 'processAttachedReceiptCouples', 'groups': 'processAttachedReceiptSigGroups'}[which],
                [E + 'Kevery.' + {'receipt': 'processReceipt', 'couples': 'processAttachedReceiptCouples', 'groups': 'processAttachedReceiptSigGroups'}[which]], setup, post, models=m, attrs=ATTRS,
                heap_attrs={'verfer': 'obj:Verfer'}, invariants={'*': inv}, item_types={('Tsg', 0): 'Prefixer', ('Tsg', 1): 'Number', ('Tsg', 2): 'Diger', ('Tsg', 3): 'Sigs'},
                cover=['return'], groups=['receipts'])


def unit_witness_state():
    """the witness list of the last establishment event at or before the event named"""
    from keri.core import eventing
    st = {}
    GOV = z3.Function('governing', US, US, US)

    def setup(ip):
        ctx = ip.ctx
        st.clear()
        st['asked'] = []
        h = HObj(eventing.Kevery, 'kevery', dict(db='obj:Baser'))
        st['p'], st['sn'] = ctx.mk('str', 'pre'), ctx.mk('int', 'sn')
        st['said'] = ctx.mk('str', 'said') if ctx.choose(2, 'digest given') == 0 else None
        st['back'] = ctx.mk('list:str', 'back')
        ctx.assume(forall(J, z3.Implies(rng(J, st['back'].n), truthyF(sel(st['back'], J)))))
        return eventing.Kevery.fetchWitnessState, [h], dict(pre=st['p'], sn=st['sn'], said=st['said'])

    def evts(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys',), args, kw)
        p, d = keyterms(ip, a['keys'])
        e = EVT(p, d)
        none = ctx.injt(None)
        ctx.assume(truthyF(e) == (e != none))
        prior = z3.Function('ked', US, US, US)(AT('ked')(e), ctx.injt('p'))
        ctx.assume(GOV(p, d) == z3.If(e == none, none, z3.If(AT('estive', BOOL)(e), d, GOV(p, prior))))
        ctx.assume(z3.Implies(z3.Not(truthyF(prior)), GOV(p, prior) == none))
        return U(e, 'SerderKERI')

    def back(ip, args, kw, f):
        a = bound(('keys', 'on'), args, kw)
        ip.ctx.prove('walks_back_from_the_event', z3.And(kn(ip.ctx.toU(a['keys'])) == st['p'].t, ip.ctx.int_t(a['on']) == st['sn'].t))
        return st['back']

    def wits(ip, args, kw, f):
        ctx = ip.ctx
        p, d = keyterms(ip, bound(('keys',), args, kw)['keys'])
        st['asked'].append((p, d))
        l = _lo(ctx, 'Prefixer', 'wits')
        ctx.assume(z3.And(l.n == WITS[0](p, d), l.a == WITS[1](p, d)))
        return l

    def start(ip):
        if st['said'] is not None:
            return st['said'].t
        return z3.If(st['back'].n > 0, sel(st['back'], 0), ip.ctx.injt(None))

    def inv(lv):
        if lv.seq is not None:
            return []
        o = []
        p = st['p'].t
        for x in sorted(lv.names):
            v = lv.var(x)
            if isinstance(v, U):
                lv.ctx.assume(z3.Implies(z3.Not(truthyF(v.t)), GOV(p, kn(v.t)) == lv.ctx.injt(None)))       # by definition: no digest, no establishment
                o.append((f'?same_{x}', GOV(p, kn(v.t)) == GOV(p, start(lv.ip))))
        return o

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        d = GOV(st['p'].t, start(ip))
        none = ctx.injt(None)
        ctx.assume(z3.Implies(z3.Not(truthyF(start(ip))), d == none))
        l = ops.to_L(ip, out[1], 'U')
        ctx.prove('witnesses_of_the_governing_establishment', z3.Or(z3.And(d == none, ops.zi(l.n) == 0), z3.And(d != none, ops.zi(l.n) == WITS[0](st['p'].t, d), l.a == WITS[1](st['p'].t, d))))
    m = {**DBMODELS, ('meth', 'Evts', 'get'): evts, ('meth', 'Wits', 'get'): wits, ('meth', 'Kels', 'getBackIter'): back, ('getitem', 'Ked'): lambda ip, o, k: U(z3.Function('ked', US, US, US)(o.t, ip.ctx.toU(k)), 'str')}
    return Unit('fetchWitnessState', [E + 'Kevery.fetchWitnessState'], setup, post, models=m, attrs=ATTRS, invariants={'*': inv}, whiles={'*': 'inv'}, cover=['return'], groups=['receipts'])


def unit_hold(fn):
    """a receipt is held under the identifier and number it is for, with the digest it receipts and its signer, and unaltered"""
    from keri.core import eventing
    st = {}
    names = {'escrowUReceipt': ('cigars', 'said'), 'escrowUWReceipt': ('wigers', 'said'), 'escrowTRGroups': ('tsgs',), 'escrowTReceipts': ('prefixer', 'number', 'saider', 'sigers'),
             'escrowTransReceiptGroup': ('sprefixer', 'snumber', 'diger', 'sigers')}[fn]

    def setup(ip):
        ctx = ip.ctx
        st.clear()
        st['adds'] = []
        h = HObj(eventing.Kevery, 'kevery', dict(db='obj:Baser'))
        s = st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
        kinds = dict(cigars='list:obj=Cigar', wigers='list:obj=Siger', tsgs='list:obj=Tsg', sigers='list:obj=Siger', said='str', prefixer='obj:Prefixer', sprefixer='obj:Prefixer', number='obj:Number', snumber='obj:Number',
                     saider='obj:Diger', diger='obj:Diger')
        a = {x: ops.mk_kind(ip, kinds[x], x) for x in names}
        st['a'] = a
        ctx.assume(z3.Function('ked', US, US, US)(AT('ked')(s.t), ctx.injt('d')) == SAIDF(s.t))
        return getattr(eventing.Kevery, fn), [h, s] + [a[x] for x in names], {}

    g = lambda ip, x: ops.getattr_(ip, st['serder'], x)

    def given(ip, P):
        """some group and signature given"""
        a = st['a']
        if fn == 'escrowTRGroups':
            n, arr = z3.Function('seq_n', US, INT), z3.Function('seq_a', US, z3.ArraySort(INT, US))
            l = a['tsgs']
            t = lambda k: sel(l, k)
            return z3.Exists([K, J], z3.And(rng(K, l.n), rng(J, n(IT[3](t(K)))), P(QB64(IT[0](t(K))), SNF(IT[1](t(K))), QB64(IT[2](t(K))), z3.Select(arr(IT[3](t(K))), J))))
        p, nm, d = (a[x].t for x in names[:3])
        return z3.Exists([J], z3.And(rng(J, a['sigers'].n), P(QB64(p), SNF(nm), QB64(d), sel(a['sigers'], J))))

    def vres(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        k = a['keys']
        ctx.prove('held_for_the_event_named', z3.And(kn(ctx.toU(k[0])) == g(ip, 'pre').t, ctx.int_t(k[1]) == g(ip, 'sn').t))
        e, p, n, d, s = [ctx.toU(x) for x in a['val']]
        ctx.prove('digest_of_the_event_receipted', QB64(e) == g(ip, 'said').t)
        ctx.prove('signer_and_signature_unaltered', given(ip, lambda p_, n_, d_, s_: z3.And(QB64(p) == p_, SNF(n) == n_, QB64(d) == d_, s == s_)))
        st['adds'].append(1)
        return B(ctx.fresh('answer', BOOL))

    def ures(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        k = keyterms(ip, a['keys'])
        ctx.prove('held_for_the_event_named', z3.And(k[0] == g(ip, 'pre').t, k[1] == QB64(z3.Function('number_named', INT, US)(g(ip, 'sn').t))))
        e, p, c = [ctx.toU(x) for x in a['val']]
        ctx.prove('digest_of_the_event_receipted', QB64(e) == st['a']['said'].t)
        ctx.prove('signer_and_signature_unaltered', z3.And(QB64(p) == QB64(AT('verfer')(c)), isin(st['a']['cigars'], c), z3.Not(TRANS(AT('verfer')(c)))))
        return B(ctx.fresh('answer', BOOL))

    def uwes(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'on', 'val'), args, kw)
        ctx.prove('held_for_the_event_named', z3.And(kn(ctx.toU(a['keys'])) == g(ip, 'pre').t, ctx.int_t(a['on']) == g(ip, 'sn').t))
        d, w = [ctx.toU(x) for x in a['val']]
        l = st['a']['wigers']
        ctx.prove('digest_of_the_event_receipted', d == st['a']['said'].t)
        ctx.prove('signature_unaltered', z3.Exists([K], z3.And(rng(K, l.n), QB64(sel(l, K)) == w)))
        return B(ctx.fresh('answer', BOOL))

    def dtss(ip, args, kw, f):
        return B(ip.ctx.fresh('answer', BOOL))

    def post(ip, out):
        ip.ctx.prove('no_exception', z3.BoolVal(out[0] == 'return'))
    m = base(st_credit())
    m.update({('meth', 'Vres', 'add'): vres, ('meth', 'Ures', 'add'): ures, ('meth', 'Uwes', 'add'): uwes, ('meth', 'Dtss', 'put'): dtss, 'new:Dater': lambda ip, args, kw, c: U(ip.ctx.fresh('dater', US), 'Dater'),
              'new:Diger': named('Diger'), 'new:Prefixer': named('Prefixer'), 'new:Number': number_new})
    for x in list(m):
        if isinstance(x, str) and '.escrow' in x:
            del m[x]
    return Unit(fn, [E + 'Kevery.' + fn], setup, post, models=m, attrs=ATTRS, invariants={'*': lambda lv: []}, item_types={('Tsg', 0): 'Prefixer', ('Tsg', 1): 'Number', ('Tsg', 2): 'Diger', ('Tsg', 3): 'Sigs'},
                cover=['return'], groups=['receipts'])


def unit_release(fn):
    """what was held is stored only with the accepted event it names, and only if it verifies over it with the key it claims; an entry that will never be is dropped, nothing else is"""
    from keri.core import eventing
    from keri.kering import UnverifiedReceiptError, UnverifiedTransferableReceiptError, UnverifiedWitnessReceiptError
    st = {}
    tab = {'processEscrowUnverNonTrans': 'ures', 'processEscrowUnverTrans': 'vres', 'processEscrowUnverWitness': 'uwes'}[fn]
    HEX, ISHEX = z3.Function('intval16', US, INT), z3.Function('isint16', US, BOOL)

    def setup(ip):
        ctx = ip.ctx
        st.clear()
        h = kevery(ip, st)
        st['es'] = ops.mk_kind(ip, 'list:obj=Entry', 'entries')
        # content addressing: an event in the store under a digest is the message with that digest
        ctx.assume(forall([SA, X], z3.Implies(z3.And(EVT(SA, X) != ctx.injt(None)), SAIDF(EVT(SA, X)) == X), pats=[EVT(SA, X)]))
        ctx.assume(forall([SA, X], z3.And(truthyF(EVT(SA, X)) == (EVT(SA, X) != ctx.injt(None)), z3.Implies(EVT(SA, X) != ctx.injt(None), AT('pre')(EVT(SA, X)) == SA)), pats=[EVT(SA, X)]))
        ctx.assume(forall(SA, IDX(SA) >= 0, pats=[IDX(SA)]))
        # what the table holds (units escrowUReceipt, escrowTRGroups, ...): receipts of non-transferable signers; numbers in hexadecimal
        TR = z3.Function('transferable_prefix', US, BOOL)
        ctx.assume(forall(SA, TRANS(SA) == TR(QB64(SA)), pats=[TRANS(SA)]))
        if tab == 'ures':
            ctx.assume(forall(J, z3.Implies(rng(J, st['es'].n), z3.Not(TR(QB64(v(sel(st['es'], J), 1)))))))
        if tab == 'vres':
            ctx.assume(forall(J, z3.Implies(rng(J, st['es'].n), ISHEX(IT[1](IT[0](sel(st['es'], J)))))))
        return getattr(eventing.Kevery, fn), [h], {}

    pre_of = lambda t: IT[0](IT[0](t))
    sn_of = lambda t: SNF(z3.Function('number_at', US, US)(IT[1](IT[0](t)))) if fn == 'processEscrowUnverNonTrans' else HEX(IT[1](IT[0](t)))
    v = lambda t, i: IT[i](IT[1](t))

    def entry(P):
        l = st['es']
        return z3.Exists([K], z3.And(rng(K, l.n), P(sel(l, K))))

    def accepted(ip, pre, d):
        return entry(lambda t: z3.And(pre_of(t) == pre, LAST(pre, sn_of(t)) == d, d != ip.ctx.injt(None), QB64(v(t, 0)) == d))
    def entries(ip, args, kw, f):
        if kw.get('keys') is not None or len(args) > 1:
            l = ops.mk_kind(ip, 'list:obj=Entry', 'more')
            m = st['es']
            ip.ctx.assume(forall(J, z3.Implies(rng(J, l.n), z3.Exists([K], z3.And(rng(K, m.n), sel(m, K) == sel(l, J))))))
            return l
        return st['es']

    def unver(ip, args, kw, f):
        ctx = ip.ctx
        if ctx.choose(2, 'search raises') == 1:
            raise PyRaise(ValueError)
        return B(ctx.fresh('found', BOOL))

    def seqner(ip, args, kw, cls):
        t = z3.Function('number_at', US, US)(kn(ip.ctx.toU(kw.get('qb64', args[0] if args else None))))
        ip.ctx.assume(truthyF(t))
        return U(t, 'Number')

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('ends_normally', z3.BoolVal(out[0] == 'return'))
    m = base(st)
    del m[E0 + 'Kevery.fetchWitnessState']
    m.update({E0 + 'Kevery.fetchWitnessState': wstate(st), E0 + 'Kevery._processEscrowFindUnver': unver, ('meth', tab.capitalize(), 'getTopItemIter'): entries, 'new:Seqner': seqner,
              ('meth', 'Dtss', 'get'): dbget('dtss', 'Dater'), 'keri.help.helping:nowUTC': lambda ip, args, kw, f: U(ip.ctx.fresh('now', US), 'Time'), 'new:Number': number_new, 'new:Diger': named('Diger')})

    def rem(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        k, val = a['keys'], a['val']
        if tab == 'vres':
            p, n = kn(ctx.toU(k[0])), ctx.int_t(k[1])
            ctx.prove('only_the_entry_itself_is_dropped', entry(lambda t: z3.And(pre_of(t) == p, sn_of(t) == n, IT[1](t) == ctx.toU(val))))
        else:
            p, n = kn(ctx.toU(k[0])), ctx.toU(k[1])
            ctx.prove('only_the_entry_itself_is_dropped', entry(lambda t: z3.And(pre_of(t) == p, QB64(z3.Function('number_named', INT, US)(sn_of(t))) == n,
                      *[v(t, i) == ctx.toU(x) for i, x in enumerate(val)])))
        return B(ip.ctx.fresh('answer', BOOL))
    m[('meth', tab.capitalize(), 'rem')] = rem

    def setup2(ip):
        r = setup(ip)
        st['accepted'] = accepted
        st['groups'] = lambda ip: [(st['es'], 1, lambda t: IT[1](t))]
        return r
    items = {('Entry', 0): 'Key', ('Entry', 1): 'Val', ('Key', 0): 'str', ('Key', 1): 'str', ('Val', 0): 'Diger', ('Val', 1): 'Prefixer', ('Val', 2): 'Cigar' if tab == 'ures' else 'Number', ('Val', 3): 'Diger', ('Val', 4): 'Siger'}
    return Unit(fn, [E + 'Kevery.' + fn], setup2, post, models=m, attrs=ATTRS, heap_attrs={'verfer': 'obj:Verfer'}, invariants={'*': lambda lv: []}, whiles={'*': 'inv'}, item_types=items, cover=['return'], groups=['receipts'])


def unit_findunver():
    """a witness receipt of an event that is waiting for receipts is added to it only if it verifies over it with the key of the witness at its index, the witnesses being those the event itself establishes"""
    from keri.core import eventing
    st = {}
    KE = z3.Function('ked', US, US, US)
    LN, LA = z3.Function('ked_list_n', US, US, INT), z3.Function('ked_list', US, US, z3.ArraySort(INT, US))

    def setup(ip):
        ctx = ip.ctx
        st.clear()
        h = kevery(ip, st)
        st['p'], st['sn'] = ctx.mk('str', 'pre'), ctx.mk('int', 'sn')
        st['waiting'] = ctx.mk('list:str', 'waiting')
        st['rsaider'] = ctx.mk('obj:Diger', 'rsaider')
        ctx.assume(forall([SA, X], z3.Implies(z3.And(EVT(SA, X) != ctx.injt(None)), z3.And(SAIDF(EVT(SA, X)) == X, AT('pre')(EVT(SA, X)) == SA)), pats=[EVT(SA, X)]))
        ctx.assume(forall(J, z3.Implies(rng(J, st['waiting'].n), EVT(st['p'].t, sel(st['waiting'], J)) != ctx.injt(None))))
        ctx.assume(forall(SA, IDX(SA) >= 0, pats=[IDX(SA)]))
        a = {}
        if ctx.choose(2, 'kind of receipt') == 0:
            a['wiger'] = ctx.mk('obj:Siger', 'wiger')
            st['given'] = a['wiger'].t
        else:
            a['cigar'] = ctx.mk('obj:Cigar', 'cigar')
            st['given'] = a['cigar'].t
        st['is_cigar'] = 'cigar' in a
        return eventing.Kevery._processEscrowFindUnver, [h], dict(pre=st['p'], sn=st['sn'], rsaider=st['rsaider'], **a)

    def item(ip, o, k):
        ctx = ip.ctx
        if k in ('b', 'br', 'ba'):
            n, a = LN(o.t, ctx.injt(k)), LA(o.t, ctx.injt(k))
            ctx.assume(n >= 0)
            return L(n, a, 'str')
        return U(KE(o.t, ctx.toU(k)), 'str')

    def wigs(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('keys', 'val'), args, kw)
        p, d = keyterms(ip, a['keys'])
        w = ctx.toU(a['val'])
        ver = ctx.toU(ops.getattr_(ip, a['val'], 'verfer'))
        e = EVT(p, d)
        k = AT('ked')(e)
        i = ctx.injt
        ctx.prove('of_the_waiting_event_receipted', z3.And(p == st['p'].t, d == QB64(st['rsaider'].t), z3.Exists([J], z3.And(rng(J, st['waiting'].n), sel(st['waiting'], J) == d))))
        ctx.prove('the_receipt_given', RAWF(w) == RAWF(st['given']))
        ctx.prove('verifies_over_that_event', OK(ver, RAWF(w), RAWF(e)))
        t = KE(k, i('t'))
        icp, rot = z3.Or(t == i('icp'), t == i('dip')), z3.Or(t == i('rot'), t == i('drt'))
        prior = KE(k, i('p'))
        wn, wa = WITS[0](p, prior), WITS[1](p, prior)
        q = QB64(ver)
        lst = lambda x: L(LN(k, i(x)), LA(k, i(x)), 'str')
        inb = lambda l: z3.Exists([M], z3.And(rng(M, ops.zi(l.n)), z3.Select(l.a, M) == q))
        inw = z3.Exists([M], z3.And(rng(M, wn), QB64(z3.Select(wa, M)) == q))
        ctx.prove('witness_of_an_inception_is_in_its_list', z3.Implies(icp, z3.And(IDX(w) < LN(k, i('b')), z3.Select(LA(k, i('b')), IDX(w)) == q)))
        ctx.prove('witness_of_an_interaction_is_in_the_list_in_force', z3.Implies(z3.And(z3.Not(icp), z3.Not(rot)), z3.And(IDX(w) < wn, QB64(z3.Select(wa, IDX(w))) == q)))
        ctx.prove('witness_of_a_rotation_is_kept_or_added_by_it', z3.Implies(rot, z3.Or(inb(lst('ba')), z3.And(inw, z3.Not(inb(lst('br')))))))
        return B(ctx.fresh('answer', BOOL))

    def post(ip, out):
        pass

    def inv(lv):
        o = []
        for x, v in lv.bools():
            o.append((f'?not_found_{x}', z3.Not(bt(lv.ip, v))))
        # the receipt does not change while it looks for its event
        for x in sorted(lv.names):
            v = lv.var(x)
            if not st['is_cigar'] and isinstance(v, U) and v.ty == 'Siger':
                o.append((f'?the_receipt_{x}', v.t == st['given']))
        return o
    m = base(st)
    m.update({('getitem', 'Ked'): item, ('meth', 'Wigs', 'add'): wigs, ('meth', 'Pwes', 'getIter'): lambda ip, args, kw, f: pw(ip, args, kw)})

    def pw(ip, args, kw):
        a = bound(('keys', 'on'), args, kw)
        ip.ctx.prove('looks_where_they_wait', z3.And(kn(ip.ctx.toU(a['keys'])) == st['p'].t, ip.ctx.int_t(a['on']) == st['sn'].t))
        return st['waiting']
    return Unit('_processEscrowFindUnver', [E + 'Kevery._processEscrowFindUnver'], setup, post, models=m, attrs={**ATTRS, ('Baser', 'pwes'): 'obj:Pwes'}, heap_attrs={'verfer': 'obj:Verfer'}, invariants={'*': inv}, cover=['return'], groups=['receipts'])


def st_credit():
    return dict(pre=None, dig=None, groups=None)


def units_c24():
    return [unit_receipt('receipt'), unit_receipt('couples'), unit_receipt('groups'), unit_witness_state()] + [unit_hold(x) for x in ('escrowUReceipt', 'escrowUWReceipt', 'escrowTRGroups', 'escrowTReceipts', 'escrowTransReceiptGroup')] + [unit_release(x) for x in ('processEscrowUnverNonTrans', 'processEscrowUnverTrans')] + [unit_findunver()]
