"""Proof units on credential registries (C20)."""
from .p_receipts import *
from .p_kel import _lo

V = 'src/keri/vdr/eventing.py:'
V0 = 'keri.vdr.eventing:'
KED = z3.Function('ked', US, US, US)
LN, LA = z3.Function('ked_list_n', US, US, INT), z3.Function('ked_list', US, US, z3.ArraySort(INT, US))
HEX, ISHEX = z3.Function('intval16', US, INT), z3.Function('isint16', US, BOOL)
NUMH = z3.Function('number_of_hex', US, INT)


def kitem(ip, o, k):
    ctx = ip.ctx
    if k in ('b', 'br', 'ba', 'c'):
        n, a = LN(o.t, ctx.injt(k)), LA(o.t, ctx.injt(k))
        ctx.assume(n >= 0)
        return L(n, a, 'str')
    if k == 'ra':
        return U(KED(o.t, ctx.injt(k)), 'Ked')
    return U(KED(o.t, ctx.toU(k)), 'str')


def ked(s):
    return AT('ked')(s)


def fld(ip, s, *path):
    t = ked(s)
    for x in path:
        t = KED(t, ip.ctx.injt(x))
    return t


def lst(ip, s, k):
    return L(LN(ked(s), ip.ctx.injt(k)), LA(ked(s), ip.ctx.injt(k)), 'str')


def tever(ip, **over):
    from keri.vdr import eventing
    d = dict(regk='str', prefixer='obj:Prefixer', sn='int', serder='obj:SerderKERI', baks='list:str', toad='int', cuts='list:str', adds='list:str', noBackers='bool', estOnly='bool', local='bool', ilk='str', pre='str',
             reger='obj:Reger', db='obj:Baser', cues='U', NoRegistrarBackers=True)
    d.update(over)
    h = HObj(eventing.Tever, 'tever', d)
    for x in list(d):
        ops.getattr_(ip, h, x)
    return h


def snap(h):
    return dict(h.fields)


def samestate(ip, h, old, but=()):
    """the registry's state is untouched"""
    c = []
    for x in ('prefixer', 'sn', 'serder', 'baks', 'toad', 'cuts', 'adds', 'noBackers', 'estOnly', 'ilk', 'pre', 'regk'):
        if x in but:
            continue
        a, b = h.fields[x], old[x]
        c.append(z3.BoolVal(True) if a is b else (same_list(ip, a, b) if isinstance(b, L) else bt(ip, wrap(ops.eq(ip, a, b)))))
    return z3.And(*c)


def vbase(st):
    m = {('meth', 'Text', 'encode'): lambda ip, args, kw, f: ops._encode(ip, U(args[0].t, 'str'), [], {}), ('getitem', 'Ked'): kitem, ('meth', 'SerderKERI', 'compare'): compares, 'keri.db.dbing:dgKey': dgkey, 'keri.db.dbing:snKey': sgkey, 'new:Number': number_new, 'new:Diger': named('Diger'), 'new:Verfer': verfer_new, 'new:Prefixer': named('Prefixer'),
         ('meth', 'Kels', 'getLast'): dbget('kels_last', 'Text'), ('meth', 'Evts', 'get'): dbget('evts', 'SerderKERI'), ('attr', 'SerderKERI', 'preb'): encoded('pre'), ('attr', 'SerderKERI', 'saidb'): encoded('said'),
         ('attr', 'Prefixer', 'qb64b'): encoded('qb64'), 'print': lambda ip, args, kw, f: None}
    return m


VATTRS = {('Baser', 'kels'): 'obj:Kels', ('Baser', 'evts'): 'obj:Evts', ('SerderKERI', 'ked'): 'obj:Ked', ('Number', 'sn'): 'int', ('Number', 'num'): 'int', ('SerderKERI', 'sn'): 'int'}
VATTRS.update({('Reger', x): 'obj:' + x.capitalize() for x in ('tels', 'tvts', 'ancs', 'tibs', 'baks', 'tets', 'taes')})


def anchored(ip, pre, serder, seqner, saider):
    """the event at that place in the issuer's accepted log has that digest and holds exactly one seal, which names this event"""
    ctx = ip.ctx
    if seqner is None or saider is None:
        return z3.BoolVal(False)
    none = ctx.injt(None)
    d = LAST(pre, SNF(seqner.t))
    e = EVT(pre, kn(d))
    a = fld(ip, e, 'a')
    n, s = z3.Function('seq_n', US, INT)(a), z3.Select(z3.Function('seq_a', US, z3.ArraySort(INT, US))(a), 0)
    i = lambda x: KED(s, ctx.injt(x))
    return z3.And(d != none, truthyF(d), e != none, SAIDF(e) == QB64(saider.t), a != none, n == 1, i('i') == fld(ip, serder.t, 'i'), i('s') == fld(ip, serder.t, 's'), i('d') == SAIDF(serder.t))


def unit_anchor():
    """anchored exactly if the issuer's accepted event named holds one seal and that names this event"""
    from keri.vdr import eventing
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['h'] = tever(ip)
        st['old'] = snap(st['h'])
        st['s'] = ctx.mk('obj:SerderKERI', 'serder')
        st['q'] = ctx.mk('obj:Number', 'seqner') if ctx.choose(2, 'seqner') == 0 else None
        st['d'] = ctx.mk('obj:Diger', 'saider') if ctx.choose(2, 'saider') == 0 else None
        return eventing.Tever.verifyAnchor, [st['h'], st['s']], dict(seqner=st['q'], saider=st['d'])

    def seals(ip, o, k):
        if k == 'a':
            return U(KED(o.t, ip.ctx.injt('a')), None)
        return kitem(ip, o, k)

    def post(ip, out):
        if out[0] != 'return':
            return
        ctx = ip.ctx
        ctx.prove('true_exactly_if_anchored', bt(ip, out[1]) == anchored(ip, st['old']['pre'].t, st['s'], st['q'], st['d']))
        ctx.prove('state_unchanged', samestate(ip, st['h'], st['old']))
    m = vbase(st)
    m.update({('getitem', 'Ked'): seals, ('getitem', None): lambda ip, o, k: U(KED(o.t, ip.ctx.toU(k)), 'str') if isinstance(k, str) else U(z3.Select(z3.Function('seq_a', US, z3.ArraySort(INT, US))(o.t), ip.ctx.int_t(k)), 'Ked'),
              ('len', None): lambda ip, o: I(z3.Function('seq_n', US, INT)(o.t))})
    return Unit('verifyAnchor', [V + 'Tever.verifyAnchor'], setup, post, models=m, attrs=VATTRS, cover=['return'], groups=['registries'])


def vgates(st):
    ANCH = z3.Function('anchored', US, US, US, BOOL)

    def anchor(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('serder', 'seqner', 'saider'), args, kw)
        r = B(ANCH(*[ctx.toU(a.get(x)) for x in ('serder', 'seqner', 'saider')]))
        return r

    def esc(x):
        def h(ip, args, kw, f):
            st['escrowed'].append(x)
            return B(ip.ctx.fresh('held', BOOL))
        return h
    gm = gate_models(st)
    return {V0 + 'Tever.verifyAnchor': anchor, **{V0 + 'Tever.' + x: esc(x) for x in ('escrowALEvent', 'escrowPWEvent')}, E0 + 'verifySigs': gm[E0 + 'verifySigs']}, ANCH


def unit_valanchor():
    """returns only for an anchored event with enough distinct verified backers, and returns the verified signatures"""
    from keri.vdr import eventing
    from keri.kering import ValidationError, MissingAnchorError, MissingWitnessSignatureError
    st = {}
    g, ANCH = vgates(st)

    def setup(ip):
        ctx = ip.ctx
        st.update(verified=[], escrowed=[])
        st['h'] = tever(ip)
        if ctx.choose(2, 'registry key known') == 1:
            st['h'].fields['regk'] = None
        st['old'] = snap(st['h'])
        st['s'], st['q'], st['d'] = ctx.mk('obj:SerderKERI', 'serder'), ctx.mk('U', 'seqner'), ctx.mk('U', 'saider')
        st['bigers'] = _lo(ctx, 'Siger', 'bigers')
        st['baks'] = ctx.mk('list:str', 'baks')
        st['toad'] = ctx.mk('int', 'toad') if ctx.choose(2, 'toad a number') == 0 else ctx.mk('str', 'toad')
        ctx.assume(forall([J, K], z3.Implies(z3.And(rng(J, st['baks'].n), rng(K, st['baks'].n), sel(st['baks'], J) == sel(st['baks'], K)), J == K)))
        return eventing.Tever.valAnchorBigs, [st['h']], dict(serder=st['s'], seqner=st['q'], saider=st['d'], bigers=st['bigers'], toad=st['toad'], baks=st['baks'])

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('state_unchanged', samestate(ip, st['h'], st['old']))
        if out[0] == 'raise':
            if out[1] is MissingAnchorError:
                ctx.prove('held_for_its_anchor', z3.BoolVal(st['escrowed'] == ['escrowALEvent']))
            if out[1] is MissingWitnessSignatureError:
                ctx.prove('held_for_backers', z3.BoolVal(st['escrowed'] == ['escrowPWEvent']))
            return
        b = st['baks']
        ctx.prove('anchored', ANCH(st['s'].t, st['q'].t, st['d'].t))
        ctx.prove('nothing_held', z3.BoolVal(not st['escrowed']))
        rk = st['old']['regk']
        toad = st['toad'].t if isinstance(st['toad'], I) else HEX(st['toad'].t)
        isb = z3.Exists([K], z3.And(rng(K, b.n), sel(b, K) == rk.t)) if rk is not None else z3.BoolVal(False)
        known = truthyF(rk.t) if rk is not None else z3.BoolVal(False)
        exempt = z3.Or(b.n == 0, z3.And(known, z3.Or(st['old']['local'].t, isb)))
        r = ops.to_L(ip, out[1], 'U')
        raw = ops.getattr_(ip, st['s'], 'raw').t
        cs = [z3.And(c[0] == raw, c[1].a == st['bigers'].a, ops.zi(c[1].n) == st['bigers'].n, ops.zi(c[2].n) == b.n, forall(J, z3.Implies(rng(J, b.n), QB64(sel(c[2], J)) == sel(b, J))), c[3].a == r.a, ops.zi(c[3].n) == ops.zi(r.n),
                     z3.Or(exempt, z3.And(toad <= ops.zi(c[4].n), toad >= 0, toad <= b.n))) for c in st['verified']]
        ctx.prove('returns_verified_of_enough_backers', z3.Or(*cs) if cs else z3.BoolVal(False))
    m = vbase(st)
    m.update(g)
    return Unit('valAnchorBigs', [V + 'Tever.valAnchorBigs'], setup, post, models=m, attrs=VATTRS, invariants={'*': lambda lv: []}, cover=['return', 'raise:MissingAnchorError', 'raise:MissingWitnessSignatureError'], groups=['registries'])


def unit_trotate():
    """backers change only as a rotation in sequence, of this registry, chained to its latest event says"""
    from keri.vdr import eventing
    from keri.kering import ValidationError
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['h'] = tever(ip)
        st['old'] = {k: (v.copy() if isinstance(v, L) else v) for k, v in snap(st['h']).items()}
        ctx.assume(dist(ip, st['h'].fields['baks']))
        st['s'], st['sn'] = ctx.mk('obj:SerderKERI', 'serder'), ctx.mk('int', 'sn')
        return eventing.Tever.rotate, [st['h'], st['s']], dict(sn=st['sn'])

    def post(ip, out):
        ctx = ip.ctx
        o, s = st['old'], st['s']
        ctx.prove('state_unchanged', samestate(ip, st['h'], o))
        cuts, adds, w = lst(ip, s.t, 'br'), lst(ip, s.t, 'ba'), o['baks']
        C, A, W = mset(ip, cuts), mset(ip, adds), mset(ip, w)
        none = z3.EmptySet(US)
        lists = z3.And(dist(ip, cuts), dist(ip, adds), z3.IsSubset(C, W), z3.SetIntersect(C, A) == none, z3.SetIntersect(W, A) == none)
        chain = z3.And(ops.getattr_(ip, s, 'pre').t == QB64(o['prefixer'].t), st['sn'].t == o['sn'].t + 1, CMP(o['serder'].t, fld(ip, s.t, 'p')))
        if out[0] == 'raise':
            return
        ctx.prove('in_sequence_and_chained', chain)
        ctx.prove('lists_consistent', lists)
        ctx.assume(lists)
        toad, r, rc, ra = out[1]
        r, rc, ra = [ops.to_L(ip, x) for x in (r, rc, ra)]
        n = w.n - cuts.n + adds.n
        ctx.prove('size', ops.zi(r.n) == n)
        ctx.prove('members', mset(ip, r) == z3.SetUnion(z3.SetDifference(W, C), A))
        ctx.prove('no_repetitions', dist(ip, r))
        ctx.prove('cuts_and_adds', z3.And(same_list(ip, rc, cuts), same_list(ip, ra, adds)))
        t = ctx.int_t(toad)
        ctx.prove('threshold_of_the_event', t == HEX(fld(ip, s.t, 'bt')))
        ctx.prove('threshold_in_range', z3.If(n == 0, t == 0, z3.And(t >= 1, t <= n)))
    return Unit('Tever.rotate', [V + 'Tever.rotate'], setup, post, models=vbase(st), attrs=VATTRS, cover=['return', 'raise:ValidationError'], groups=['registries'])


def number_v(ip, args, kw, cls):
    ctx = ip.ctx
    if 'numh' in kw:
        if ctx.choose(2, 'malformed number') == 1:
            from keri.kering import ValidationError
            raise PyRaise(ValidationError)
        n = NUMH(ctx.toU(kw['numh']))
        ctx.assume(n >= 0)
        t = z3.Function('number_named', INT, US)(n)
        ctx.assume(z3.And(SNF(t) == n, truthyF(t)))
        return U(t, 'Number')
    return number_new(ip, args, kw, cls)


def validate_n(ip, args, kw, f):
    """raises when an inception's number is not zero or another event's is"""
    ctx = ip.ctx
    from keri.kering import ValidationError
    inc = kw.get('inceptive', args[1] if len(args) > 1 else None)
    n = SNF(args[0].t)
    if inc is not None:
        c = bt(ip, inc)
        if ctx.branch(z3.Not(z3.If(c, n == 0, n > 0))):
            raise PyRaise(ValidationError)
    return args[0]


def logged(st, V):
    """logEvent, by contract; the caller's obligations"""
    def log(ip, args, kw, f):
        a = bound(('pre', 'sn', 'serder', 'seqner', 'saider', 'bigers', 'baks'), args, kw)
        st['log'].append(a)
        V(ip, a)
    return log


def same_event(ip, a, st):
    ctx = ip.ctx
    return z3.And(ctx.toU(a['serder']) == st['s'].t, ctx.toU(a['seqner']) == st['q'].t, ctx.toU(a['saider']) == st['d'].t)


def unit_tupdate():
    """the registry's state moves only by an accepted rotation, to what that rotation states; otherwise it is untouched, and each kind of event goes to its own handler"""
    from keri.vdr import eventing
    from keri.kering import ValidationError, MissingAnchorError
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st.update(log=[], val=[], rot=[], sub=[])
        st['h'] = tever(ip)
        st['old'] = {k: (v.copy() if isinstance(v, L) else v) for k, v in snap(st['h']).items()}
        st['s'], st['q'], st['d'] = ctx.mk('obj:SerderKERI', 'serder'), ctx.mk('U', 'seqner'), ctx.mk('U', 'saider')
        st['bigers'] = ctx.mk('U', 'bigers')
        return eventing.Tever.update, [st['h']], dict(serder=st['s'], seqner=st['q'], saider=st['d'], bigers=st['bigers'])

    sn = lambda ip: NUMH(fld(ip, st['s'].t, 's'))

    def rotate(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('serder', 'sn'), args, kw)
        ctx.prove('rotation_judged_by_its_number', z3.And(ctx.toU(a['serder']) == st['s'].t, ctx.int_t(a['sn']) == sn(ip)))
        if ctx.choose(2, 'rotate refuses') == 1:
            raise PyRaise(ValidationError)
        st['rot'].append((ctx.mk('int', 'toad'), ctx.mk('list:str', 'baks'), ctx.mk('list:str', 'cuts'), ctx.mk('list:str', 'adds')))
        return st['rot'][-1]

    def val(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('serder', 'seqner', 'saider', 'bigers', 'toad', 'baks'), args, kw)
        ctx.prove('anchor_and_backers_of_this_event', z3.And(same_event(ip, a, st), ctx.toU(a['bigers']) == st['bigers'].t))
        t, b = st['rot'][-1][:2] if st['rot'] else (None, None)
        ctx.prove('backers_and_threshold_of_the_rotation', z3.BoolVal(False) if t is None else z3.And(ctx.int_t(a['toad']) == t.t, same_list(ip, a['baks'], b)))
        if ctx.choose(2, 'anchor or backers missing') == 1:
            raise PyRaise(MissingAnchorError)
        st['val'].append(_lo(ctx, 'Siger', 'verified'))
        return st['val'][-1]

    def log(ip, a):
        ctx = ip.ctx
        ctx.prove('logged_only_after_all_checks', z3.BoolVal(len(st['val']) == 1 and len(st['rot']) == 1))
        ctx.prove('logged_event_is_this_one', same_event(ip, a, st))
        ctx.prove('logged_under_the_registry', kn(ctx.toU(a['pre'])) == QB64(st['old']['prefixer'].t))
        ctx.prove('logged_at_its_number', ctx.int_t(a['sn']) == sn(ip))
        if st['val'] and st['rot']:
            ctx.prove('logged_with_verified_signatures_and_new_backers', z3.And(same_list(ip, a['bigers'], st['val'][0]), same_list(ip, a['baks'], st['rot'][0][1])))

    def sub(name):
        def h(ip, args, kw, f):
            ctx = ip.ctx
            a = bound(('serder', 'seqner', 'saider', 'sn', 'bigers'), args, kw)
            ctx.prove('credential_event_passed_on', z3.And(same_event(ip, a, st), ctx.int_t(a['sn']) == sn(ip), ctx.toU(a['bigers']) == st['bigers'].t))
            t = fld(ip, st['s'].t, 't')
            i = ctx.injt
            ctx.prove('to_its_own_handler', z3.Or(t == i('iss'), t == i('bis')) if name == 'issue' else z3.Or(t == i('rev'), t == i('brv')))
            st['sub'].append(name)
            if ctx.choose(2, name + ' refuses') == 1:
                raise PyRaise(ValidationError)
        return h

    def post(ip, out):
        ctx = ip.ctx
        o, h = st['old'], st['h'].fields
        i = ctx.injt
        t = fld(ip, st['s'].t, 't')
        if out[0] == 'raise' or st['sub']:
            ctx.prove('state_unchanged_unless_rotated', samestate(ip, st['h'], o))
            return
        ctx.prove('rotated', z3.And(z3.BoolVal(len(st['rot']) == 1 and len(st['val']) == 1 and len(st['log']) == 1), t == i('vrt')))
        ctx.prove('registry_has_backers', z3.Not(o['noBackers'].t))
        toad, baks, cuts, adds = st['rot'][0]
        ctx.prove('state_is_that_of_the_rotation', z3.And(ctx.int_t(h['sn']) == sn(ip), ctx.toU(h['serder']) == st['s'].t, ctx.int_t(h['toad']) == toad.t, same_list(ip, h['baks'], baks), same_list(ip, h['cuts'], cuts),
                  same_list(ip, h['adds'], adds), ctx.toU(h['ilk']) == i('vrt')))
        ctx.prove('rest_of_state_unchanged', samestate(ip, st['h'], o, but=('sn', 'serder', 'toad', 'baks', 'cuts', 'adds', 'ilk')))
    m = vbase(st)
    m.update({'new:Number': number_v, ('meth', 'Number', 'validate'): validate_n, V0 + 'Tever.rotate': rotate, V0 + 'Tever.valAnchorBigs': val, V0 + 'Tever.logEvent': logged(st, log), V0 + 'Tever.issue': sub('issue'),
              V0 + 'Tever.revoke': sub('revoke')})
    return Unit('Tever.update', [V + 'Tever.update'], setup, post, models=m, attrs=VATTRS, cover=['return', 'raise:ValidationError', 'raise:MissingAnchorError'], groups=['registries'])


def unit_credential(fn):
    """a credential is issued or revoked only anchored, in its own registry, with the backers in force if the registry has any, and revoked only directly after its issuance"""
    from keri.vdr import eventing
    from keri.kering import ValidationError, MissingAnchorError
    st = {}
    g, ANCH = vgates(st)
    TEL, TVT = z3.Function('db_tels1', US, INT, US), z3.Function('db_tvts2', US, US, US)
    PARSED = z3.Function('parsed_event', US, US)
    RK = z3.Function('registry_of', US, US)

    def setup(ip):
        ctx = ip.ctx
        st.update(log=[], val=[], back=[], escrowed=[], verified=[])
        st['h'] = tever(ip)
        st['old'] = snap(st['h'])
        st['s'], st['q'], st['d'] = ctx.mk('obj:SerderKERI', 'serder'), ctx.mk('U', 'seqner'), ctx.mk('U', 'saider')
        st['bigers'], st['sn'] = ctx.mk('U', 'bigers'), ctx.mk('int', 'sn')
        return getattr(eventing.Tever, fn), [st['h']], dict(serder=st['s'], seqner=st['q'], saider=st['d'], sn=st['sn'], bigers=st['bigers'])

    def backer_state(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('ked',), args, kw)
        ctx.prove('backers_as_the_event_refers_to_them', ctx.toU(a['ked']) == ked(st['s'].t))
        if ctx.choose(2, 'no such registry event') == 1:
            raise PyRaise(ValidationError)
        st['back'].append((ctx.mk('str', 'rtoad'), ctx.mk('list:str', 'rbaks')))
        return st['back'][-1]

    def val(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('serder', 'seqner', 'saider', 'bigers', 'toad', 'baks'), args, kw)
        ctx.prove('anchor_and_backers_of_this_event', z3.And(same_event(ip, a, st), ctx.toU(a['bigers']) == st['bigers'].t))
        ctx.prove('backers_and_threshold_in_force', z3.BoolVal(False) if not st['back'] else z3.And(ctx.toU(a['toad']) == st['back'][-1][0].t, same_list(ip, a['baks'], st['back'][-1][1])))
        if ctx.choose(2, 'anchor or backers missing') == 1:
            raise PyRaise(MissingAnchorError)
        st['val'].append(_lo(ctx, 'Siger', 'verified'))
        return st['val'][-1]

    def parse(ip, args, kw, cls):
        ctx = ip.ctx
        t = PARSED(kn(ctx.toU(kw.get('raw', args[0] if args else None))))
        ctx.assume(truthyF(t))
        return U(t, 'SerderKERI')

    def regkey(ip, args, kw, f):
        s = args[-1] if args else kw['serder']
        if ip.ctx.choose(2, 'other kind of event') == 1:
            raise PyRaise(ValidationError)
        return U(RK(ip.ctx.toU(s)), 'str')

    def prior(ip):
        p = fld(ip, st['s'].t, 'i')
        return TVT(p, kn(TEL(p, st['sn'].t - 1)))

    def log(ip, a):
        ctx = ip.ctx
        i = ctx.injt
        s = st['s'].t
        t = fld(ip, s, 't')
        simple, backed = ('iss', 'bis') if fn == 'issue' else ('rev', 'brv')
        own = QB64(st['old']['prefixer'].t)
        nob = st['old']['noBackers'].t
        ctx.prove('logged_event_is_this_one', same_event(ip, a, st))
        ctx.prove('logged_under_its_credential_at_its_number', z3.And(kn(ctx.toU(a['pre'])) == fld(ip, s, 'i'), ctx.int_t(a['sn']) == st['sn'].t))
        ctx.prove('kind_fits_the_registry', z3.Or(z3.And(t == i(simple), nob), z3.And(t == i(backed), z3.Not(nob))))
        ctx.prove('anchored', z3.Or(z3.And(t == i(simple), ANCH(s, st['q'].t, st['d'].t)), z3.And(t == i(backed), z3.BoolVal(len(st['val']) == 1))))
        if st['val']:
            ctx.prove('stored_signatures_are_the_verified_ones', same_list(ip, a['bigers'], st['val'][0]) if a.get('bigers') is not None else z3.BoolVal(False))
        else:
            ctx.prove('no_unverified_signatures_stored', z3.BoolVal(a.get('bigers') is None))
        ctx.prove('once', z3.BoolVal(len(st['log']) == 1))
        if fn == 'issue':
            ctx.prove('issued_in_the_registry_it_names', z3.Implies(t == i('iss'), fld(ip, s, 'ri') == own))
        else:
            e = PARSED(kn(prior(ip)))
            pt = fld(ip, e, 't')
            ctx.prove('there_is_a_prior_event', prior(ip) != i(None))
            ctx.prove('directly_after_its_issuance', z3.Or(pt == i('iss'), pt == i('bis')))
            ctx.prove('issued_by_this_registry', RK(e) == own)
            ctx.prove('chained_to_its_issuance', CMP(e, fld(ip, s, 'p')))

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('registry_state_unchanged', samestate(ip, st['h'], st['old']))
        if out[0] == 'return':
            ctx.prove('accepted_events_are_logged', z3.BoolVal(len(st['log']) == 1))
        else:
            ctx.prove('refused_events_are_not_logged', z3.BoolVal(not st['log']))
            if out[1] is MissingAnchorError and not st['back']:
                ctx.prove('held_for_its_anchor', z3.BoolVal(st['escrowed'] == ['escrowALEvent']))
    m = vbase(st)
    m.update(g)
    m.update({V0 + 'Tever.getBackerState': backer_state, V0 + 'Tever.valAnchorBigs': val, V0 + 'Tever.logEvent': logged(st, log), V0 + 'Tevery.registryKey': regkey, 'new:SerderKERI': parse,
              ('meth', 'Tels', 'get'): dbget('tels', 'Text'), ('meth', 'Tvts', 'get'): dbget('tvts', 'Text')})
    return Unit('Tever.' + fn, [V + 'Tever.' + fn], setup, post, models=m, attrs=VATTRS, cover=['return', 'raise:ValidationError', 'raise:MissingAnchorError'], groups=['registries'])


def unit_tlog():
    """the event, its anchor, its verified signatures and the backers are kept under its own digest, and its number gets its digest; nothing else is written"""
    from keri.vdr import eventing
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st.update(writes=[])
        st['h'] = tever(ip)
        st['old'] = snap(st['h'])
        st['s'], st['q'], st['d'] = ctx.mk('obj:SerderKERI', 'serder'), ctx.mk('obj:Number', 'seqner'), ctx.mk('obj:Diger', 'saider')
        st['pre'], st['sn'] = ctx.mk('str', 'pre'), ctx.mk('int', 'sn')
        st['bigers'] = _lo(ctx, 'Siger', 'bigers') if ctx.choose(2, 'signatures') == 0 else None
        st['baks'] = ctx.mk('list:str', 'baks') if ctx.choose(2, 'backers') == 0 else None
        return eventing.Tever.logEvent, [st['h']], dict(pre=st['pre'], sn=st['sn'], serder=st['s'], seqner=st['q'], saider=st['d'], bigers=st['bigers'], baks=st['baks'])

    def w(name, op):
        def h(ip, args, kw, f):
            a = bound(('keys', 'on', 'val') if name == 'tels' else ('keys', 'val'), args, kw)
            st['writes'].append((name, op, keyterms(ip, a['keys']), a.get('val', a.get('vals')), a.get('on')))
            return B(ip.ctx.fresh('answer', BOOL))
        return h

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        said, p = SAIDF(st['s'].t), st['pre'].t
        W = {(x[0], x[1]): x for x in st['writes']}
        ctx.prove('written_once_each', z3.BoolVal(len(W) == len(st['writes'])))
        must = {('ancs', 'pin'), ('tets', 'pin'), ('tvts', 'put'), ('tels', 'put')}
        may = {('tibs', 'pin'), ('baks', 'rem'), ('baks', 'put')}
        ctx.prove('these_tables_and_no_other', z3.BoolVal(must <= set(W) <= must | may))
        for k, x in W.items():
            if k[0] != 'tels':
                ctx.prove(k[0] + '_under_its_own_digest', samekeys(x[2], [p, said]))
        x = W.get(('tels', 'put'))
        if x:
            ctx.prove('number_gets_its_digest', z3.And(samekeys(x[2], [p]), ctx.int_t(x[4]) == st['sn'].t, kn(ctx.toU(x[3])) == said))
        x = W.get(('tvts', 'put'))
        if x:
            ctx.prove('event_itself_is_kept', ctx.toU(x[3]) == ops.getattr_(ip, st['s'], 'raw').t)
        x = W.get(('ancs', 'pin'))
        if x:
            n, d = x[3]
            ctx.prove('anchor_kept', z3.And(SNF(ctx.toU(n)) == SNF(st['q'].t), QB64(ctx.toU(d)) == QB64(st['d'].t)))
        x = W.get(('tibs', 'pin'))
        has_b = st['bigers'] is not None
        ctx.prove('signatures_kept_if_any', z3.BoolVal(x is not None) if has_b and x is not None else z3.BoolVal(x is None) if not has_b else st['bigers'].n == 0)
        if x:
            ctx.prove('signatures_kept_are_those_given', same_list(ip, x[3], st['bigers']))
        y = W.get(('baks', 'put'))
        has_k = st['baks'] is not None
        ctx.prove('backers_kept_if_any', z3.BoolVal(True) if has_k and y is not None else z3.BoolVal(y is None) if not has_k else st['baks'].n == 0)
        if y:
            l = ops.to_L(ip, y[3], 'U')
            b = st['baks']
            ctx.prove('backers_kept_are_those_given', z3.And(ops.zi(l.n) == b.n, forall(J, z3.Implies(rng(J, b.n), sel(l, J) == z3.Function('enc', US, US)(sel(b, J))))))
    m = vbase(st)
    m.update({('meth', n.capitalize(), o): w(n, o) for n in ('tels', 'tvts', 'ancs', 'tibs', 'baks', 'tets', 'taes') for o in ('pin', 'put', 'rem', 'add', 'append')})
    m['new:Dater'] = lambda ip, args, kw, c: U(ip.ctx.fresh('dater', US), 'Dater')
    return Unit('Tever.logEvent', [V + 'Tever.logEvent'], setup, post, models=m, attrs=VATTRS, cover=['return'], groups=['registries'])


def unit_tincept():
    """a new registry starts from its inception: number zero, distinct backers, threshold within them"""
    from keri.vdr import eventing
    from keri.kering import ValidationError
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['h'] = HObj(eventing.Tever, 'tever', {})
        st['s'] = ctx.mk('obj:SerderKERI', 'serder')
        return eventing.Tever.incept, [st['h']], dict(serder=st['s'])

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            return
        h = st['h'].fields
        b = lst(ip, st['s'].t, 'b')
        t = HEX(fld(ip, st['s'].t, 'bt'))
        ctx.prove('number_zero', z3.And(NUMH(fld(ip, st['s'].t, 's')) == 0, ctx.int_t(h['sn']) == 0))
        ctx.prove('backers_distinct', dist(ip, b))
        ctx.prove('threshold_in_range', z3.If(b.n == 0, t == 0, z3.And(t >= 1, t <= b.n)))
        ctx.prove('state_is_that_of_the_inception', z3.And(ctx.toU(h['serder']) == st['s'].t, ctx.int_t(h['toad']) == t, same_list(ip, h['baks'], b), ctx.toU(h['pre']) == fld(ip, st['s'].t, 'ii'),
                  QB64(ctx.toU(h['prefixer'])) == ops.getattr_(ip, st['s'], 'pre').t))
    m = vbase(st)
    m.update({'new:Number': number_v, ('meth', 'Number', 'validate'): validate_n})
    return Unit('Tever.incept', [V + 'Tever.incept'], setup, post, models=m, attrs=VATTRS, cover=['return', 'raise:ValidationError'], groups=['registries'])


def unit_backerstate():
    """the backers a credential event refers to are those kept with an accepted event of this registry"""
    from keri.vdr import eventing
    st = {}
    TEL, TVT = z3.Function('db_tels1', US, INT, US), z3.Function('db_tvts2', US, US, US)
    PARSED = z3.Function('parsed_event', US, US)

    def setup(ip):
        ctx = ip.ctx
        st['asked'] = []
        st['h'] = tever(ip)
        st['old'] = snap(st['h'])
        st['ked'] = ctx.mk('obj:Ked', 'ked')
        return eventing.Tever.getBackerState, [st['h']], dict(ked=st['ked'])

    def parse(ip, args, kw, cls):
        ctx = ip.ctx
        t = PARSED(kn(ctx.toU(kw.get('raw', args[0] if args else None))))
        ctx.assume(truthyF(t))
        return U(t, 'SerderKERI')

    def baks(ip, args, kw, f):
        st['asked'].append(keyterms(ip, bound(('keys',), args, kw)['keys']))
        l = st['l'] = ip.ctx.mk('list:str', 'kept')
        return l

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('registry_state_unchanged', samestate(ip, st['h'], st['old']))
        if out[0] != 'return':
            return
        i = ctx.injt
        ra = KED(st['ked'].t, i('ra'))
        ri, rd = KED(ra, i('i')), KED(ra, i('d'))
        e = PARSED(kn(TVT(ri, rd)))
        toad, bk = out[1]
        ctx.prove('of_this_registry', ri == QB64(st['old']['prefixer'].t))
        ctx.prove('of_an_accepted_event', z3.And(TVT(ri, rd) != i(None), TEL(ri, AT('sn', INT)(e)) == rd))
        ctx.prove('its_threshold', ctx.toU(toad) == fld(ip, e, 'bt'))
        ctx.prove('its_backers', z3.And(z3.BoolVal(bool(st['asked'])), *[samekeys(k, [ri, rd]) for k in st['asked']]))
        ctx.prove('as_kept', same_list(ip, bk, st['l']))
    m = vbase(st)
    m.update({'new:SerderKERI': parse, ('meth', 'Tels', 'get'): dbget('tels', 'Text'), ('meth', 'Tvts', 'get'): dbget('tvts', 'Text'), ('meth', 'Baks', 'get'): baks})
    return Unit('Tever.getBackerState', [V + 'Tever.getBackerState'], setup, post, models=m, attrs=VATTRS, cover=['return', 'raise:ValidationError'], groups=['registries'])


def unit_tprocess():
    """an event reaches its registry only when it is the next of its log, and a new registry is added only by its own inception once accepted"""
    from keri.vdr import eventing
    from keri.kering import ValidationError, OutOfOrderError, LikelyDuplicitousError
    st = {}
    KNOWN, OWN = z3.Function('registry_known', US, BOOL), z3.Function('own_registry', US, BOOL)
    TV = z3.Function('registry', US, US)
    CNT = z3.Function('events_of', US, US, INT)

    def setup(ip):
        ctx = ip.ctx
        st.update(made=[], updated=[], added=[], held=[])
        st['h'] = HObj(eventing.Tevery, 'tevery', dict(db='obj:Baser', reger='obj:Reger', lax='bool', local='bool', tevers='obj:Tevers', registries='obj:Registries', cues='U'))
        for x in ('lax', 'local'):
            ops.getattr_(ip, st['h'], x)
        st['s'], st['q'], st['d'], st['w'] = ctx.mk('obj:SerderKERI', 'serder'), ctx.mk('U', 'seqner'), ctx.mk('U', 'saider'), ctx.mk('U', 'wigers')
        st['regk'] = None
        return eventing.Tevery.processEvent, [st['h']], dict(serder=st['s'], seqner=st['q'], saider=st['d'], wigers=st['w'])

    def regkey(ip, args, kw, f):
        s = args[-1] if args else kw['serder']
        ip.ctx.prove('registry_of_this_event', ip.ctx.toU(s) == st['s'].t)
        if ip.ctx.choose(2, 'other kind of event') == 1:
            raise PyRaise(ValidationError)
        st['regk'] = z3.Function('registry_of', US, US)(st['s'].t)
        return U(st['regk'], 'str')

    sn = lambda ip: NUMH(fld(ip, st['s'].t, 's'))
    t = lambda ip: fld(ip, st['s'].t, 't')

    def allowed(ip):
        h = st['h'].fields
        return z3.Or(h['lax'].t, h['local'].t == OWN(st['regk']))

    def make(ip, args, kw, cls):
        ctx = ip.ctx
        a = dict(zip(('cues', 'rsr', 'serder', 'seqner', 'saider', 'bigers', 'db', 'reger', 'noBackers', 'estOnly', 'regk', 'local'), args))
        a.update(kw)
        ctx.prove('made_by_its_own_inception', z3.And(same_event(ip, a, st), ctx.toU(a['bigers']) == st['w'].t, t(ip) == ctx.injt('vcp')))
        ctx.prove('made_only_if_unknown', z3.Not(KNOWN(st['regk'])))
        ctx.prove('number_zero', sn(ip) == 0)
        ctx.prove('local_policy', allowed(ip))
        ctx.prove('not_from_stored_state', z3.BoolVal(a.get('rsr') is None))
        ctx.prove('as_local_as_this', bt(ip, a.get('local', False)) == st['h'].fields['local'].t)
        if ctx.choose(2, 'inception refused') == 1:
            raise PyRaise(ValidationError)
        u = U(ctx.fresh('tever', US), 'Tever')
        st['made'].append(u)
        return u

    def add(ip, args, kw, f=None):
        pass

    def setitem(ip, o, k, v):
        ctx = ip.ctx
        ctx.prove('added_only_once_accepted', z3.Or(*[ctx.toU(v) == u.t for u in st['made']] + [z3.And(KNOWN(st['regk']), ctx.toU(v) == TV(st['regk']), z3.BoolVal(len(st['updated']) == 1))]))
        ctx.prove('added_under_its_own_key', ctx.toU(k) == st['regk'])
        st['added'].append(1)

    def update(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('serder', 'seqner', 'saider', 'bigers'), args, kw)
        tv = args[0].t
        ctx.prove('goes_to_its_registry', z3.And(KNOWN(st['regk']), tv == TV(st['regk'])))
        ctx.prove('the_event_itself', z3.And(same_event(ip, a, st), ctx.toU(a['bigers']) == st['w'].t))
        pre = ops.getattr_(ip, st['s'], 'pre').t
        nxt = z3.If(t(ip) == ctx.injt('vrt'), SNF(tv) + 1, CNT(tv, pre))
        ctx.prove('next_of_its_log', sn(ip) == nxt)
        ctx.prove('not_another_inception', t(ip) != ctx.injt('vcp'))
        ctx.prove('local_policy', allowed(ip))
        st['updated'].append(1)
        ctx.prove('once', z3.BoolVal(len(st['updated']) == 1))
        if ctx.choose(2, 'refused') == 1:
            raise PyRaise(ValidationError)

    def vcsn(ip, args, kw, f):
        ctx = ip.ctx
        n = CNT(args[0].t, kn(ctx.toU(args[1] if len(args) > 1 else kw['vci'])))
        ctx.assume(n >= 0)
        if ctx.branch(n == 0):
            return None
        return I(n - 1)

    def hold(ip, args, kw, f):
        a = bound(('serder', 'seqner', 'saider'), args, kw)
        ip.ctx.prove('holds_this_event', same_event(ip, a, st))
        st['held'].append(1)

    def prefixer(ip, args, kw, cls):
        if ip.ctx.choose(2, 'malformed') == 1:
            raise PyRaise(ValidationError)
        return named('Prefixer')(ip, args, kw, cls)

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'return':
            ctx.prove('accepted_means_handled', z3.BoolVal(len(st['made']) + len(st['updated']) == 1))
            ctx.prove('new_registry_is_known', z3.BoolVal(not st['made'] or len(st['added']) == 1))
        elif out[1] is OutOfOrderError:
            ctx.prove('held_when_out_of_order', z3.BoolVal(len(st['held']) == 1 and not st['made'] and not st['updated']))
        elif out[1] is LikelyDuplicitousError:
            ctx.prove('duplicate_changes_nothing', z3.BoolVal(not st['held'] and not st['made'] and not st['updated'] and not st['added']))
    m = vbase(st)
    m.update({'new:Number': number_v, ('meth', 'Number', 'validate'): validate_n, V0 + 'Tevery.registryKey': regkey, 'new:Tever': make, ('in', 'Tevers'): lambda ip, c, k: KNOWN(ip.ctx.toU(k)), ('in', 'Registries'): lambda ip, c, k: OWN(ip.ctx.toU(k)),
              ('getitem', 'Tevers'): lambda ip, o, k: U(TV(ip.ctx.toU(k)), 'Tever'), ('setitem', 'Tevers'): setitem, ('meth', 'Tever', 'update'): update, ('meth', 'Tever', 'vcSn'): vcsn, V0 + 'Tevery.escrowOOEvent': hold, 'new:Prefixer': prefixer})
    return Unit('Tevery.processEvent', [V + 'Tevery.processEvent'], setup, post, models=m, attrs={**VATTRS, ('Tever', 'sn'): 'int'}, heap_attrs={'cues': 'U'}, cover=['return', 'raise:OutOfOrderError', 'raise:LikelyDuplicitousError', 'raise:ValidationError'], groups=['registries'])


def unit_vcstate():
    """the state reported is that of the latest accepted event of the credential, and only if it is of this registry"""
    from keri.vdr import eventing
    st = {}
    TVT, ANC = z3.Function('db_tvts2', US, US, US), z3.Function('db_ancs2', US, US, US)
    PARSED = z3.Function('parsed_event', US, US)
    RK = z3.Function('registry_of', US, US)

    def setup(ip):
        ctx = ip.ctx
        st.update(asked=[], made=[])
        st['h'] = tever(ip)
        st['h'].fields['version'] = ctx.mk('U', 'version')
        st['old'] = snap(st['h'])
        st['vci'] = ctx.mk('str', 'vci')
        st['items'] = ops.mk_kind(ip, 'list:obj=Item', 'items')
        return eventing.Tever.vcState, [st['h']], dict(vci=st['vci'])

    def items(ip, args, kw, f):
        ip.ctx.prove('reads_the_log_of_this_credential', kn(ip.ctx.toU(bound(('keys',), args, kw)['keys'])) == st['vci'].t)
        return st['items']

    def parse(ip, args, kw, cls):
        ctx = ip.ctx
        t = PARSED(kn(ctx.toU(kw.get('raw', args[0] if args else None))))
        ctx.assume(truthyF(t))
        return U(t, 'SerderKERI')

    def regkey(ip, args, kw, f):
        return U(RK(ip.ctx.toU(args[-1] if args else kw['serder'])), 'str')

    def vcstate(ip, args, kw, f):
        st['made'].append(kw)
        u = U(ip.ctx.fresh('state', US), 'State')
        ip.ctx.assume(u.t != ip.ctx.injt(None))
        st['state'] = u
        return u

    def inv(lv):
        if lv.seq is None:
            return []
        o = []
        for x, l in lv.lists('U'):
            o += [(f'?many_{x}', ops.zi(l.n) == lv.i), (f'?digest_{x}', forall(J, z3.Implies(rng(J, lv.i), sel(l, J) == IT[2](lv.ctx.toU(lv.elem(J))))))]
        return o

    def post(ip, out):
        ctx = ip.ctx
        ctx.prove('registry_state_unchanged', samestate(ip, st['h'], st['old']))
        if out[0] != 'return':
            return
        l = st['items']
        d = kn(IT[2](sel(l, l.n - 1)))
        e = PARSED(kn(TVT(st['vci'].t, d)))
        own = QB64(st['old']['prefixer'].t)
        if out[1] is None:
            ctx.prove('no_state_only_if_none_or_of_another_registry', z3.Or(l.n == 0, RK(e) != own))
            return
        ctx.prove('one_state', z3.BoolVal(len(st['made']) == 1 and out[1] is st['state']))
        k = st['made'][0]
        nob = st['old']['noBackers'].t
        i = ctx.injt
        ctx.prove('of_the_latest_event', z3.And(l.n > 0, kn(ctx.toU(k['said'])) == d, ctx.int_t(k['sn']) == l.n - 1, ctx.toU(k['vcpre']) == st['vci'].t))
        ctx.prove('of_this_registry', z3.And(RK(e) == own, ctx.toU(k['ri']) == own))
        ctx.prove('issued_or_revoked', ctx.toU(k['eilk']) == z3.If(nob, z3.If(l.n == 1, i('iss'), i('rev')), z3.If(l.n == 1, i('bis'), i('brv'))))
        ctx.prove('dated_by_the_event', ctx.toU(k['dts']) == fld(ip, e, 'dt'))
        c = ANC(st['vci'].t, d)
        a = k['a']
        ctx.prove('anchored_where_the_event_is', z3.BoolVal(False) if not isinstance(a, dict) else z3.And(c != i(None), ctx.toU(a['d']) == QB64(IT[1](c)), ctx.int_t(a['s']) == AT('num', INT)(IT[0](c))))
    m = vbase(st)

    def seqner(ip, args, kw, cls):
        return number_new(ip, [kw['sn']] if 'sn' in kw else args, {}, cls)
    m.update({'new:SerderKERI': parse, ('meth', 'Tels', 'getAllItemIter'): items, ('meth', 'Tvts', 'get'): dbget('tvts', 'Text'), ('meth', 'Ancs', 'get'): dbget('ancs', 'Couple'), V0 + 'Tevery.registryKey': regkey,
              V0 + 'vcstate': vcstate, 'new:Seqner': seqner, 'new:Saider': named('Diger')})
    return Unit('Tever.vcState', [V + 'Tever.vcState'], setup, post, models=m, attrs=VATTRS, invariants={'*': inv}, item_types={('Item', 0): None, ('Item', 1): None, ('Item', 2): 'str', ('Couple', 0): 'Number', ('Couple', 1): 'Diger'},
                cover=['return'], groups=['registries'])


def units_c20():
    return [unit_anchor(), unit_valanchor(), unit_trotate(), unit_tupdate(), unit_credential('issue'), unit_credential('revoke'), unit_tlog(), unit_tincept(), unit_backerstate(), unit_tprocess(), unit_vcstate()]


# ---------------------------------------------------------------- credentials (C21)
VF = 'src/keri/vdr/verifying.py:'
VF0 = 'keri.vdr.verifying:'


def isa(n, t):
    return z3.Function('isa_' + n, US, BOOL)(t)


def unit_credential_saved():
    """a credential is saved only when its own registry, controlled by its issuer, knows its state, its schema accepts it, and every edge leads to a chained credential that is not revoked and meets the edge's schema"""
    from keri.vdr import verifying
    from keri.kering import ValidationError
    st = {}
    KNOWN, TV = z3.Function('registry_known', US, BOOL), z3.Function('registry', US, US)
    STATE = z3.Function('credential_state', US, US, US)
    VC = z3.Function('chained', US, US, US, US, US)
    SCH, GOOD = z3.Function('schema_text', US, US), z3.Function('schema_accepts', US, US, BOOL)
    CRED = z3.Function('stored_credential', US, US)
    NODE, HASN = z3.Function('node_field', US, US, US), z3.Function('node_has', US, US, BOOL)
    PN, PA = z3.Function('pairs_n', US, INT), z3.Function('pairs_a', US, z3.ArraySort(INT, US))
    IT2 = IT[:2]

    def setup(ip):
        ctx = ip.ctx
        st.update(saved=[], held=[])
        st['h'] = HObj(verifying.Verifier, 'verifier', dict(tevers='obj:Tevers', reger='obj:Reger', resolver='obj:Resolver', cues='U', hby='U'))
        c = st['c'] = ctx.mk('obj:Creder', 'creder')
        k = st['shape'] = ctx.choose(4, 'edges')
        if k == 0:
            st['edge'] = None
        elif k == 1:
            st['edge'] = U(ctx.fresh('edge', US), 'Edge')
            ctx.assume(z3.And(isa('dict', st['edge'].t), z3.Not(isa('list', st['edge'].t)), st['edge'].t != ctx.injt(None)))
        elif k == 2:
            st['edge'] = ops.mk_kind(ip, 'list:obj=Edge', 'edges')
        else:
            st['edge'] = U(ctx.fresh('edge', US), 'Edge')
            ctx.assume(z3.And(z3.Not(isa('dict', st['edge'].t)), z3.Not(isa('list', st['edge'].t)), st['edge'].t != ctx.injt(None)))
        st['p'], st['q'], st['d'] = ctx.mk('U', 'prefixer'), ctx.mk('U', 'seqner'), ctx.mk('U', 'saider')
        return verifying.Verifier.processCredential, [st['h'], c], dict(prefixer=st['p'], seqner=st['q'], saider=st['d'])

    g = lambda ip, x: ops.getattr_(ip, st['c'], x).t

    def goodpair(ip, t):
        i = ip.ctx.injt
        lab, node = IT[0](t), IT[1](t)
        op = z3.If(HASN(node, i('o')), NODE(node, i('o')), i(None))
        said = NODE(node, i('n'))
        s = VC(said, op, g(ip, 'israid'), g(ip, 'iseaid'))
        far = CRED(said)
        ns = NODE(node, i('s'))
        schema = z3.Or(z3.Not(HASN(node, i('s'))), ns == i(None), AT('schema')(far) == ns, z3.And(truthyF(SCH(ns)), GOOD(SCH(ns), RAWF(far))))
        et = AT('et')(s)
        return z3.Or(lab == i('d'), lab == i('o'), z3.And(s != i(None), et != i('rev'), et != i('brv'), schema))

    def goodedge(ip, e):
        return forall(K, z3.Implies(rng(K, PN(e)), goodpair(ip, z3.Select(PA(e), K))))

    def edges_good(ip):
        if st['edge'] is None:
            return z3.BoolVal(True)
        if isinstance(st['edge'], L):
            return forall(J, z3.Implies(rng(J, st['edge'].n), goodedge(ip, sel(st['edge'], J))))
        return z3.And(isa('dict', st['edge'].t), goodedge(ip, st['edge'].t))

    def items(ip, args, kw, f):
        t = args[0].t
        ip.ctx.assume(PN(t) >= 0)
        return L(PN(t), PA(t), 'U', ecls='Pair')

    def chain(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('nodeSaid', 'op', 'issuer', 'issuee'), args, kw)
        if ctx.choose(2, 'chain refused') == 1:
            raise PyRaise(ValidationError)
        t = VC(*[ctx.toU(a.get(x)) for x in ('nodeSaid', 'op', 'issuer', 'issuee')])
        ctx.assume(truthyF(t) == (t != ctx.injt(None)))
        return U(t, 'State')

    def save(ip, args, kw, f):
        ctx = ip.ctx
        a = bound(('creder', 'prefixer', 'seqner', 'saider'), args, kw)
        i = ctx.injt
        ctx.prove('the_credential_given', z3.And(ctx.toU(a['creder']) == st['c'].t, ctx.toU(a['prefixer']) == st['p'].t, ctx.toU(a['seqner']) == st['q'].t, ctx.toU(a['saider']) == st['d'].t))
        r = g(ip, 'regid')
        ctx.prove('its_registry_is_known', KNOWN(r))
        ctx.prove('its_issuer_controls_the_registry', g(ip, 'israid') == AT('pre')(TV(r)))
        ctx.prove('its_registry_has_issued_it', STATE(TV(r), SAIDF(st['c'].t)) != i(None))
        sc = SCH(g(ip, 'schema'))
        ctx.prove('its_schema_accepts_it', z3.And(truthyF(sc), GOOD(sc, RAWF(st['c'].t))))
        ctx.prove('every_edge_holds', edges_good(ip))
        st['saved'].append(1)

    def hold(name):
        def h(ip, args, kw, f):
            a = bound(('creder', 'prefixer', 'seqner', 'saider'), args, kw)
            ip.ctx.prove('holds_the_credential_given', ip.ctx.toU(a['creder']) == st['c'].t)
            st['held'].append(name)
            return B(ip.ctx.fresh('held', BOOL))
        return h

    def vcstate(ip, args, kw, f):
        t = STATE(args[0].t, ip.ctx.toU(args[1] if len(args) > 1 else kw['vci']))
        ip.ctx.assume(truthyF(t) == (t != ip.ctx.injt(None)))
        return U(t, 'State')

    def schemer(ip, args, kw, cls):
        t = z3.Function('schemer', US, US)(ip.ctx.toU(kw['raw']))
        return U(t, 'Schemer')

    def sverify(ip, args, kw, f):
        ctx = ip.ctx
        raw = ctx.toU(args[1] if len(args) > 1 else kw['raw'])
        if not ctx.branch(GOOD(args[0].t.arg(0), raw)):
            raise PyRaise(ValidationError)
        return True

    def inv(lv):
        if lv.seq is None:
            return []
        ip = lv.ip
        el = lambda k: lv.ctx.toU(lv.elem(k))
        return [('?edges', forall(J, z3.Implies(rng(J, lv.i), goodedge(ip, el(J))))), ('?pairs', forall(J, z3.Implies(rng(J, lv.i), goodpair(ip, el(J)))))]

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'return':
            ctx.prove('accepted_means_saved', z3.BoolVal(len(st['saved']) == 1))
        else:
            ctx.prove('refused_or_held_means_not_saved', z3.BoolVal(not st['saved']))

    def resolve(ip, args, kw, f):
        return U(SCH(ip.ctx.toU(args[1] if len(args) > 1 else kw.get('uri'))), 'Text')
    m = {('attr', 'Creder', 'edge'): lambda ip, o: st['edge'], ('in', 'Tevers'): lambda ip, c, k: KNOWN(ip.ctx.toU(k)), ('getitem', 'Tevers'): lambda ip, o, k: U(TV(ip.ctx.toU(k)), 'Tever'), ('meth', 'Tever', 'vcState'): vcstate,
         ('meth', 'Resolver', 'resolve'): resolve, 'new:Schemer': schemer, ('meth', 'Schemer', 'verify'): sverify, ('meth', 'Edge', 'items'): items, ('getitem', 'Node'): lambda ip, o, k: U(NODE(o.t, ip.ctx.toU(k)), None),
         ('in', 'Node'): lambda ip, c, k: HASN(c.t, ip.ctx.toU(k)), VF0 + 'Verifier.verifyChain': chain, VF0 + 'Verifier.saveCredential': save, **{VF0 + 'Verifier.' + x: hold(x) for x in ('escrowMRE', 'escrowMCE', 'escrowMSE')},
         ('meth', 'Creds', 'get'): lambda ip, args, kw, f: U(CRED(ip.ctx.toU(bound(('keys',), args, kw)['keys'])), 'Far'), 'keri.help.helping:nowUTC': lambda ip, args, kw, f: U(ip.ctx.fresh('now', US), 'Time'),
         'keri.help.helping:fromIso8601': lambda ip, args, kw, f: U(ip.ctx.fresh('then', US), 'Time')}
    at = {('Reger', 'creds'): 'obj:Creds', ('Creder', 'iseaid'): 'U', ('Creder', 'regid'): 'str', ('Creder', 'schema'): 'str', ('Creder', 'israid'): 'str', ('Creder', 'said'): 'str', ('Creder', 'raw'): 'bytes', ('Far', 'schema'): 'U', ('Far', 'raw'): 'bytes',
          ('Tever', 'pre'): 'str', ('State', 'et'): 'str', ('State', 'dt'): 'U'}
    return Unit('processCredential', [VF + 'Verifier.processCredential'], setup, post, models=m, attrs=at, invariants={'*': inv}, item_types={('Pair', 0): 'str', ('Pair', 1): 'Node'},
                cover=['return', 'raise:MissingRegistryError', 'raise:MissingSchemaError', 'raise:MissingChainError', 'raise:RevokedChainError', 'raise:FailedSchemaValidationError'], groups=['credentials'])


def unit_chain(shape):
    """a chained credential counts only if it is stored, its registry knows its state, and the edge's operator holds between the two"""
    from keri.vdr import verifying
    from keri.kering import ValidationError
    st = {}
    KNOWN, TV = z3.Function('registry_known', US, BOOL), z3.Function('registry', US, US)
    STATE = z3.Function('credential_state', US, US, US)
    SAVED, CRED, SUBJ = z3.Function('saved', US, US), z3.Function('stored_credential', US, US), z3.Function('subjects', US, US)
    UN, DE = ('I2I', 'NI2I', 'DI2I', 'E1E', 'NOT'), ('I2I', 'NI2I', 'DI2I')

    def setup(ip):
        ctx = ip.ctx
        st['h'] = HObj(verifying.Verifier, 'verifier', dict(tevers='obj:Tevers', reger='obj:Reger'))
        st['n'], st['issuer'], st['issuee'] = ctx.mk('str', 'node'), ctx.mk('str', 'issuer'), ctx.mk('U', 'issuee')
        if shape == 'none':
            st['ops'] = []
            st['op'] = None
        elif shape == 'text':
            st['op'] = ctx.mk('str', 'op')
            st['ops'] = [st['op']]
        else:
            st['op'] = st['ops'] = [ctx.mk('str', f'op{i}') for i in range(int(shape))]
        return verifying.Verifier.verifyChain, [st['h']], dict(nodeSaid=st['n'], op=st['op'], issuer=st['issuer'], issuee=st['issuee'])

    def get(F, ty):
        def h(ip, args, kw, f):
            t = F(kn(ip.ctx.toU(bound(('keys',), args, kw)['keys'])))
            ip.ctx.assume(truthyF(t) == (t != ip.ctx.injt(None)))
            return U(t, ty)
        return h

    def vcstate(ip, args, kw, f):
        t = STATE(args[0].t, ip.ctx.toU(args[1] if len(args) > 1 else kw['vci']))
        ip.ctx.assume(truthyF(t) == (t != ip.ctx.injt(None)))
        return U(t, 'State')

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'raise':
            return
        i = ctx.injt
        r = ctx.toU(out[1])
        if out[1] is None:
            return
        # what is returned counts
        c = CRED(st['n'].t)
        some = r != i(None)
        far = AT('iseaid')(c)
        names = [x.t for x in st['ops']]
        known = lambda t, s: z3.Or(*[t == i(x) for x in s])
        given = z3.Or(*[known(t, UN) for t in names]) if names else z3.BoolVal(False)
        anyis = lambda x: z3.Or(*[t == i(x) for t in names]) if names else z3.BoolVal(False)
        # the last delegative operator given decides; without any operator, one to issuer when the far credential has an issuee
        eff = i(None)
        for t in names:
            eff = z3.If(known(t, DE), t, eff)
        eff = z3.If(given, eff, z3.If(far != i(None), i('I2I'), i('NI2I')))
        ctx.prove('stored', z3.Implies(some, SAVED(st['n'].t) != i(None)))
        ctx.prove('state_is_that_of_its_registry', z3.Implies(some, z3.And(KNOWN(AT('regid')(c)), r == STATE(TV(AT('regid')(c)), st['n'].t))))
        ctx.prove('issued_to_the_issuer_where_required', z3.Implies(z3.And(some, eff == i('I2I')), z3.And(far != i(None), far == st['issuer'].t)))
        ctx.prove('unsupported_operators_refused', z3.Implies(some, z3.And(eff != i('DI2I'), z3.Not(anyis('NOT')))))
        ctx.prove('same_issuee_where_required', z3.Implies(z3.And(some, anyis('E1E')), z3.And(far != i(None), far == st['issuee'].t)))
    m = {('in', 'Tevers'): lambda ip, c, k: KNOWN(ip.ctx.toU(k)), ('getitem', 'Tevers'): lambda ip, o, k: U(TV(ip.ctx.toU(k)), 'Tever'), ('meth', 'Tever', 'vcState'): vcstate, ('meth', 'Saved', 'get'): get(SAVED, 'Diger'),
         ('meth', 'Creds', 'get'): get(CRED, 'Far'), ('meth', 'Subjs', 'get'): get(SUBJ, None)}
    at = {('Reger', 'creds'): 'obj:Creds', ('Reger', 'saved'): 'obj:Saved', ('Reger', 'subjs'): 'obj:Subjs', ('Far', 'iseaid'): 'U', ('Far', 'regid'): 'str'}
    return Unit('verifyChain_' + {'none': 'no_operator', 'text': 'one_operator'}.get(shape, shape + '_operators'), [VF + 'Verifier.verifyChain'], setup, post, models=m, attrs=at, cover=['return'], groups=['credentials'])


def unit_save():
    """saving makes the credential known under its own digest, issuer, schema and subject, and keeps it with its anchor"""
    from keri.vdr import verifying
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st.update(w=[], log=[])
        st['h'] = HObj(verifying.Verifier, 'verifier', dict(reger='obj:Reger'))
        c = st['c'] = ctx.mk('obj:Creder', 'creder')
        st['p'], st['q'], st['d'] = ctx.mk('U', 'prefixer'), ctx.mk('U', 'seqner'), ctx.mk('U', 'saider')
        return verifying.Verifier.saveCredential, [st['h'], c], dict(prefixer=st['p'], seqner=st['q'], saider=st['d'])

    def logc(ip, args, kw, f):
        a = bound(('creder', 'prefixer', 'seqner', 'saider'), args, kw)
        ip.ctx.prove('kept_with_its_anchor', z3.And(*[ip.ctx.toU(a[x]) == st[y].t for x, y in (('creder', 'c'), ('prefixer', 'p'), ('seqner', 'q'), ('saider', 'd'))]))
        st['log'].append(1)

    def w(name, op):
        def h(ip, args, kw, f):
            a = bound(('keys', 'val'), args, kw)
            st['w'].append((name, op, keyterms(ip, a['keys'])[0], ip.ctx.toU(a['val'])))
            return B(ip.ctx.fresh('answer', BOOL))
        return h

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        c = st['c'].t
        said = SAIDF(c)
        W = {(x[0], x[1]): x for x in st['w']}
        subj = AT('iseaid')(c)
        ctx.prove('kept', z3.BoolVal(len(st['log']) == 1))
        ctx.prove('these_indices', z3.BoolVal(set(W) | {('subjs', 'add')} == {('saved', 'pin'), ('issus', 'add'), ('schms', 'add'), ('subjs', 'add')} and len(W) == len(st['w'])))
        for k, want in ((('saved', 'pin'), said), (('issus', 'add'), AT('israid')(c)), (('schms', 'add'), AT('schema')(c)), (('subjs', 'add'), subj)):
            if k in W:
                ctx.prove(k[0] + '_indexed_rightly', z3.And(kn(W[k][2]) == want, QB64(W[k][3]) == said))
        ctx.prove('subject_indexed_if_any', (subj != ctx.injt(None)) == z3.BoolVal(('subjs', 'add') in W))
    def iseaid(ip, o):
        t = AT('iseaid')(o.t)
        ip.ctx.assume(truthyF(t) == (t != ip.ctx.injt(None)))
        return U(t, 'Text')
    m = {('attr', 'Creder', 'iseaid'): iseaid, VF0.replace('verifying', 'viewing') + 'Reger.logCred': logc, ('meth', 'Reger', 'logCred'): logc, 'new:Saider': named('Diger'), ('attr', 'Diger', 'qb64b'): encoded('qb64'), ('meth', 'Text', 'encode'): lambda ip, args, kw, f: ops._encode(ip, U(args[0].t, 'str'), [], {})}
    m.update({('meth', n.capitalize(), o): w(n, o) for n in ('saved', 'issus', 'schms', 'subjs') for o in ('pin', 'add', 'put', 'rem')})
    at = {**{('Reger', x): 'obj:' + x.capitalize() for x in ('saved', 'issus', 'schms', 'subjs')}, ('Creder', 'said'): 'str', ('Creder', 'schema'): 'str', ('Creder', 'israid'): 'str'}
    return Unit('saveCredential', [VF + 'Verifier.saveCredential'], setup, post, models=m, attrs=at, cover=['return'], groups=['credentials'])


def units_c21():
    return [unit_credential_saved(), unit_chain('none'), unit_chain('text'), unit_chain('1'), unit_chain('2'), unit_chain('3'), unit_save()]
