"""Proof units on the functions that accept replies (C17, C18)."""
from .p_kel import *
from .p_kel import _lo

R = 'src/keri/core/routing.py:'
R0 = 'keri.core.routing:'


def table(st, name, ty=None):
    """a table of the store: reads are fixed by the key, writes are recorded and must be stated by the contract"""
    def get(ip, args, kw, f):
        return dbget(name, ty)(ip, args, kw, f)

    def write(op):
        def h(ip, args, kw, f):
            keys = kw.get('keys', args[1] if len(args) > 1 else None)
            v = kw.get('val', kw.get('vals', args[2] if len(args) > 2 else None))
            st['writes'].append((name, op, keyterms(ip, keys), v))
            return B(ip.ctx.fresh('answer', BOOL))
        return h
    c = name.capitalize()
    m = {('meth', c, 'get'): get}
    for op in ('pin', 'put', 'rem', 'trim', 'add'):
        m[('meth', c, op)] = write(op)
    return m


def bound(names, args, kw):
    """arguments by name, however they are passed (self first)"""
    d = dict(zip(names, args[1:]))
    d.update(kw)
    return d


def samekeys(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)


def unit_update(fn, said_tab, rec_tab, rec_cls, attr, arg):
    """the record becomes what the reply states, its other fields stay, and nothing else is written"""
    from keri.core import eventing
    st = {}
    fields = {'EndpointRecord': {'allowed': 'U', 'enabled': 'U', 'name': 'str'}, 'LocationRecord': {'url': 'str'}}[rec_cls]

    def setup(ip):
        ctx = ip.ctx
        st['writes'] = []
        h = HObj(eventing.Kevery, 'kevery', dict(db='obj:Baser'))
        st['keys'] = (ctx.mk('str', 'cid'), ctx.mk('str', 'role'), ctx.mk('str', 'eid'))[:3 if attr == 'allowed' else 2]
        st['saider'] = ctx.mk('obj:Diger', 'saider')
        st['val'] = ctx.mk('bool' if attr == 'allowed' else 'str', arg)
        st['old'] = None
        return getattr(eventing.Kevery, fn), [h], dict(keys=st['keys'], saider=st['saider'], **{arg: st['val']})

    def rec_get(ip, args, kw, f):
        keys = kw.get('keys', args[1] if len(args) > 1 else None)
        st['asked'] = keyterms(ip, keys)
        if ip.ctx.choose(2, 'a record is there') == 1:
            return None
        o = HObj(getattr(eventing.__dict__.get(rec_cls) and eventing, rec_cls), 'record', dict(fields))
        for k in fields:
            ops.getattr_(ip, o, k)
        st['old'] = dict(o.fields.items())
        st['rec'] = o
        return o

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        want = keyterms(ip, st['keys'])
        w = st['writes']
        ctx.prove('writes_the_reply_and_the_record_only', z3.BoolVal(sorted((x[0], x[1]) for x in w) == sorted([(said_tab, 'pin'), (rec_tab, 'pin')])))
        ctx.prove('under_the_keys_of_the_reply', z3.And(*[samekeys(x[2], want) for x in w]))
        ctx.prove('record_looked_up_under_them', samekeys(st['asked'], want))
        for x in w:
            if x[0] == said_tab:
                ctx.prove('reply_recorded', ctx.toU(x[3]) == st['saider'].t)
            else:
                r = x[3]
                ctx.prove('record_says_what_the_reply_says', bt(ip, wrap(ops.eq(ip, ops.getattr_(ip, r, attr), st['val']))))
                if st['old'] is not None:
                    ctx.prove('same_record', z3.BoolVal(r is st['rec']))
                    for k in fields:
                        if k != attr:
                            ctx.prove(f'{k}_unchanged', bt(ip, wrap(ops.eq(ip, ops.getattr_(ip, r, k), st['old'][k]))))
    m = {**table(st, said_tab, 'Diger'), **table(st, rec_tab, rec_cls), ('meth', rec_tab.capitalize(), 'get'): rec_get, 'new:' + rec_cls: record}
    return Unit(fn, [E + 'Kevery.' + fn], setup, post, models=m, attrs={('Baser', x): 'obj:' + x.capitalize() for x in (said_tab, rec_tab)}, cover=['return'], groups=['endpoints'])


def unit_reply(fn, upd, said_tab, routes, fields, base):
    """the handler: only a reply that acceptReply takes, on its own route, with known role or scheme, for its own controller, changes the record, and that as it states"""
    from keri.core import eventing
    from keri.kering import ValidationError, UnverifiedReplyError
    st = {}
    DATA = z3.Function('reply_data', US, US, US)

    def setup(ip):
        ctx = ip.ctx
        st['accepts'], st['updates'], st['writes'] = [], [], []
        h = HObj(eventing.Kevery, 'kevery', dict(db='obj:Baser', rvy='obj:Revery'))
        st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
        st['diger'] = ctx.mk('obj:Diger', 'diger')
        st['route'] = ctx.mk('str', 'route')
        st['cigars'], st['tsgs'] = ctx.mk('U', 'cigars'), ctx.mk('U', 'tsgs')
        st['has'] = {k: ctx.mk('bool', 'has_' + k) for k in fields}
        st['data'] = {k: ctx.mk('str', 'a_' + k) for k in fields}
        return getattr(eventing.Kevery, fn), [h], dict(serder=st['serder'], diger=st['diger'], route=st['route'], cigars=st['cigars'], tsgs=st['tsgs'])

    class Data:
        pass

    def item(ip, o, k):
        if k == 'a':
            return U(ip.ctx.injt('data'), 'Data')
        return U(DATA(o.t, ip.ctx.toU(k)), 'str')

    def ditem(ip, o, k):
        return st['data'][k]

    def din(ip, c, k):
        return st['has'][k].t if isinstance(k, str) else z3.Or(*[z3.And(st['has'][x].t, ip.ctx.toU(k) == ip.ctx.injt(x)) for x in fields])

    def prefixer(ip, args, kw, cls):
        ctx = ip.ctx
        q = ctx.toU(kw.get('qb64', args[0] if args else None))
        if ctx.choose(2, 'malformed prefix') == 1:
            raise PyRaise(ValidationError)
        t = z3.Function('prefixer_of', US, US)(q)
        ctx.assume(z3.And(truthyF(t), z3.Function('at_qb64', US, US)(t) == q))
        return U(t, 'Prefixer')

    def accept(ip, args, kw, f):
        ctx = ip.ctx
        st['accepts'].append(bound(('serder', 'saider', 'route', 'aid', 'osaider', 'cigars', 'tsgs'), args, kw))
        if ctx.choose(2, 'acceptReply raises') == 1:
            raise PyRaise(ValidationError)
        st['taken'] = b = B(ctx.fresh('accepted', BOOL))
        return b

    def update(ip, args, kw, f):
        st['updates'].append(bound(('keys', 'saider', 'allowed' if upd == 'updateEnd' else 'url'), args, kw))
        return None

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'raise':
            ctx.prove('refused_without_effect', z3.BoolVal(not st['updates']))
            ctx.prove('refused_with_a_refusal', z3.BoolVal(issubclass(out[1], (ValidationError, ValueError))))
            return
        d = st['data']
        ctx.prove('one_decision_one_update', z3.BoolVal(len(st['accepts']) == 1 and len(st['updates']) == 1))
        if len(st['accepts']) != 1 or len(st['updates']) != 1:
            return
        a, u = st['accepts'][0], st['updates'][0]
        eq = lambda x, y: bt(ip, wrap(ops.eq(ip, x, y)))
        subject = d['cid'] if 'cid' in d else d['eid']
        keys = keyterms(ip, tuple(d[k] for k in (('cid', 'role', 'eid') if 'cid' in d else ('eid', 'scheme'))))
        ctx.prove('only_if_accepted', st['taken'].t)
        ctx.prove('all_fields_present', z3.And(*[st['has'][k].t for k in fields]))
        ctx.prove('decided_for_its_controller', eq(a['aid'], subject))
        ctx.prove('decided_on_this_reply', z3.And(ctx.toU(a['serder']) == st['serder'].t, ctx.toU(a['saider']) == st['diger'].t))
        ctx.prove('decided_with_the_signatures_given', z3.And(ctx.toU(a['cigars']) == ctx.toU(st['cigars']), ctx.toU(a['tsgs']) == ctx.toU(st['tsgs'])))
        ctx.prove('decided_against_the_stored_reply', ctx.toU(a['osaider']) == dbterm(ip, said_tab, tuple(d[k] for k in (('cid', 'role', 'eid') if 'cid' in d else ('eid', 'scheme')))))
        ctx.prove('escrowed_under_the_route', eq(a['route'], base))
        ctx.prove('recorded_under_its_keys', samekeys(keyterms(ip, u['keys']), keys))
        ctx.prove('recorded_reply', ctx.toU(u['saider']) == st['diger'].t)
        if 'role' in d:
            ctx.prove('known_role', z3.Or(*[ctx.toU(d['role']) == ctx.injt(x) for x in eventing.Roles]))
            ctx.prove('known_route', z3.Or(*[ctx.toU(st['route']) == ctx.injt(x) for x in routes]))
            ctx.prove('grant_or_denial_as_the_route_says', bt(ip, wrap(ops.truth(ip, u['allowed']))) == (ctx.toU(st['route']) == ctx.injt('/end/role/add')))
        else:
            ctx.prove('known_scheme', z3.Or(*[ctx.toU(d['scheme']) == ctx.injt(x) for x in eventing.Schemes]))
            ctx.prove('known_route', ops.call_method(ip, st['route'], 'startswith', [routes[0]], {}).t)
            ctx.prove('address_as_stated', eq(u['url'], d['url']))
            ctx.prove('address_of_the_scheme', z3.Or(SCH(ctx.toU(d['url'])) == ctx.injt(''), SCH(ctx.toU(d['url'])) == ctx.toU(d['scheme'])))
    SCH = z3.Function('url_scheme', US, US)

    def urlsplit(ip, args, kw, f):
        return U(ip.ctx.toU(args[0]), 'Split')

    def scheme(ip, o):
        t = SCH(o.t)
        ip.ctx.assume(truthyF(t) == (t != ip.ctx.injt('')))
        return U(t, 'str')
    m = {**table(st, said_tab, 'Diger'), ('getitem', 'Ked'): item, ('getitem', 'Data'): ditem, ('in', 'Data'): din, 'new:Prefixer': prefixer, ('meth', 'Revery', 'acceptReply'): accept,
         E0 + 'Kevery.' + upd: update, 'urllib.parse:urlsplit': urlsplit, ('attr', 'Split', 'scheme'): scheme}
    return Unit(fn, [E + 'Kevery.' + fn], setup, post, models=m, attrs={('Baser', said_tab): 'obj:' + said_tab.capitalize(), ('SerderKERI', 'ked'): 'obj:Ked'},
                cover=['return', 'raise:ValidationError', 'raise:UnverifiedReplyError'], groups=['endpoints'])


def unit_acceptreply():
    """the old reply is replaced only by a reply of the subject itself that verifies, at a later or equal key state, and at equal key state later"""
    from keri.core import routing
    from keri.kering import ValidationError
    st = {}
    OKV = z3.Function('cigar_ok', US, US, US, BOOL)
    VALID = z3.Function('group_valid', US, US, US, BOOL)     # serialization, verification keys, threshold
    DT = z3.Function('at_datetime', US, z3.RealSort())
    g = lambda ip, o, n: ops.getattr_(ip, o, n)

    def setup(ip):
        ctx = ip.ctx
        st['checked'], st['writes'], st['removed'] = [], [], []
        st['g'] = HObj(None.__class__, 'ghost', dict(eff='bool', esc='bool'))
        st['g'].fields['eff'], st['g'].fields['esc'] = B(z3.BoolVal(False)), B(z3.BoolVal(False))
        h = HObj(routing.Revery, 'revery', dict(db='obj:Baser', lax='bool', local='bool', prefixes='set:str', cues='U'))
        st['serder'], st['saider'] = ctx.mk('obj:SerderKERI', 'serder'), ctx.mk('obj:Diger', 'saider')
        st['aid'] = ctx.mk('str', 'aid')
        st['route'] = ctx.mk('str', 'route')
        st['osaider'] = ops.mk_kind(ip, 'opt:obj:Diger', 'osaider')
        st['cigars'] = ops.mk_kind(ip, 'list:obj=Cigar', 'cigars')
        st['tsgs'] = ops.mk_kind(ip, 'list:obj=Tsg', 'tsgs')
        st['osn'] = None
        return routing.Revery.acceptReply, [h], dict(serder=st['serder'], saider=st['saider'], route=st['route'], aid=st['aid'], osaider=st['osaider'], cigars=st['cigars'], tsgs=st['tsgs'])

    def dater(ip, args, kw, cls):
        t = ip.ctx.fresh('dater', US)
        ip.ctx.assume(truthyF(t))
        st['dater'] = U(t, 'Dater')
        return st['dater']

    def latest(ip, args, kw, f):
        a = bound(('saider', 'aid'), args, kw)
        ip.ctx.prove('latest_of_the_stored_reply', z3.And(ip.ctx.toU(a['saider']) == ip.ctx.toU(st['osaider']), ip.ctx.toU(a['aid']) == st['aid'].t))
        st['osn'] = ops.mk_kind(ip, 'opt:int', 'osn') if False else (None if ip.ctx.choose(2, 'osn') == 1 else I(ip.ctx.fresh('osn', INT)))
        if st['osn'] is not None:
            ip.ctx.assume(st['osn'].t >= 0)
        return st['osn']

    def later(ip):
        """the reply is later than the stored one, or there is none, or it is the same"""
        ctx = ip.ctx
        if st['osaider'] is None:
            return z3.BoolVal(True)
        o = ctx.toU(st['osaider'])
        od = dbterm(ip, 'sdts', U(z3.Function('at_qb64b', US, US)(o), 'bytes'))
        same = g(ip, st['osaider'], 'qb64').t == g(ip, st['saider'], 'qb64').t if isinstance(st['osaider'], U) else z3.BoolVal(False)
        return z3.Or(same, z3.Not(truthyF(o)), od == ctx.injt(None), DT(st['dater'].t) > DT(od))

    def same(ip):
        ctx = ip.ctx
        if not isinstance(st['osaider'], U):
            return z3.BoolVal(False)
        o = st['osaider'].t
        return z3.And(truthyF(o), z3.Function('at_qb64', US, US)(o) == g(ip, st['saider'], 'qb64').t)

    def update(ip, args, kw, f):
        ctx = ip.ctx
        a = bound((), args, kw)
        p = ctx.prove
        p('stored_under_its_own_digest', z3.And(ctx.toU(a['serder']) == st['serder'].t, ctx.toU(a['saider']) == st['saider'].t, ctx.toU(a['dater']) == st['dater'].t))
        if a.get('cigar') is not None:
            c = a['cigar']
            v = g(ip, c, 'verfer')
            p('signer_is_the_subject', g(ip, v, 'qb64').t == st['aid'].t)
            p('signer_not_transferable', z3.Not(g(ip, v, 'transferable').t))
            p('signature_verifies', OKV(v.t, g(ip, c, 'raw').t, g(ip, st['serder'], 'raw').t))
            p('later_than_the_stored', later(ip))
        if a.get('sigers') is not None:
            pre, sn, dg = a['prefixer'], g(ip, a['seqner'], 'sn').t, a['diger']
            p('signer_is_the_subject', g(ip, pre, 'qb64').t == st['aid'].t)
            osn = st['osn']
            p('not_at_an_earlier_key_state', z3.BoolVal(True) if osn is None else sn >= osn.t)
            p('at_the_same_key_state_later', later(ip) if osn is None else z3.Implies(sn == osn.t, later(ip)))
            said = dbterm(ip, 'kels_last', U(g(ip, pre, 'qb64').t, 'str'), I(sn))
            est = dbterm(ip, 'evts', (U(g(ip, pre, 'qb64').t, 'str'), U(said, 'str')))
            p('key_state_is_accepted', z3.And(said != ctx.injt(None), g(ip, U(est, 'SerderKERI'), 'said').t == g(ip, dg, 'qb64').t))
            ok = [z3.And(s == st['serder'].t, v == g(ip, U(est, 'SerderKERI'), 'verfers').a, t == g(ip, U(est, 'SerderKERI'), 'tholder').t, valid.t, ctx.toU(r) == ctx.toU(a['sigers']))
                  for s, v, t, r, valid in st['checked']]
            p('signatures_verify_and_meet_the_threshold_of_that_key_state', z3.Or(*ok) if ok else z3.BoolVal(False))
        p('carries_signatures', z3.BoolVal(a.get('cigar') is not None or a.get('sigers') is not None))
        ops.setattr_(ip, st['g'], 'eff', B(z3.BoolVal(True)))
        return None

    def escrow(ip, args, kw, f):
        a = bound((), args, kw)
        ip.ctx.prove('held_only_if_not_the_stored_one', z3.Not(same(ip)))
        ops.setattr_(ip, st['g'], 'esc', B(z3.BoolVal(True)))
        return None

    def remove(ip, args, kw, f):
        a = bound(('saider',), args, kw)
        ip.ctx.prove('old_reply_removed_only_for_a_new_one', z3.And(ip.ctx.toU(a['saider']) == ip.ctx.toU(st['osaider']), bt(ip, st['g'].fields['eff']), z3.Not(same(ip))))
        st['removed'].append(1)
        return None

    def validate(ip, args, kw, f):
        ctx = ip.ctx
        a = dict(zip(('serder', 'sigers', 'verfers', 'tholder'), args))
        a.update(kw)
        if ctx.choose(2, 'validateSigs raises') == 1:
            raise PyRaise(ValidationError)
        v = B(ctx.fresh('valid', BOOL))
        r = U(ctx.fresh('verified', US), 'Sigs')
        ctx.assume(truthyF(r.t))
        st['checked'].append((ctx.toU(a['serder']), ops.to_L(ip, a['verfers'], 'U').a, ctx.toU(a['tholder']), r, v))
        return (r, v)

    def trim(ip, args, kw, f):
        keys = kw.get('keys', args[1] if len(args) > 1 else None)
        ip.ctx.prove('only_signatures_of_this_reply_trimmed', ip.ctx.toU(keys[0]) == g(ip, st['saider'], 'qb64').t)
        return None

    def verify(ip, args, kw, f):
        ctx = ip.ctx
        return B(OKV(args[0].t, ctx.toU(kw.get('sig', args[1] if len(args) > 1 else None)), ctx.toU(kw.get('ser', args[2] if len(args) > 2 else None))))

    def inv(lv):
        o = []
        if lv.seq is None:
            return o
        eff = bt(lv.ip, st['g'].fields['eff'])
        for x, b in lv.bools():
            o.append((f'?taken_{x}', bt(lv.ip, b) == eff))
        return o

    def post(ip, out):
        ctx = ip.ctx
        eff = bt(ip, st['g'].fields['eff'])
        if out[0] == 'raise':
            ctx.prove('refused_without_effect', z3.And(z3.Not(eff), z3.BoolVal(not st['removed'])))
            return
        ctx.prove('answers_whether_it_took_effect', bt(ip, wrap(ops.truth(ip, out[1]))) == eff)
        present = truthyF(st['osaider'].t) if isinstance(st['osaider'], U) else z3.BoolVal(False)
        ctx.prove('replaced_exactly_if_another_took_effect', z3.BoolVal(bool(st['removed'])) == z3.And(eff, present, z3.Not(same(ip))))
        for t, op, keys, v in st['writes']:
            ctx.prove('only_its_own_escrow_entry_removed', z3.And(z3.BoolVal((t, op) == ('rpes', 'rem')), samekeys(keys, keyterms(ip, (st['route'],))), ctx.toU(v) == st['saider'].t, eff))

    def sdts(ip, args, kw, f):
        return dbget('sdts', 'Dater')(ip, args, kw, f)
    m = {**DBMODELS, ('meth', 'Sdts', 'get'): sdts, **table(st, 'rpes'), **{k: v for k, v in table(st, 'tsgs').items() if k[2] != 'trim'}, ('meth', 'Tsgs', 'trim'): trim, 'keri.db.dbing:fetchTsgs': lambda ip, args, kw, f: ops.mk_kind(ip, 'list:obj=Tsg', 'stored'),
         ('meth', 'Revery', 'fetchLatestSn'): latest, R0 + 'Revery.fetchLatestSn': latest, R0 + 'Revery.updateReply': update, R0 + 'Revery.escrowReply': escrow, R0 + 'Revery.removeReply': remove,
         E0 + 'validateSigs': validate, ('meth', 'Verfer', 'verify'): verify, 'new:Dater': dater, ('getitem', 'Ked'): lambda ip, o, k: U(z3.Function('ked', US, US, US)(o.t, ip.ctx.toU(k)), 'str')}
    at = {('Baser', x): 'obj:' + x.capitalize() for x in ('sdts', 'kels', 'evts', 'tsgs', 'rpes')}
    at.update({('SerderKERI', 'ked'): 'obj:Ked', ('Dater', 'datetime'): 'real', ('Cigar', 'verfer'): 'obj:Verfer', ('Verfer', 'transferable'): 'bool', ('Number', 'sn'): 'int', ('SerderKERI', 'verfers'): 'list:obj=Verfer',
               ('SerderKERI', 'tholder'): 'obj:Tholder'})
    return Unit('acceptReply', [R + 'Revery.acceptReply'], setup, post, models=m, attrs=at, invariants={'*': inv}, item_types={('Tsg', 0): 'Prefixer', ('Tsg', 1): 'Number', ('Tsg', 2): 'Diger', ('Tsg', 3): 'Sigs'},
                cover=['return', 'raise:Exception'], groups=['replies'])


def recorded(st, ip, want):
    """exactly these writes: (table, operation, keys, value)"""
    ctx = ip.ctx
    w = st['writes']
    if sorted((x[0], x[1]) for x in w) != sorted((x[0], x[1]) for x in want):
        return z3.BoolVal(False)
    cs = []
    for a, b in zip(sorted(w, key=lambda x: x[:2]), sorted(want, key=lambda x: x[:2])):
        cs.append(samekeys(a[2], keyterms(ip, b[2])))
        if b[3] is not None:
            cs.append(one(ip, a[3]) == ctx.toU(b[3]))
    return z3.And(*cs)


def one(ip, v):
    """the value written, alone or as the only one of a list"""
    if isinstance(v, (list, tuple)) and len(v) == 1:
        v = v[0]
    return ip.ctx.toU(v)


def unit_updatereply(fn):
    """a reply is stored, or held, or removed, with its date and the signatures given, under its own digest and nowhere else"""
    from keri.core import routing
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['writes'] = []
        h = HObj(routing.Revery, 'revery', dict(db='obj:Baser'))
        st['a'] = a = dict(saider=ctx.mk('obj:Diger', 'saider'))
        ctx.assume(truthyF(a['saider'].t))
        if fn != 'removeReply':
            a.update(serder=ctx.mk('obj:SerderKERI', 'serder'), dater=ctx.mk('obj:Dater', 'dater'))
            st['which'] = ctx.choose(2, 'signature') if fn == 'updateReply' else 1
            if st['which'] == 0:
                a['cigar'] = ctx.mk('obj:Cigar', 'cigar')
                ctx.assume(truthyF(a['cigar'].t))
            else:
                a.update(prefixer=ctx.mk('obj:Prefixer', 'prefixer'), sigers=ctx.mk('list:U', 'sigers'))
                a.update(dict(seqner=ctx.mk('obj:Number', 'n'), diger=ctx.mk('obj:Diger', 'd')) if fn == 'updateReply' else
                         dict(snumber=ctx.mk('obj:Number', 'n'), sdiger=ctx.mk('obj:Diger', 'd'), route=ctx.mk('str', 'route')))
        return getattr(routing.Revery, fn), [h], a

    def post(ip, out):
        ctx = ip.ctx
        a = st['a']
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        said = ops.getattr_(ip, a['saider'], 'qb64')
        if fn == 'removeReply':
            ctx.prove('all_of_this_reply_and_nothing_else', recorded(st, ip, [(t, o, k, None) for t, o, k in (('tsgs', 'trim', (said, '')), ('scgs', 'rem', (said,)), ('rpys', 'rem', (said,)), ('sdts', 'rem', (said,)))]))
            return
        want = [('sdts', 'put', (said,), a['dater']), ('rpys', 'put', (said,), a['serder'])]
        if 'cigar' in a:
            want.append(('scgs', 'put', (said,), (ops.getattr_(ip, a['cigar'], 'verfer'), a['cigar'])))
        else:
            n, d = (a['seqner'], a['diger']) if fn == 'updateReply' else (a['snumber'], a['sdiger'])
            sn = ops.fstring(ip, [ops.getattr_(ip, n, 'sn')]) if False else None
            k = [w[2] for w in st['writes'] if w[0] == 'tsgs']
            if k:
                g = lambda o, x: ops.getattr_(ip, o, x)
                ctx.prove('signatures_under_reply_signer_number_and_digest', z3.And(z3.BoolVal(len(k) == 1 and len(k[0]) == 4), k[0][0] == kn(said.t), k[0][1] == kn(g(a['prefixer'], 'qb64').t), k[0][3] == kn(g(d, 'qb64').t)))
                v = [w for w in st['writes'] if w[0] == 'tsgs'][0]
                ctx.prove('signatures_as_given', z3.And(ctx.toU(v[3]) == ctx.toU(a['sigers']), z3.BoolVal(v[1] == ('pin' if fn == 'updateReply' else 'put'))))
            st['writes'] = [w for w in st['writes'] if w[0] != 'tsgs']
            ctx.prove('signatures_stored_if_any', z3.BoolVal(bool(k)) == (a['sigers'].n > 0))
            if fn == 'escrowReply':
                if not k:
                    want = []
                else:
                    want.append(('rpes', 'put', (a['route'],), a['saider']))
        ctx.prove('reply_and_date_under_its_digest_and_nothing_else', recorded(st, ip, want))
    m = {}
    for t in ('sdts', 'rpys', 'scgs', 'tsgs', 'rpes'):
        m.update(table(st, t))
    at = {('Baser', x): 'obj:' + x.capitalize() for x in ('sdts', 'rpys', 'scgs', 'tsgs', 'rpes')}
    at.update({('Cigar', 'verfer'): 'obj:Verfer', ('Number', 'sn'): 'int'})
    return Unit(fn, [R + 'Revery.' + fn], setup, post, models=m, attrs=at, cover=['return'], groups=['replies'])


def unit_fetchlatest():
    """the latest key state whose own signatures on the stored reply verify and meet its threshold"""
    from keri.core import routing
    from keri.kering import ValidationError
    st = {}
    VAL = z3.Function('group_valid', US, US, US, BOOL)          # reply, signatures, establishment event
    RAISES = z3.Function('group_refused', US, US, US, BOOL)
    IT = [z3.Function(f'item{i}', US, US) for i in range(4)]
    q, n = z3.Function('at_qb64', US, US), z3.Function('at_sn', US, INT)
    g = lambda ip, o, x: ops.getattr_(ip, o, x)

    def setup(ip):
        ctx = ip.ctx
        h = HObj(routing.Revery, 'revery', dict(db='obj:Baser'))
        st['saider'], st['aid'] = ctx.mk('obj:Diger', 'saider'), ctx.mk('str', 'aid')
        st['tsgs'] = ops.mk_kind(ip, 'list:obj=Tsg', 'stored')
        ctx.assume(forall(X, n(X) >= 0, pats=[n(X)]))
        return routing.Revery.fetchLatestSn, [h], dict(saider=st['saider'], aid=st['aid'])

    def counted(ip, t):
        """the group counts: of the subject, at an accepted establishment event it names, valid"""
        ctx = ip.ctx
        said = z3.Function('db_kels_last1', US, INT, US)(kn(st['aid'].t), n(IT[1](t)))
        est = z3.Function('db_evts2', US, US, US)(kn(st['aid'].t), kn(q(IT[2](t))))
        rep = dbterm(ip, 'rpys', (g(ip, st['saider'], 'qb64'),))
        return z3.And(q(IT[0](t)) == st['aid'].t, said == q(IT[2](t)), HASK(est), z3.Not(RAISES(rep, IT[3](t), est)), VAL(rep, IT[3](t), est))
    HASK = z3.Function('has_keys', US, BOOL)

    def verfers(ip, o):
        l = z3.Function('keys_of', US, US)(o.t)
        ip.ctx.assume(truthyF(l) == HASK(o.t))
        ip.ctx.assume(z3.Function('event_of_keys', US, US)(l) == o.t)
        return U(l, 'Keys')

    def validate(ip, args, kw, f):
        ctx = ip.ctx
        a = dict(zip(('serder', 'sigers', 'verfers', 'tholder'), args))
        a.update(kw)
        est = z3.Function('event_of_keys', US, US)(ctx.toU(a['verfers']))
        ctx.prove('judged_by_that_events_threshold', ctx.toU(a['tholder']) == z3.Function('at_tholder', US, US)(est))
        if ctx.branch(RAISES(ctx.toU(a['serder']), ctx.toU(a['sigers']), est)):
            raise PyRaise(ValidationError)
        return (U(ctx.fresh('sigers', US)), B(VAL(ctx.toU(a['serder']), ctx.toU(a['sigers']), est)))

    def inv(lv):
        if lv.seq is None:
            return []
        o = []
        ctx = lv.ctx
        el = lambda k: ctx.toU(lv.elem(k))
        for x, t in lv.opts():
            none = t == ctx.injt(None)
            o.append((f'?some_{x}', z3.Or(none, z3.Exists([K], z3.And(rng(K, lv.i), counted(lv.ip, el(K)), t == iU(n(IT[1](el(K)))), uI(t) == n(IT[1](el(K))))))))
            o.append((f'?most_{x}', forall(J, z3.Implies(z3.And(rng(J, lv.i), counted(lv.ip, el(J))), z3.And(z3.Not(none), uI(t) >= n(IT[1](el(J))))))))
        return o

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        l = st['tsgs']
        none = ctx.toU(out[1]) == ctx.injt(None)
        r = uI(ctx.toU(out[1]))
        there = dbterm(ip, 'rpys', (g(ip, st['saider'], 'qb64'),)) != ctx.injt(None)
        ctx.prove('of_a_verified_group', z3.Or(none, z3.Exists([K], z3.And(rng(K, l.n), counted(ip, sel(l, K)), r == n(IT[1](sel(l, K)))))))
        ctx.prove('the_latest', z3.Implies(there, forall(J, z3.Implies(z3.And(rng(J, l.n), counted(ip, sel(l, J))), z3.And(z3.Not(none), r >= n(IT[1](sel(l, J))))))))
    m = {**DBMODELS, ('meth', 'Rpys', 'get'): dbget('rpys', 'SerderKERI'), 'keri.db.dbing:fetchTsgs': lambda ip, args, kw, f: st['tsgs'], E0 + 'validateSigs': validate, ('attr', 'SerderKERI', 'verfers'): verfers}
    at = {('Baser', x): 'obj:' + x.capitalize() for x in ('kels', 'evts', 'tsgs', 'rpys')}
    at.update({('Number', 'sn'): 'int'})
    return Unit('fetchLatestSn', [R + 'Revery.fetchLatestSn'], setup, post, models=m, attrs=at, invariants={'*': inv}, item_types={('Tsg', 0): 'Prefixer', ('Tsg', 1): 'Number', ('Tsg', 2): 'Diger', ('Tsg', 3): 'Sigs'},
                cover=['return'], groups=['replies'])


def unit_validatesigs():
    """valid only when the distinct verified positions satisfy the threshold; what is returned verified"""
    from keri.core import eventing
    from keri.kering import ValidationError
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['verified'] = []
        st['serder'], st['sigers'], st['verfers'], st['th'] = ctx.mk('obj:SerderKERI', 'serder'), _lo(ctx, 'Siger', 'sigers'), _lo(ctx, 'Verfer', 'verfers'), ctx.mk('obj:Tholder', 'th')
        return eventing.validateSigs, [], dict(serder=st['serder'], sigers=st['sigers'], verfers=st['verfers'], tholder=st['th'])

    def post(ip, out):
        ctx = ip.ctx
        if out[0] == 'raise':
            return
        r, valid = out[1]
        r = ops.to_L(ip, r, 'U')
        raw = ops.getattr_(ip, st['serder'], 'raw').t
        cs = [z3.And(c[0] == raw, c[1].a == st['sigers'].a, c[2].a == st['verfers'].a, c[3].a == r.a, ops.zi(c[3].n) == ops.zi(r.n), bt(ip, valid) == SATF(ip, st['th'], c[4])) for c in st['verified']]
        ctx.prove('valid_exactly_if_verified_positions_satisfy', z3.Or(*cs) if cs else z3.BoolVal(False))
        ctx.prove('threshold_reachable', st['verfers'].n >= ops.getattr_(ip, st['th'], 'size').t)
    gm = gate_models(st)
    m = {k: gm[k] for k in (E0 + 'verifySigs', ('meth', 'Tholder', 'satisfy'))}
    return Unit('validateSigs', [E + 'validateSigs'], setup, post, models=m, attrs={('Tholder', 'size'): 'int'}, cover=['return', 'raise:ValidationError'], groups=['replies'])


def units_c17():
    return [unit_acceptreply(), unit_updatereply('updateReply'), unit_updatereply('escrowReply'), unit_updatereply('removeReply'), unit_fetchlatest(), unit_validatesigs()]


def units_c18():
    return [unit_update('updateEnd', 'eans', 'ends', 'EndpointRecord', 'allowed', 'allowed'), unit_update('updateLoc', 'lans', 'locs', 'LocationRecord', 'url', 'url'),
            unit_reply('processReplyEndRole', 'updateEnd', 'eans', ['/end/role/add', '/end/role/cut'], ('cid', 'role', 'eid'), '/end/role'),
            unit_reply('processReplyLocScheme', 'updateLoc', 'lans', ['/loc/scheme'], ('eid', 'scheme', 'url'), '/loc/scheme')]
