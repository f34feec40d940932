"""Proof units on the functions that accept key events."""
from .pv import *

E = 'src/keri/core/eventing.py:'
C = 'src/keri/core/coring.py:'
OK = z3.Function('sig_ok', US, US, US, BOOL)          # verification key, signature, bytes: the signature verifies
IDX = z3.Function('at_index', US, INT)
RAW = z3.Function('at_raw', US, US)
QB = z3.Function('at_qb64', US, US)
SG = z3.Function('siger_of', US, US)


def each(lv, nm, P, ek='U'):
    """candidate: every element of any list the loop builds satisfies P"""
    return [(f'?{nm}_{x}', forall(J, z3.Implies(rng(J, ops.zi(l.n)), P(sel(l, J))))) for x, l in lv.lists(ek)]


def distinct(l):
    return forall([J, K], z3.Implies(z3.And(rng(J, ops.zi(l.n)), rng(K, ops.zi(l.n)), J != K), sel(l, J) != sel(l, K)))


def isin(l, t, v=M):
    return z3.Exists([v], z3.And(rng(v, ops.zi(l.n)), sel(l, v) == t))


def mset(ip, l):
    """the set of the elements of a list"""
    return ops.s_of_l(ip, ops.to_L(ip, l)).a


def dist(ip, l):
    """no element occurs twice in the list"""
    l = ops.to_L(ip, l)
    return ops.card(ip, ops.s_of_l(ip, l)) == ops.zi(l.n)


def listv(ip, v, ek):
    return ops.to_L(ip, v, ek)


# ---------------------------------------------------------------- verifySigs
def siger_models(st):
    def new(ip, args, kw, cls):
        q = ip.ctx.toU(kw.get('qb64', kw.get('qb64b', args[0] if args else None)))
        t = SG(q)
        ip.ctx.assume(z3.And(QB(t) == q, IDX(t) >= 0, truthyF(t)))
        return U(t, 'Siger')

    def verify(ip, args, kw, f):
        a = list(args[1:])
        sig = a[0] if a else kw['sig']
        ser = a[1] if len(a) > 1 else kw['ser']
        return B(OK(args[0].t, ip.ctx.toU(sig), ip.ctx.toU(ser)))
    return {'new:Siger': new, ('meth', 'Verfer', 'verify'): verify}


def unit_verifysigs():
    from keri.core import eventing
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['raw'] = ctx.mk('bytes', 'raw')
        st['sigers'] = s = ops.mk_kind(ip, 'list:obj=Siger', 'sigers')
        st['verfers'] = ops.mk_kind(ip, 'list:obj=Verfer', 'verfers')
        ctx.assume(forall(J, z3.Implies(rng(J, s.n), z3.And(sel(s, J) == SG(QB(sel(s, J))), IDX(sel(s, J)) >= 0, truthyF(sel(s, J))))))
        return eventing.verifySigs, [st['raw'], st['sigers'], st['verfers']], {}

    def good(t):
        v = st['verfers']
        return z3.And(IDX(t) >= 0, IDX(t) < v.n, OK(sel(v, IDX(t)), RAW(t), st['raw'].t))

    def inv(lv):
        if lv.seq is None:
            return []
        v = st['verfers']
        mem = lv.ctx.mems['verfer'].a
        o = []
        o += each(lv, 'range', lambda t: z3.And(IDX(t) >= 0, IDX(t) < v.n))
        o += each(lv, 'key', lambda t: z3.Select(mem, t) == sel(v, IDX(t)))
        o += each(lv, 'good', good)
        o += each(lv, 'given', lambda t: isin(st['sigers'], t))
        o += [(f'?unique_{x}', distinct(l)) for x, l in lv.lists('int')]
        o += [(f'?goodidx_{x}', forall(J, z3.Implies(rng(J, ops.zi(l.n)), z3.Exists([K], z3.And(rng(K, st['sigers'].n), good(sel(st['sigers'], K)), IDX(sel(st['sigers'], K)) == sel(l, J))))))
              for x, l in lv.lists('int')]
        el = lambda k: lv.ctx.toU(lv.elem(k))
        for x, l in lv.lists('U'):
            o.append((f'?all_{x}', forall(J, z3.Implies(z3.And(rng(J, lv.i), z3.And(IDX(el(J)) >= 0, IDX(el(J)) < v.n)), isin(l, el(J))))))
            o.append((f'?allgood_{x}', forall(J, z3.Implies(z3.And(rng(J, lv.i), good(el(J))), isin(l, el(J))))))
        for x, l in lv.lists('int'):
            o.append((f'?allidx_{x}', forall(J, z3.Implies(z3.And(rng(J, lv.i), good(el(J))), isin(l, IDX(el(J)))))))
        return o

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        vs, vi = listv(ip, out[1][0], 'U'), listv(ip, out[1][1], 'int')
        s, v = st['sigers'], st['verfers']
        mem = ctx.mems['verfer'].a
        ctx.prove('returned_signatures_verify', forall(J, z3.Implies(rng(J, vs.n), z3.And(good(sel(vs, J)), z3.Select(mem, sel(vs, J)) == sel(v, IDX(sel(vs, J)))))))
        ctx.prove('indices_distinct', distinct(vi))
        ctx.prove('indices_only_of_verified', forall(J, z3.Implies(rng(J, vi.n), z3.Exists([K], z3.And(rng(K, s.n), good(sel(s, K)), IDX(sel(s, K)) == sel(vi, J))))))
        ctx.prove('every_verified_index_counts', forall(J, z3.Implies(z3.And(rng(J, s.n), good(sel(s, J))), isin(vi, IDX(sel(s, J))))))
        ctx.prove('every_verified_signature_returned', forall(J, z3.Implies(z3.And(rng(J, s.n), good(sel(s, J))), isin(vs, sel(s, J)))))
    return Unit('verifySigs', [E + 'verifySigs'], setup, post, models=siger_models(st), heap_attrs={'verfer': 'obj:Verfer'}, invariants={'*': inv},
                elem_kinds={'vindices': 'int', 'indices': 'int'}, cover=['return'], groups=['signatures'])


# ---------------------------------------------------------------- deriveBacks, exposeds
def subset(a, b, v=K):
    return forall(J, z3.Implies(rng(J, ops.zi(a.n)), z3.Exists([v], z3.And(rng(v, ops.zi(b.n)), sel(b, v) == sel(a, J)))))


def disjoint(a, b):
    return forall([J, K], z3.Implies(z3.And(rng(J, ops.zi(a.n)), rng(K, ops.zi(b.n))), sel(a, J) != sel(b, K)))


def kever(ip, **schema):
    from keri.core.eventing import Kever
    base = dict(wits='list:str', cuts='list:str', adds='list:str', ndigers=lambda c, n: _lo(c, 'Diger', n), verfers=lambda c, n: _lo(c, 'Verfer', n), sner='obj:Number',
                serder='obj:SerderKERI', ilk='str', tholder='obj:Tholder', ntholder='obj:Tholder', toader='obj:Number', delpre='opt:str', prefixer='obj:Prefixer',
                delegated='bool', estOnly='bool', doNotDelegate='bool', db='obj:Baser', fner='obj:Number', dater='obj:Dater', cues='U', lastEst='obj:LastEstLoc')
    base.update(schema)
    h = HObj(Kever, 'kever', base)
    for k in base:
        ops.getattr_(ip, h, k)
    return h


def _lo(c, ty, n):
    l = c.mk('list:U', n)
    l.ecls = ty
    return l


def unit_derivebacks():
    from keri.core import eventing
    from keri.kering import ValidationError
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['k'] = kever(ip)
        st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
        st['given'] = ctx.choose(2, 'wits given') == 0
        st['wits'] = ctx.mk('list:str', 'wits') if st['given'] else st['k'].fields['wits']
        ctx.assume(dist(ip, st['wits']))
        st['old'] = {x: st['k'].fields[x].copy() for x in ('wits', 'cuts', 'adds')}
        st['cuts'], st['adds'] = ops.getattr_(ip, st['serder'], 'cuts'), ops.getattr_(ip, st['serder'], 'adds')
        return eventing.Kever.deriveBacks, [st['k'], st['serder']], dict(wits=st['wits']) if st['given'] else {}

    def same(ip, a, b):
        l = ops.to_L(ip, a)
        return z3.And(ops.zi(l.n) == ops.zi(b.n), forall(J, z3.Implies(rng(J, ops.zi(b.n)), sel(l, J) == sel(b, J))))

    def post(ip, out):
        ctx = ip.ctx
        cuts, adds, w = st['cuts'], st['adds'], st['wits']
        C, A, W = mset(ip, cuts), mset(ip, adds), mset(ip, w)
        none = z3.EmptySet(US)
        ilk = ops.getattr_(ip, st['serder'], 'ilk').t
        rotation = z3.Or(ilk == ctx.injt('rot'), ilk == ctx.injt('drt'))
        sn = ops.getattr_(ip, st['serder'], 'sn').t
        at = ops.getattr_(ip, st['k'].fields['lastEst'], 's').t
        derive = z3.BoolVal(True) if st['given'] else z3.And(rotation, at < sn)
        ok = z3.And(dist(ip, cuts), dist(ip, adds), z3.IsSubset(C, W), z3.SetIntersect(C, A) == none, z3.SetIntersect(W, A) == none)
        for x in ('wits', 'cuts', 'adds'):
            ctx.prove(f'state_{x}_unchanged', same(ip, st['k'].fields[x], st['old'][x]))
        if out[0] == 'raise':
            ctx.prove('refused_only_if_wrong', z3.And(issubclass(out[1], ValidationError), derive, z3.Not(ok)))
            return
        r, rc, ra = [ops.to_L(ip, x) for x in out[1]]
        if not st['given'] and ctx.branch(z3.Not(derive)):
            ctx.prove('already_in_force', z3.And(same(ip, r, st['old']['wits']), same(ip, rc, st['old']['cuts']), same(ip, ra, st['old']['adds'])))
            return
        n = w.n - cuts.n + adds.n
        keep = w.n - cuts.n
        ctx.prove('accepted_only_if_right', ok)
        ctx.assume(ok)
        ctx.prove('no_repetitions', dist(ip, r))
        ctx.prove('size', ops.zi(r.n) == n)
        ctx.prove('members', mset(ip, r) == z3.SetUnion(z3.SetDifference(W, C), A))
        q = ctx.fresh('q', INT)
        ctx.assume(rng(q, adds.n))
        ctx.lemma('adds_at_end', sel(adds, q) == sel(r, ops.zi(r.n) - adds.n + q))
        ctx.prove('adds_at_end_in_order', sel(r, keep + q) == sel(adds, q))
        ctx.prove('cuts_and_adds', z3.And(same(ip, rc, cuts), same(ip, ra, adds)))
    return Unit('deriveBacks', [E + 'Kever.deriveBacks'], setup, post, attrs={('LastEstLoc', 's'): 'int'}, cover=['return', 'raise'], groups=['witnesses'])


DIGEST = z3.Function('digest', US, US, US)     # serialization, code


def unit_exposeds():
    from keri.core import eventing
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['k'] = kever(ip)
        st['sigers'] = _lo(ctx, 'Siger', 'sigers')
        st['given'] = ctx.choose(2, 'digests given') == 0
        st['nd'] = _lo(ctx, 'Diger', 'ndigers') if st['given'] else st['k'].fields['ndigers']
        return eventing.Kever.exposeds, [st['k'], st['sigers']], dict(ndigers=st['nd']) if st['given'] else {}

    def diger(ip, args, kw, cls):
        d = U(ip.ctx.fresh('diger', US) if not ip.ctx.quiet else z3.Function('diger_of', US, US, US)(ip.ctx.toU(kw['ser']), ip.ctx.toU(kw['code'])), 'Diger')
        ip.ctx.assume(z3.Function('at_qb64', US, US)(d.t) == DIGEST(ip.ctx.toU(kw['ser']), ip.ctx.toU(kw['code'])))
        return d
    OD = z3.Function('at_ondex', US, US)
    q = z3.Function('at_qb64', US, US)
    code = z3.Function('at_code', US, US)
    vf = z3.Function('at_verfer', US, US)
    qb = z3.Function('at_qb64b', US, US)

    def ondex(ip, o):
        """an index, or None for a signature that carries no other index"""
        t = OD(o.t)
        if ip.ctx.branch(t == ip.ctx.injt(None)):
            return None
        ip.ctx.assume(z3.And(uI(t) >= 0, iU(uI(t)) == t))
        return I(uI(t))

    def exposed(ip, s):
        t = OD(s)
        i = uI(t)
        d = sel(st['nd'], i)
        return z3.And(t != ip.ctx.injt(None), i >= 0, i < st['nd'].n, DIGEST(qb(vf(s)), code(d)) == q(d))

    def inv(lv):
        if lv.seq is None:
            return []
        o = []
        el = lambda k: lv.ctx.toU(lv.elem(k))
        for x, l in lv.lists('int'):
            o.append((f'?only_{x}', forall(J, z3.Implies(rng(J, ops.zi(l.n)), z3.Exists([K], z3.And(rng(K, lv.i), exposed(lv.ip, el(K)), uI(OD(el(K))) == sel(l, J)))))))
            o.append((f'?all_{x}', forall(J, z3.Implies(z3.And(rng(J, lv.i), exposed(lv.ip, el(J))), isin(l, uI(OD(el(J))))))))
        return o

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        l, s = ops.to_L(ip, out[1], 'int'), st['sigers']
        ctx.prove('only_committed_keys', forall(J, z3.Implies(rng(J, ops.zi(l.n)), z3.Exists([K], z3.And(rng(K, s.n), exposed(ip, sel(s, K)), uI(OD(sel(s, K))) == sel(l, J))))))
        ctx.prove('all_committed_keys', forall(J, z3.Implies(z3.And(rng(J, s.n), exposed(ip, sel(s, J))), isin(l, uI(OD(sel(s, J)))))))
    return Unit('exposeds', [E + 'Kever.exposeds'], setup, post, models={'new:Diger': diger, ('attr', 'Siger', 'ondex'): ondex}, attrs={('Siger', 'verfer'): 'obj:Verfer'},
                invariants={'*': inv}, elem_kinds={'odxs': 'int', 'ondices': 'int', 'indices': 'int'}, cover=['return'], groups=['exposure'])


def unit_ample():
    from keri.core import eventing

    def setup(ip):
        n, f = ip.ctx.mk('int', 'n'), None
        if ip.ctx.choose(2, 'f') == 1:
            f = ip.ctx.mk('int', 'f')
        weak = ip.ctx.mk('bool', 'weak')
        setup.v = n, f, weak
        return eventing.ample, [n], dict(f=f, weak=weak)

    def post(ip, out):
        n, f, weak = setup.v
        N = z3.If(n.t > 0, n.t, 0)
        if out[0] == 'raise':
            F = z3.If(f.t > 0, f.t, 0)
            ip.ctx.prove('refused_only_if_faults_too_many', z3.And(issubclass(out[1], ValueError), N > 0, N < 3 * F + 1))
            return
        m = ip.ctx.int_t(out[1])
        ip.ctx.prove('within_witnesses', z3.And(m >= 0, m <= N))
        if f is None:
            F = (N - 1) / 3      # most faults N witnesses may have
            ip.ctx.prove('majority_despite_faults', z3.Implies(N > 0, z3.And(2 * m >= N + F + 1, m >= 1)))
            ip.ctx.prove('reachable_despite_faults', z3.Implies(z3.And(N > 0, F > 0), m <= N - F))
        else:
            F = z3.If(f.t > 0, f.t, 0)
            ip.ctx.prove('majority_despite_faults', z3.Implies(N > 0, 2 * m >= N + F + 1))
            ip.ctx.prove('reachable_despite_faults', z3.Implies(N > 0, m <= N - F))
    return Unit('ample', [E + 'ample'], setup, post, cover=['return', 'raise'], groups=['witnesses'])


# ---------------------------------------------------------------- acceptance gates
def SATF(ip, th, l):
    """threshold satisfied by the indices in a list (contract of Tholder.satisfy, decided in C07)"""
    l = ops.to_L(ip, l, 'int')
    f = z3.Function('satisfies', US, z3.ArraySort(INT, INT), INT, BOOL)
    return f(ip.ctx.toU(th), l.a, ops.zi(l.n))


def gate_models(st):
    """callees of the acceptance functions, by contract"""
    def verify_sigs(ip, args, kw, f):
        ctx = ip.ctx
        raw, sigers, verfers = [kw[x] if x in kw else args[i] for i, x in enumerate(('raw', 'sigers', 'verfers'))]
        given = ops.to_L(ip, sigers if sigers is not None else [], 'U')
        keys = ops.to_L(ip, verfers, 'U')
        vs, vi = _lo(ctx, 'Siger', 'verified'), ctx.mk('list:int', 'indices')
        ctx.assume(distinct(vi))
        ctx.assume(forall(J, z3.Implies(rng(J, vi.n), rng(sel(vi, J), keys.n))))
        st['verified'].append((ctx.toU(raw), given, keys, vs, vi))
        return (vs, vi)

    def satisfy(ip, args, kw, f):
        return B(SATF(ip, args[0], args[1] if len(args) > 1 else kw['indices']))

    def exposeds(ip, args, kw, f):
        nd = kw['ndigers'] if 'ndigers' in kw else (args[2] if len(args) > 2 else st['k'].fields['ndigers'])
        od = ip.ctx.mk('list:int', 'ondices')
        st['exposed'].append((ops.to_L(ip, args[1], 'U'), ops.to_L(ip, nd, 'U'), od))
        return od

    def committed(ip, args, kw, f):
        if ip.ctx.choose(2, 'fetchCommitted raises') == 1:
            from keri.kering import ValidationError
            raise PyRaise(ValidationError)
        return (st['cndigers'], st['cntholder'], st['cwits'])

    def delegation(ip, args, kw, f):
        from keri.kering import ValidationError, MissingDelegationError
        st['delegation'].append((args, kw))
        k = ip.ctx.choose(3, 'validateDelegation')
        if k:
            raise PyRaise([ValidationError, MissingDelegationError][k - 1])
        return (st['dsn'], st['ddg'])
    m = {E0 + 'verifySigs': verify_sigs, ('meth', 'Tholder', 'satisfy'): satisfy, E0 + 'Kever.exposeds': exposeds, E0 + 'Kever.fetchCommitted': committed,
         E0 + 'Kever.validateDelegation': delegation}
    for x in ('escrowMFEvent', 'escrowPSEvent', 'escrowPWEvent', 'escrowPDEvent', 'escrowDelegableEvent'):
        m[E0 + 'Kever.' + x] = lambda ip, args, kw, f, x=x: st['escrowed'].append(x) or None
    return m


E0 = 'keri.core.eventing:'


def gate_state(ip, st, **kw):
    ctx = ip.ctx
    st['verified'], st['exposed'], st['delegation'], st['escrowed'] = [], [], [], []
    st['k'] = kever(ip, prefixes='set:str', groups='set:str', **kw)
    st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
    st['cndigers'], st['cntholder'], st['cwits'] = _lo(ctx, 'Diger', 'cndigers'), ctx.mk('obj:Tholder', 'cntholder'), ctx.mk('list:str', 'cwits')
    st['dsn'], st['ddg'] = ops.mk_kind(ip, 'opt:obj:Number', 'dsn'), ops.mk_kind(ip, 'opt:obj:Diger', 'ddg')
    st['old'] = dict(st['k'].fields)


def unchanged(ip, st):
    """every field of the key state is what it was"""
    k = st['k']
    cs = []
    for n, v in st['old'].items():
        w = k.fields.get(n)
        if w is v and not isinstance(v, (L, S)):
            continue
        if isinstance(v, (L, S)):
            cs.append(z3.BoolVal(w is v))      # in place changes are tracked by snapshots below
        else:
            cs.append(bt(ip, wrap(ops.is_(ip, w, v))) if w is not None and v is not None else z3.BoolVal(w is v))
    for n, c in st.get('snap', {}).items():
        w = k.fields.get(n)
        cs.append(z3.And(ops.zi(w.n) == ops.zi(c.n), w.a == c.a) if isinstance(w, L) else z3.BoolVal(False))
    return z3.And(*cs) if cs else z3.BoolVal(True)


def wrap(c):
    return c if isinstance(c, bool) else B(c)


def unit_valsigs():
    from keri.core import eventing
    st = {}
    none = lambda ip, v: z3.BoolVal(v is None) if not isinstance(v, U) else v.t == ip.ctx.injt(None)

    def setup(ip):
        ctx = ip.ctx
        gate_state(ip, st)
        st['sigers'], st['wigers'] = _lo(ctx, 'Siger', 'sigers'), _lo(ctx, 'Siger', 'wigers')
        st['given'] = st['sigers'].copy()
        st['verfers'], st['tholder'], st['toader'], st['wits'] = _lo(ctx, 'Verfer', 'vs'), ctx.mk('obj:Tholder', 'th'), ctx.mk('obj:Number', 'toader'), ctx.mk('list:str', 'ws')
        st['delsner'], st['delsger'] = ops.mk_kind(ip, 'opt:obj:Number', 'delsner'), ops.mk_kind(ip, 'opt:obj:Diger', 'delsger')
        st['snap'] = {n: st['k'].fields[n].copy() for n in ('wits', 'cuts', 'adds', 'ndigers', 'verfers')}
        return eventing.Kever.valSigsWigsDel, [st['k'], st['serder'], st['sigers'], st['verfers'], st['tholder'], st['wigers'], st['toader'], st['wits']], \
            dict(delsner=st['delsner'], delsger=st['delsger'], eager=ctx.mk('bool', 'eager'), local=ctx.mk('bool', 'local'))

    def post(ip, out):
        ctx = ip.ctx
        k, s = st['k'], st['serder']
        ctx.prove('state_unchanged', unchanged(ip, st))
        if out[0] == 'raise':
            return
        raw = ctx.toU(ops.getattr_(ip, s, 'raw'))
        ilk = ops.getattr_(ip, s, 'ilk').t
        pre = ops.getattr_(ip, k.fields['prefixer'], 'qb64').t
        is_ = lambda *x: z3.Or(*[ilk == ctx.injt(i) for i in x])
        th, toad = ctx.toU(st['tholder']), ops.getattr_(ip, st['toader'], 'num').t
        kv = st['verfers']
        mine = [c for c in st['verified']]
        own = z3.Or(*[z3.And(c[0] == raw, c[2].a == kv.a, ops.zi(c[2].n) == kv.n, SATF(ip, st['tholder'], c[4])) for c in mine] or [z3.BoolVal(False)])
        ctx.prove('own_signatures_satisfy_own_threshold', own)
        ctx.prove('threshold_reachable', kv.n >= ops.getattr_(ip, st['tholder'], 'size').t)
        r = ops.to_L(ip, out[1][0], 'U')
        ctx.prove('only_verified_signatures_returned', z3.Or(*[z3.And(c[0] == raw, c[2].a == kv.a, ops.zi(c[2].n) == kv.n, c[3].a == r.a, ops.zi(c[3].n) == ops.zi(r.n)) for c in mine] or [z3.BoolVal(False)]))
        committed = z3.Or(*[z3.And(nd.a == st['cndigers'].a, ops.zi(nd.n) == ops.zi(st['cndigers'].n), SATF(ip, st['cntholder'], od),
                                   z3.Or(*[z3.And(sg.a == c[3].a, ops.zi(sg.n) == ops.zi(c[3].n), c[0] == raw) for c in mine])) for sg, nd, od in st['exposed']] or [z3.BoolVal(False)])
        ctx.prove('rotation_keys_satisfy_prior_commitment', z3.Implies(is_('rot', 'drt'), committed))
        w = st['wits']
        pfx, grp = k.fields['prefixes'].a, k.fields['groups'].a
        owned = z3.And(z3.Select(pfx, pre), z3.Not(z3.Select(grp, pre)))
        member = z3.Select(grp, pre)
        x = z3.Const('w?', US)
        witd = z3.SetIntersect(pfx, z3.If(w.n > 0, mset(ip, w), mset(ip, k.fields['wits']))) != z3.EmptySet(US)
        # distinct verified witness signatures
        VF = lambda t: z3.Function('witness_key', US, US)(t)
        wc = [c for c in mine if c[2].n is not None]
        enough = z3.Or(*[z3.And(c[0] == raw, ops.zi(c[2].n) == w.n, forall(J, z3.Implies(rng(J, w.n), sel(c[2], J) == VF(sel(w, J)))), ops.zi(c[4].n) >= toad) for c in wc] or [z3.BoolVal(False)])
        ctx.prove('no_witnesses_no_threshold', z3.Implies(w.n == 0, toad == 0))
        exempt = z3.Or(owned, member, witd)
        ctx.prove('witness_threshold_met', z3.Implies(z3.And(w.n > 0, z3.Not(exempt)), z3.And(toad >= 1, toad <= w.n, enough)))
        ctx.prove('delegation_checked', len(st['delegation']) == 1)
        if st['delegation']:
            a, kw = st['delegation'][0]
            dp = kw.get('delpre', a[5] if len(a) > 5 else None)
            want = lambda t: (ctx.toU(dp) == ctx.toU(t)) if dp is not None and t is not None else z3.BoolVal(dp is None and t is None)
            ctx.prove('delegator_of_inception_is_named_by_it', z3.Implies(is_('dip'), want(ops.getattr_(ip, s, 'delpre'))))
            ctx.prove('delegator_of_rotation_is_fixed_by_inception', z3.Implies(is_('drt'), want(k.fields['delpre'])))
            ctx.prove('delegated_inception_names_delegator', z3.Implies(is_('dip'), bt(ip, ops.getattr_(ip, s, 'delpre'))))
            ctx.prove('event_checked_is_this_one', ctx.toU(a[1] if len(a) > 1 else kw['serder']) == s.t)
            ctx.prove('seal_is_the_validated_one', z3.And(ctx.toU(out[1][3]) == st['dsn'].t, ctx.toU(out[1][4]) == st['ddg'].t))

    def verfer(ip, args, kw, cls):
        q = ip.ctx.toU(kw.get('qb64', args[0] if args else None))
        t = z3.Function('witness_key', US, US)(q)
        ip.ctx.assume(truthyF(t))
        return U(t, 'Verfer')
    m = gate_models(st)
    m['new:Verfer'] = verfer
    return Unit('valSigsWigsDel', [E + 'Kever.valSigsWigsDel', E + 'Kever.locallyOwned', E + 'Kever.locallyMembered', E + 'Kever.locallyWitnessed', E + 'Kever.locallyDelegated'], setup, post,
                models=m, attrs={('Number', 'num'): 'int', ('SerderKERI', 'delpre'): 'str'}, opaque=['locallyContributedIndices'], kinds={'locallyContributedIndices': 'list:int', E0 + 'Kever.locallyContributedIndices': 'list:int'},
                cover=['return', 'raise:MissingSignatureError', 'raise:MissingWitnessSignatureError', 'raise:ValidationError'], groups=['acceptance'])


# ---------------------------------------------------------------- what is read from the database
def kn(t):
    """database keys: text and its utf-8 bytes are the same key"""
    while z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ('enc', 'dec'):
        t = t.arg(0)
    return t


def encoded(name):
    """bytes form of a text attribute"""
    def h(ip, o):
        return ops._encode(ip, U(z3.Function('at_' + name, US, US)(o.t), 'str'), [], {})
    return h


def keyterms(ip, keys):
    if isinstance(keys, (tuple, list)):
        return [kn(ip.ctx.toU(x)) for x in keys]
    return [kn(ip.ctx.toU(keys))]


def dbget(name, ty, kind='obj'):
    """a read of a table: some value fixed by table, key and ordinal, or None"""
    def h(ip, args, kw, f):
        ctx = ip.ctx
        a = list(args[1:])
        keys = kw.get('keys', a[0] if a else None)
        on = kw.get('on', a[1] if len(a) > 1 else None)
        t = dbterm(ip, name, keys, on)
        ctx.assume(truthyF(t) == (t != ctx.injt(None)))
        return U(t, ty)
    return h


def dbterm(ip, name, keys, on=None):
    ks = keyterms(ip, keys)
    if on is not None:
        f = z3.Function('db_' + name + str(len(ks)), *([US] * len(ks)), INT, US)
        return f(*ks, ip.ctx.int_t(on))
    f = z3.Function('db_' + name + str(len(ks)), *([US] * len(ks)), US)
    return f(*ks)


CMP = z3.Function('says', US, US, BOOL)       # the event's digest is this (under the digest's own algorithm)


def compare(ip, args, kw, f):
    return B(CMP(args[0].t, ip.ctx.toU(kw.get('said', args[1] if len(args) > 1 else None))))


DBATTRS = {('Baser', 'kels'): 'obj:Kels', ('Baser', 'evts'): 'obj:Evts', ('Baser', 'wits'): 'obj:Wits', ('Baser', 'fons'): 'obj:Fons', ('Baser', 'aess'): 'obj:Aess',
           ('SerderKERI', 'bner'): 'obj:Number', ('Number', 'num'): 'int', ('SerderKERI', 'delpre'): 'str', ('LastEstLoc', 's'): 'int', ('LastEstLoc', 'd'): 'str',
           ('SerderKERI', 'ndigers'): 'list:obj=Diger', ('Number', 'positive'): 'bool', ('Number', 'inceptive'): 'bool'}
DBMODELS = {('meth', 'Kels', 'getLast'): dbget('kels_last', None), ('meth', 'Evts', 'get'): dbget('evts', 'SerderKERI'), ('meth', 'Fons', 'get'): dbget('fons', 'Number'),
            ('meth', 'SerderKERI', 'compare'): compare, ('attr', 'SerderKERI', 'preb'): encoded('pre'), ('attr', 'SerderKERI', 'saidb'): encoded('said')}


def unit_rotate():
    from keri.core import eventing
    from keri.kering import ValidationError
    st = {}

    def setup(ip):
        gate_state(ip, st)
        st['backs'] = []
        st['snap'] = {n: st['k'].fields[n].copy() for n in ('wits', 'cuts', 'adds', 'ndigers', 'verfers')}
        return eventing.Kever.rotate, [st['k'], st['serder']], {}

    def backs(ip, args, kw, f):
        ctx = ip.ctx
        if ctx.choose(2, 'deriveBacks raises') == 1:
            raise PyRaise(ValidationError)
        w = kw['wits'] if 'wits' in kw else (args[2] if len(args) > 2 else None)
        r = tuple(ctx.mk('list:str', x) for x in ('wits', 'cuts', 'adds'))
        st['backs'].append((ctx.toU(args[1] if len(args) > 1 else kw['serder']), w, r))
        return r

    def post(ip, out):
        ctx = ip.ctx
        k, s = st['k'], st['serder']
        ctx.prove('state_unchanged', unchanged(ip, st))
        if out[0] == 'raise':
            return
        g = lambda o, n: ops.getattr_(ip, o, n)
        sn, at, est = g(g(s, 'sner'), 'num').t, g(k.fields['sner'], 'num').t, g(k.fields['lastEst'], 's').t
        ilk, prior, pre = g(s, 'ilk').t, g(s, 'prior').t, g(s, 'pre').t
        rot, drt = ilk == ctx.injt('rot'), ilk == ctx.injt('drt')
        said = dbterm(ip, 'kels_last', U(pre, 'str'), I(sn - 1))
        prev = dbterm(ip, 'evts', (U(pre, 'str'), U(said, 'str')))
        ctx.prove('next_number_or_recovery', z3.Or(sn == at + 1, sn <= at))
        ctx.prove('next_event_names_the_last_one', z3.Implies(sn == at + 1, CMP(k.fields['serder'].t, prior)))
        ctx.prove('recovery_after_last_rotation', z3.Implies(z3.And(sn <= at, rot), z3.And(sn > est, k.fields['ilk'].t == ctx.injt('ixn'))))
        ctx.prove('delegated_recovery_not_before_last_rotation', z3.Implies(z3.And(sn <= at, drt), sn >= est))
        for i, c in enumerate((sn >= 1, said != ctx.injt(None), prev != ctx.injt(None), CMP(prev, prior))):
            ctx.prove(f'recovery_names_the_event_it_follows_{i}', z3.Implies(sn <= at, c))
        ctx.prove('rotatable', k.fields['ndigers'].n > 0)
        th, toader, wits, cuts, adds = out[1]
        keys = g(s, 'keys')
        ctx.prove('threshold_reachable', z3.And(ctx.toU(th) == g(s, 'tholder').t, keys.n >= g(th, 'size').t))
        ctx.prove('witness_threshold_is_the_declared_one', ctx.toU(toader) == g(s, 'bner').t)
        num = g(toader, 'num').t
        w = ops.to_L(ip, wits)
        ctx.prove('witness_threshold_in_range', z3.Or(z3.And(ops.zi(w.n) > 0, num >= 1, num <= ops.zi(w.n)), z3.And(ops.zi(w.n) == 0, num == 0)))
        ctx.prove('witnesses_derived_from_committed', z3.Or(*[z3.And(a == s.t, z3.BoolVal(b is st['cwits']), z3.BoolVal(r[0] is wits and r[1] is cuts and r[2] is adds)) for a, b, r in st['backs']] or [z3.BoolVal(False)]))
    m = gate_models(st)
    m.update(DBMODELS)
    m[E0 + 'Kever.deriveBacks'] = backs
    return Unit('rotate', [E + 'Kever.rotate'], setup, post, models=m, attrs=DBATTRS, cover=['return', 'raise:ValidationError'], groups=['chaining'])


def number_models():
    """Number(num=x): the ordinal x stands for; zero is the only ordinal that is not positive"""
    N = z3.Function('ordinal', US, INT)

    def new(ip, args, kw, cls):
        ctx = ip.ctx
        t = ctx.fresh('number', US)
        ctx.assume(truthyF(t))
        ctx.assume(t != ctx.injt(None))
        n = z3.Function('at_num', US, INT)(t)
        ctx.assume(n >= 0)
        src = next((kw[x] for x in ('num', 'sn', 'numh', 'snh') if x in kw), args[0] if args else None)
        if isinstance(src, (int, I)) and not isinstance(src, bool):
            ctx.assume(n == ctx.int_t(src))
        elif src is not None:
            ctx.assume(n == N(ctx.toU(src)))
        return U(t, 'Number')

    def positive(ip, o):
        return B(z3.Function('at_num', US, INT)(o.t) > 0)
    return {'new:Number': new, ('attr', 'Number', 'positive'): positive}, N


def same_list(ip, a, b):
    if a is b:
        return z3.BoolVal(True)
    a, b = ops.to_L(ip, a, getattr(b, 'ek', None)), ops.to_L(ip, b, getattr(a, 'ek', None))
    return z3.And(ops.zi(a.n) == ops.zi(b.n), forall(J, z3.Implies(rng(J, ops.zi(a.n)), sel(a, J) == sel(b, J))))


def unit_incept():
    from keri.core import eventing
    from keri.kering import ValidationError
    st = {}
    nm, N = number_models()

    def setup(ip):
        ctx = ip.ctx
        st['k'] = kever(ip)
        st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
        return eventing.Kever.incept, [st['k'], st['serder']], {}

    def prefixer(ip, args, kw, cls):
        q = ip.ctx.toU(kw.get('qb64', args[0] if args else None))
        t = z3.Function('prefixer_of', US, US)(q)
        ip.ctx.assume(z3.And(truthyF(t), t != ip.ctx.injt(None), z3.Function('at_qb64', US, US)(t) == q))
        return U(t, 'Prefixer')

    def post(ip, out):
        ctx = ip.ctx
        k, s = st['k'], st['serder']
        g = lambda o, n: ops.getattr_(ip, o, n)
        ked = g(s, 'ked')
        wits, data, bt = ops.getitem(ip, ked, 'b'), ops.getitem(ip, ked, 'a'), N(ctx.toU(ops.getitem(ip, ked, 'bt')))
        wn = ops.zi(wits.n)
        ndigs, keys = g(s, 'ndigs'), g(s, 'verfers')
        sn = g(g(s, 'sner'), 'num').t
        tr = g(U(z3.Function('prefixer_of', US, US)(g(s, 'pre').t), 'Prefixer'), 'transferable').t
        size = g(g(s, 'tholder'), 'size').t
        ok = z3.And(sn <= 0, keys.n >= size, z3.Implies(z3.Not(tr), z3.And(ndigs.n == 0, wn == 0, ops.zi(data.n) == 0)), dist(ip, wits),
                    z3.Or(z3.And(wn > 0, bt >= 1, bt <= wn), z3.And(wn == 0, bt == 0)))
        if out[0] == 'raise':
            ctx.prove('refused_only_if_wrong', z3.Not(ok))
            return
        ctx.prove('accepted_only_if_right', ok)
        f = k.fields
        ctx.prove('keys_are_the_event\'s', same_list(ip, f['verfers'], keys))
        ctx.prove('next_key_digests_are_the_event\'s', same_list(ip, f['ndigers'], g(s, 'ndigers')))
        ctx.prove('thresholds_are_the_event\'s', z3.And(ctx.toU(f['tholder']) == g(s, 'tholder').t, ctx.toU(f['ntholder']) == g(s, 'ntholder').t))
        ctx.prove('witnesses_are_the_event\'s', z3.And(same_list(ip, f['wits'], wits), g(f['toader'], 'num').t == bt))
        ctx.prove('no_cuts_or_adds', z3.And(ops.zi(ops.to_L(ip, f['cuts']).n) == 0, ops.zi(ops.to_L(ip, f['adds']).n) == 0))
        ctx.prove('identifier_is_the_event\'s', z3.And(g(f['prefixer'], 'qb64').t == g(s, 'pre').t, ctx.toU(f['serder']) == s.t, ctx.toU(f['sner']) == g(s, 'sner').t))
        ctx.prove('last_establishment_is_it', z3.And(ctx.int_t(f['lastEst'].s) == sn, ctx.toU(f['lastEst'].d) == g(s, 'said').t))
    m = {**DBMODELS, **nm}
    m['new:Prefixer'] = prefixer
    return Unit('incept', [E + 'Kever.incept'], setup, post, models=m, attrs=DBATTRS, keys={'b': 'list:str', 'a': 'list:U', 'k': 'list:str'}, cover=['return', 'raise:ValidationError', 'raise:ValueError'], groups=['chaining'])


def unit_update():
    from keri.core import eventing
    from keri.kering import ValidationError
    st = {}
    nm, N = number_models()
    FIELDS = ('sner', 'serder', 'ilk', 'tholder', 'ntholder', 'verfers', 'ndigers', 'toader', 'wits', 'cuts', 'adds', 'lastEst', 'prefixer', 'delpre', 'delegated')

    def setup(ip):
        ctx = ip.ctx
        gate_state(ip, st)
        st['vals'], st['logs'], st['rots'], st['pins'] = [], [], [], []
        st['sigers'], st['wigers'] = _lo(ctx, 'Siger', 'sigers'), _lo(ctx, 'Siger', 'wigers')
        st['snap'] = {n: st['k'].fields[n].copy() for n in ('wits', 'cuts', 'adds', 'ndigers', 'verfers')}
        st['rot'] = (ctx.mk('obj:Tholder', 'rth'), ctx.mk('obj:Number', 'rtoad'), ctx.mk('list:str', 'rw'), ctx.mk('list:str', 'rc'), ctx.mk('list:str', 'ra'))
        st['vs'] = (_lo(ctx, 'Siger', 'vsig'), _lo(ctx, 'Siger', 'vwig'), U(ctx.fresh('dp', US)), ops.mk_kind(ip, 'opt:obj:Number', 'dsn'), ops.mk_kind(ip, 'opt:obj:Diger', 'ddg'))
        st['fn'] = ops.mk_kind(ip, 'opt:obj:Fn', 'fn')
        st['check'] = ctx.mk('bool', 'check')
        return eventing.Kever.update, [st['k'], st['serder'], st['sigers']], dict(wigers=st['wigers'], local=ctx.mk('bool', 'local'), eager=ctx.mk('bool', 'eager'), check=st['check'])

    def rotate(ip, args, kw, f):
        st['rots'].append(args[1] if len(args) > 1 else kw['serder'])
        if ip.ctx.choose(2, 'rotate raises') == 1:
            raise PyRaise(ValidationError)
        return st['rot']

    def vals(ip, args, kw, f):
        names = ('serder', 'sigers', 'verfers', 'tholder', 'wigers', 'toader', 'wits')
        d = dict(zip(names, args[1:]))
        d.update(kw)
        st['vals'].append((d, len(st['logs'])))
        if ip.ctx.choose(2, 'valSigsWigsDel raises') == 1:
            raise PyRaise(ValidationError)
        return st['vs']

    def log(ip, args, kw, f):
        d = dict(zip(('serder', 'sigers', 'wigers', 'wits', 'first'), args[1:]))
        d.update(kw)
        st['logs'].append((d, len(st['vals'])))
        return (st['fn'], U(ip.ctx.fresh('dts', US), 'str'))

    def post(ip, out):
        ctx = ip.ctx
        k, s = st['k'], st['serder']
        g = lambda o, n: ops.getattr_(ip, o, n)
        old = st['old']
        if out[0] == 'raise':
            ctx.prove('state_unchanged', unchanged(ip, st))
            ctx.prove('nothing_logged', len(st['logs']) == 0)
            return
        ilk = g(s, 'ilk').t
        rot = z3.Or(ilk == ctx.injt('rot'), ilk == ctx.injt('drt'))
        f = k.fields
        sn, at = g(g(s, 'sner'), 'num').t, g(old['sner'], 'num').t
        ctx.prove('kind_of_event', z3.Or(rot, ilk == ctx.injt('ixn')))
        ctx.prove('same_identifier', g(s, 'pre').t == g(old['prefixer'], 'qb64').t)
        ctx.prove('still_rotatable', z3.And(st['snap']['ndigers'].n > 0, g(old['prefixer'], 'transferable').t))
        ctx.prove('validated_then_logged_once', z3.BoolVal(len(st['vals']) == 1 and len(st['logs']) == 1 and st['vals'][0][1] == 0 and st['logs'][0][1] == 1))
        if len(st['vals']) != 1 or len(st['logs']) != 1:
            return
        v, lg = st['vals'][0][0], st['logs'][0][0]
        ctx.prove('this_event_validated_and_logged', z3.And(ctx.toU(v['serder']) == s.t, ctx.toU(lg['serder']) == s.t))
        ctx.prove('verified_signatures_logged', z3.And(same_list(ip, lg['sigers'], st['vs'][0]), same_list(ip, lg['wigers'], st['vs'][1])))
        ctx.prove('signatures_given_are_validated', z3.And(same_list(ip, v['sigers'], st['sigers']), same_list(ip, v['wigers'], st['wigers'])))
        ctx.prove('first_seen_unless_checking', bt(ip, lg.get('first', False)) == z3.Not(st['check'].t))
        ctx.prove('state_is_this_event', z3.And(ctx.toU(f['serder']) == s.t, ctx.toU(f['sner']) == g(s, 'sner').t, ctx.toU(f['ilk']) == ilk))
        if ctx.branch(rot):
            th, toad, w, c, a = st['rot']
            ctx.prove('rotation_gates_passed', z3.BoolVal(len(st['rots']) == 1) if not st['rots'] else ctx.toU(st['rots'][0]) == s.t)
            ctx.prove('delegated_rotates_delegated', z3.Implies(bt(ip, old['delegated']), ilk == ctx.injt('drt')))
            ctx.prove('validated_with_new_keys', z3.And(same_list(ip, v['verfers'], g(s, 'verfers')), ctx.toU(v['tholder']) == th.t, ctx.toU(v['toader']) == toad.t, same_list(ip, v['wits'], w)))
            ctx.prove('new_state', z3.And(same_list(ip, f['verfers'], g(s, 'verfers')), same_list(ip, f['ndigers'], g(s, 'ndigers')), ctx.toU(f['tholder']) == th.t, ctx.toU(f['ntholder']) == g(s, 'ntholder').t,
                                          ctx.toU(f['toader']) == toad.t, same_list(ip, f['wits'], w), same_list(ip, f['cuts'], c), same_list(ip, f['adds'], a)))
            ctx.prove('last_establishment_is_it', z3.And(ctx.int_t(f['lastEst'].s) == sn, ctx.toU(f['lastEst'].d) == g(s, 'said').t))
            ctx.prove('logged_with_new_witnesses', same_list(ip, lg['wits'], w) if lg.get('wits') is not None else z3.BoolVal(False))
            ctx.prove('approval_logged_is_the_validated_one', z3.And(ctx.toU(lg.get('delnum')) == st['vs'][3].t, ctx.toU(lg.get('diger')) == st['vs'][4].t))
        else:
            ctx.prove('not_establishment_only', z3.Not(bt(ip, old['estOnly'])))
            ctx.prove('next_number', sn == at + 1)
            ctx.prove('names_the_last_event', CMP(old['serder'].t, ctx.toU(ops.getitem(ip, g(s, 'ked'), 'p'))))
            ctx.prove('validated_with_current_keys', z3.And(same_list(ip, v['verfers'], st['snap']['verfers']), ctx.toU(v['tholder']) == old['tholder'].t, ctx.toU(v['toader']) == old['toader'].t, same_list(ip, v['wits'], st['snap']['wits'])))
            for n in ('tholder', 'ntholder', 'toader', 'lastEst'):
                ctx.prove(f'{n}_unchanged', ctx.toU(f[n]) == ctx.toU(old[n]))
            for n in ('verfers', 'ndigers', 'wits', 'cuts', 'adds'):
                ctx.prove(f'{n}_unchanged', same_list(ip, f[n], st['snap'][n]))
        for n in ('prefixer', 'delpre', 'delegated'):
            ctx.prove(f'{n}_unchanged', z3.BoolVal(f[n] is old[n]) if f[n] is old[n] else ctx.toU(f[n]) == ctx.toU(old[n]))
        ctx.prove('state_saved_iff_first_seen', (len(st['pins']) > 0) == (st['fn'].t != ctx.injt(None)) if not isinstance(len(st['pins']), bool) else True)
    m = gate_models(st)
    m.update(DBMODELS)
    m.update(nm)
    m[E0 + 'Kever.rotate'] = rotate
    m[E0 + 'Kever.valSigsWigsDel'] = vals
    m[E0 + 'Kever.logEvent'] = log
    m[E0 + 'Kever.state'] = lambda ip, args, kw, f: U(ip.ctx.fresh('ksn', US), 'KSR')
    m[('meth', 'States', 'pin')] = lambda ip, args, kw, f: st['pins'].append(1) or True
    return Unit('update', [E + 'Kever.update', E + 'Kever.transferable'], setup, post, models=m, attrs={**DBATTRS, ('Baser', 'states'): 'obj:States'}, cover=['return', 'raise:ValidationError'], groups=['chaining'])


def unit_fetchcommitted():
    from keri.core import eventing
    from keri.kering import ValidationError
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['k'] = kever(ip)
        st['serder'] = ctx.mk('obj:SerderKERI', 'serder')
        st['back'] = ctx.mk('list:str', 'back')
        st['asked'] = []
        st['old'] = {x: st['k'].fields[x] for x in ('ndigers', 'ntholder', 'wits')}
        return eventing.Kever.fetchCommitted, [st['k'], st['serder']], {}

    def back(ip, args, kw, f):
        st['asked'].append((kw.get('keys', args[1] if len(args) > 1 else None), kw.get('on', args[2] if len(args) > 2 else None)))
        return st['back']

    def ev(ip, j):
        return dbterm(ip, 'evts', (ops.getattr_(ip, st['k'].fields['prefixer'], 'qb64'), U(sel(st['back'], j), 'str')))

    def est(ip, j):
        e = ev(ip, j)
        return z3.And(e != ip.ctx.injt(None), z3.Function('at_estive', US, BOOL)(e))

    def inv(lv):
        return [('?passed_over', forall(J, z3.Implies(rng(J, lv.i), z3.Not(est(lv.ip, J)))))] if lv.seq is not None else []

    def post(ip, out):
        ctx = ip.ctx
        k, s = st['k'], st['serder']
        sn, at = ops.getattr_(ip, s, 'sn').t, ops.getattr_(ip, k.fields['lastEst'], 's').t
        b = st['back']
        if out[0] == 'raise':
            ctx.prove('refused_only_if_no_establishment', z3.And(issubclass(out[1], ValidationError), sn <= at, forall(J, z3.Implies(rng(J, b.n), z3.Not(est(ip, J))))))
            return
        nd, nt, w = out[1]
        if ctx.branch(sn > at):
            o = st['old']
            ctx.prove('current_commitment', z3.And(same_list(ip, nd, o['ndigers']), ctx.toU(nt) == ctx.toU(o['ntholder']), same_list(ip, w, o['wits'])))
            return
        pre = ops.getattr_(ip, k.fields['prefixer'], 'qb64')
        ctx.prove('looked_below_the_event', z3.BoolVal(len(st['asked']) == 1) if len(st['asked']) != 1 else
                  z3.And(kn(ctx.toU(st['asked'][0][0])) == pre.t, ctx.int_t(st['asked'][0][1]) == sn - 1))
        nt_ = z3.Function('at_ntholder', US, US)
        nn, na = z3.Function('at_ndigers_n', US, INT), z3.Function('at_ndigers_a', US, z3.ArraySort(INT, US))
        n = ops.to_L(ip, nd)
        ctx.prove('commitment_of_the_latest_earlier_establishment', z3.Exists([M], z3.And(rng(M, b.n), est(ip, M), forall(J, z3.Implies(rng(J, M), z3.Not(est(ip, J)))), nt_(ev(ip, M)) == ctx.toU(nt),
                  nn(ev(ip, M)) == ops.zi(n.n), na(ev(ip, M)) == n.a)))
    m = {**DBMODELS, ('meth', 'Kels', 'getBackIter'): back, ('meth', 'Wits', 'get'): lambda ip, args, kw, f: _lo(ip.ctx, 'Prefixer', 'w')}
    return Unit('fetchCommitted', [E + 'Kever.fetchCommitted'], setup, post, models=m, attrs={**DBATTRS, 'estive': 'bool'}, invariants={'*': inv}, cover=['return', 'raise:ValidationError'], groups=['recovery'])


def unit_logevent(delegated, given):
    from keri.core import eventing
    st = {}
    nm, N = number_models()

    def good(keys, raw, t):
        return z3.And(IDX(t) >= 0, IDX(t) < ops.zi(keys.n), OK(sel(keys, IDX(t)), RAW(t), raw))
    WK = z3.Function('witness_key', US, US)

    def setup(ip):
        ctx = ip.ctx
        st['k'] = kever(ip, delpre='str' if delegated else 'none')
        st['serder'] = s = ctx.mk('obj:SerderKERI', 'serder')
        st['log'], st['got'], st['read'] = [], [], {}
        st['raw'] = ops.getattr_(ip, s, 'raw').t
        st['store'] = dict(Sigs=ctx.mk('set:U', 'sigs'), Wigs=ctx.mk('set:U', 'wigs'))
        st['sigers'], st['wigers'] = _lo(ctx, 'Siger', 'sigers'), _lo(ctx, 'Siger', 'wigers')
        st['wits'] = ctx.mk('list:str', 'w') if given else None
        st['first'] = ctx.mk('bool', 'first')
        ctx.assume(forall(X, SG(QB(X)) == X, [QB(X)]))          # a signature is its qualified text
        ctx.assume(forall(X, IDX(X) >= 0, [IDX(X)]))
        st['calls'] = []
        sv = ops.getattr_(ip, s, 'verfers')
        kv = st['k'].fields['verfers']
        st['keys'] = lambda t: z3.If(sv.n > 0, good(sv, st['raw'], t), good(kv, st['raw'], t))
        w = st['wits'] if st['wits'] is not None else st['k'].fields['wits']
        st['wkeys'] = lambda t: z3.And(IDX(t) >= 0, IDX(t) < w.n, OK(WK(sel(w, IDX(t))), RAW(t), st['raw']))
        # what valSigsWigsDel returned
        ctx.assume(forall(J, z3.Implies(rng(J, st['sigers'].n), st['keys'](sel(st['sigers'], J)))))
        ctx.assume(forall(J, z3.Implies(rng(J, st['wigers'].n), st['wkeys'](sel(st['wigers'], J)))))
        return eventing.Kever.logEvent, [st['k'], s], dict(sigers=st['sigers'], wigers=st['wigers'], wits=st['wits'], first=st['first'])

    def verify_sigs(ip, args, kw, f):
        raw, sigers, verfers = [kw[x] if x in kw else args[i] for i, x in enumerate(('raw', 'sigers', 'verfers'))]
        assert isinstance(sigers, list) and len(sigers) == 1
        keys = ops.to_L(ip, verfers, 'U')
        ok = good(keys, ip.ctx.toU(raw), sigers[0].t)
        l = _lo(ip.ctx, 'Siger', 'v')
        ip.ctx.assume(l.n == z3.If(ok, 1, 0))
        return (l, ip.ctx.mk('list:int', 'vi'))

    def rec(name):
        def h(ip, args, kw, f):
            a = list(args[1:])
            for x, v in zip(('keys', 'on', 'val'), a):
                kw.setdefault(x, v)
            st['log'].append((name, dict(kw)))
            if name == 'fels.append':
                st['fn'] = ip.ctx.mk('nat', 'fn')
                return st['fn']
            return True
        return h

    def sget(ty):
        def h(ip, args, kw, f):
            ctx = ip.ctx
            st['got'].append(ty)
            l, a = _lo(ctx, 'Siger', 'stored'), ctx.fresh('stored', z3.ArraySort(US, BOOL))
            ctx.assume(a == st['store'][ty].a)
            st['store'][ty].a = a
            st['read'][ty] = (l, a)
            ctx.assume(forall(J, z3.Implies(rng(J, l.n), z3.And(z3.Select(a, sel(l, J)), POS[ty](sel(l, J)) == J)), [sel(l, J)]))
            ctx.assume(forall(X, z3.Implies(z3.Select(a, X), z3.And(POS[ty](X) >= 0, POS[ty](X) < l.n, sel(l, POS[ty](X)) == X)), [z3.Select(a, X)]))
            return l
        return h
    POS = {t: z3.Function('pos_' + t, US, INT) for t in ('Sigs', 'Wigs')}

    def sput(ty):
        def h(ip, args, kw, f):
            st['store'][ty].a = ip.ctx.fresh('more', z3.ArraySort(US, BOOL))      # whatever else is kept there
            return True
        return h

    def srem(ty):
        def h(ip, args, kw, f):
            a, t = ip.ctx.fresh('less', z3.ArraySort(US, BOOL)), ip.ctx.toU(kw['val'] if 'val' in kw else args[2])
            b = st['store'][ty].a
            ip.ctx.assume(forall(X, z3.Select(a, X) == z3.And(X != t, z3.Select(b, X)), [z3.Select(a, X)]))
            st['store'][ty].a = a
            return True
        return h

    def inv(lv):
        if lv.seq is None:
            return []
        o = []
        el = lambda k: lv.ctx.toU(lv.elem(k))
        for ty in st['got']:
            a, ok = st['store'][ty].a, st['keys'] if ty == 'Sigs' else st['wkeys']
            if ty != st['got'][-1]:
                o.append(('?earlier_all_good', forall(X, z3.Implies(z3.Select(a, X), ok(X)))))
            else:
                l, a0 = st['read'][ty]
                o.append(('?subset_of_read', forall(X, z3.Implies(z3.Select(a, X), z3.Select(a0, X)), [z3.Select(a, X)])))
                o.append(('?passed_are_good', forall(J, z3.Implies(z3.And(rng(J, lv.i), z3.Select(a, sel(l, J))), ok(sel(l, J))), [sel(l, J)])))
        return o

    def verfer(ip, args, kw, cls):
        t = WK(ip.ctx.toU(kw.get('qb64', args[0] if args else None)))
        ip.ctx.assume(truthyF(t))
        return U(t, 'Verfer')

    def post(ip, out):
        ctx = ip.ctx
        k, s = st['k'], st['serder']
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        pre, said, sn = ops.getattr_(ip, s, 'pre').t, ops.getattr_(ip, s, 'said').t, ops.getattr_(ip, s, 'sn').t
        first = st['first'].t
        got = lambda n: [d for x, d in st['log'] if x == n]
        one = lambda n: z3.BoolVal(len(got(n)) == 1)
        none = lambda n: z3.BoolVal(len(got(n)) == 0)
        ctx.prove('numbered_iff_first_seen', z3.If(first, one('fels.append'), none('fels.append')))
        for d in got('fels.append'):
            ctx.prove('first_seen_entry_is_this_event', z3.And(kn(ctx.toU(d['keys'])) == pre, kn(ctx.toU(d['val'])) == said))
        ctx.prove('first_seen_number_recorded', z3.If(first, one('fons.pin'), none('fons.pin')))
        for d in got('fons.pin'):
            ctx.prove('recorded_number_is_the_one_given', ops.getattr_(ip, d['val'], 'num').t == st['fn'].t)
        ctx.prove('date_recorded_if_first_seen', z3.Implies(first, one('dtss.pin')))
        ctx.prove('added_to_the_log_once', one('kels.add'))
        for d in got('kels.add'):
            ctx.prove('log_entry_is_this_event', z3.And(kn(ctx.toU(d['keys'])) == pre, kn(ctx.toU(d['val'])) == said, ctx.int_t(d['on']) == sn))
        ctx.prove('event_saved', one('evts.put'))
        for d in got('evts.put'):
            ctx.prove('saved_event_is_this_event', z3.And(ctx.toU(d['val']) == s.t, *[a == b for a, b in zip(keyterms(ip, d['keys']), (pre, said))]))
        ctx.prove('number_returned', z3.BoolVal(out[1][0] is st.get('fn')) if got('fels.append') else ctx.toU(out[1][0]) == ctx.injt(None))
        a = st['store']
        for ty, ok, what in (('Sigs', st['keys'], st['sigers']), ('Wigs', st['wkeys'], st['wigers'])):
            ctx.prove(f'{ty}_only_verified_kept', z3.Implies(first, forall(X, z3.Implies(z3.Select(a[ty].a, X), ok(X)))))
    m = {**DBMODELS, **nm, E0 + 'verifySigs': verify_sigs, 'new:Verfer': verfer}
    for t, n, me in (('Fels', 'fels', 'append'), ('Fons', 'fons', 'pin'), ('Dtss', 'dtss', 'pin'), ('Dtss', 'dtss', 'put'), ('Kels', 'kels', 'add'), ('Evts', 'evts', 'put')):
        m[('meth', t, me)] = rec(f'{n}.{me}')
    for ty in ('Sigs', 'Wigs'):
        m[('meth', ty, 'get')], m[('meth', ty, 'put')], m[('meth', ty, 'rem')] = sget(ty), sput(ty), srem(ty)
    at = {**DBATTRS, ('Baser', 'fels'): 'obj:Fels', ('Baser', 'dtss'): 'obj:Dtss', ('Baser', 'sigs'): 'obj:Sigs', ('Baser', 'wigs'): 'obj:Wigs', ('Baser', 'wits'): 'obj:Wits',
          ('Baser', 'esrs'): 'obj:Esrs', ('Number', 'sn'): 'int', ('Number', 'num'): 'int', ('SerderKERI', 'sn'): 'int'}
    return Unit('logEvent' + ('_delegated' if delegated else '') + ('_witnesses' if given else ''), [E + 'Kever.logEvent'], setup, post, models=m, attrs=at, invariants={'*': inv}, heap_attrs={'local': 'bool'}, cover=['return'], opaque=['Kever.locallyOwned', 'Kever.locallyWitnessed', 'dgKey'],
                kinds={'.locallyOwned': 'bool', '.locallyWitnessed': 'bool'}, groups=['chaining'])


# ---------------------------------------------------------------- delegation
INLOG = z3.Function('in_accepted_log', US, US, BOOL)          # identifier, event
SEALOF = z3.Function('seal_of', US, US, US, US)               # identifier, number, digest
AT = lambda n, t: z3.Function('at_' + n, US, US)(t)
DELG = z3.Function('delegating_event', US, US, US, BOOL)      # delegator, delegated event, event with its seal
LINK = z3.Function('compared', US, US, US, US, US, BOOL)      # delegator, superseding event, its delegating event, superseded event, its delegating event


def seals_it(b, e, exact=False):
    """event b carries a seal of event e"""
    n, a = z3.Function('at_seals_n', US, INT)(b), z3.Function('at_seals_a', US, z3.ArraySort(INT, US))(b)
    t = z3.Select(a, M)
    return z3.Exists([M], z3.And(rng(M, n), seal_fits(t, e)))


def seal_fits(t, e):
    return z3.And(AT('i', t) == AT('pre', e), AT('s', t) == AT('numh', AT('sner', e)), CMP(e, AT('d', t)))


def unit_delegation():
    from keri.core import eventing
    from keri.kering import ValidationError
    st = {}
    nm, N = number_models()
    SNB = z3.Function('at_sn', US, INT)

    def setup(ip):
        ctx = ip.ctx
        st['k'] = kever(ip, kevers='opt:obj:Kevers')
        st['s'] = s = ctx.mk('obj:SerderKERI', 'serder')
        st['wits'] = ctx.mk('list:str', 'wits')
        st['delpre'] = ops.mk_kind(ip, 'opt:obj:Delpre', 'delpre')
        st['delsner'], st['delsger'] = ops.mk_kind(ip, 'opt:obj:Number', 'delsner'), ops.mk_kind(ip, 'opt:obj:Diger', 'delsger')
        st['exempt'] = {x: ctx.mk('bool', x) for x in ('owned', 'membered', 'witnessed')}
        st['asked'] = []
        dp = st['delpre'].t
        b, p2, a, c, d, b2, d2 = [z3.Const(f'{x}?', US) for x in 'b p2 a c d b2 d2'.split()]
        # the event to accept is delegated by an accepted event of the delegator that carries its seal
        ctx.assume(forall(b, z3.Implies(z3.And(INLOG(dp, b), seals_it(b, s.t)), DELG(dp, s.t, b)), [INLOG(dp, b)]))
        old = dbterm(ip, 'evts', (ops.getattr_(ip, s, 'pre'), ops.getattr_(ip, st['k'].fields['lastEst'], 'd')))
        st['superseded'] = old
        up = lambda p: AT('delpre', KEV(p))
        ctx.assume(forall([b, d], z3.Implies(z3.And(DELG(dp, s.t, b), DELG(dp, old, d)), LINK(dp, s.t, b, old, d)), [z3.MultiPattern(DELG(dp, s.t, b), DELG(dp, old, d))]))
        ctx.assume(forall([X, a, b, c, d, b2, d2], z3.Implies(z3.And(LINK(X, a, b, c, d), DELG(up(X), b, b2), DELG(up(X), d, d2)), LINK(up(X), b, b2, d, d2)),
                          [z3.MultiPattern(LINK(X, a, b, c, d), DELG(up(X), b, b2), DELG(up(X), d, d2))]))
        return eventing.Kever.validateDelegation, [st['k'], s, _lo(ctx, 'Siger', 'sigers'), _lo(ctx, 'Siger', 'wigers'), st['wits'], st['delpre']], \
            dict(delsner=st['delsner'], delsger=st['delsger'], eager=ctx.mk('bool', 'eager'), local=ctx.mk('bool', 'local'))

    KEV = z3.Function('kever_of', US, US)
    KNOWN = z3.Function('known', US, BOOL)

    def known(ip, c, x):
        return KNOWN(ip.ctx.toU(x))

    def kev(ip, o, k):
        ip.ctx.assume(z3.And(truthyF(KEV(ip.ctx.toU(k))), KEV(ip.ctx.toU(k)) != ip.ctx.injt(None)))
        return U(KEV(ip.ctx.toU(k)), 'Kever')

    def evts(ip, args, kw, f):
        keys = kw.get('keys', args[1] if len(args) > 1 else None)
        t = dbterm(ip, 'evts', keys)
        ip.ctx.assume(truthyF(t) == (t != ip.ctx.injt(None)))
        ks = keyterms(ip, keys)
        if ks[1].decl().name() == 'db_kels_last1' and z3.eq(kn(ks[1].arg(0)), ks[0]):
            ip.ctx.assume(z3.Implies(t != ip.ctx.injt(None), INLOG(ks[0], t)))
        return U(t, 'SerderKERI')

    def sealing(ip, args, kw, f):
        """contract of the search for the last event of a log that carries a seal"""
        ctx = ip.ctx
        pre, seal = kw['pre'], kw['seal']
        assert isinstance(seal, dict) and set(seal) == {'i', 's', 'd'}
        t = ctx.fresh('sealing', US)
        st['asked'].append(t)
        s = st['s']
        n, a = z3.Function('at_seals_n', US, INT)(t), z3.Function('at_seals_a', US, z3.ArraySort(INT, US))(t)
        i, q, d = ctx.toU(seal['i']), ctx.toU(seal['s']), ctx.toU(seal['d'])
        e = z3.Select(a, M)
        ctx.assume(truthyF(t) == (t != ctx.injt(None)))
        ctx.assume(z3.Implies(t != ctx.injt(None), z3.And(INLOG(ctx.toU(pre), t), z3.Exists([M], z3.And(rng(M, n), AT('i', e) == i, AT('s', e) == q, AT('d', e) == d)))))
        # an event's digest is its own, and its number reads the same either way
        ctx.assume(z3.And(CMP(s.t, AT('said', s.t)), AT('snh', s.t) == AT('numh', AT('sner', s.t))))
        return U(t, 'SerderKERI')

    def fetch(ip, args, kw, f):
        ctx = ip.ctx
        if ctx.choose(2, 'fetchDelegatingEvent raises'):
            raise PyRaise(ValidationError)
        t = ctx.fresh('boss', US)
        ctx.assume(truthyF(t) == (t != ctx.injt(None)))
        pre, e = (kw.get(x, args[i] if len(args) > i else None) for i, x in ((1, 'delpre'), (2, 'serder')))
        ctx.assume(z3.Implies(t != ctx.injt(None), DELG(ctx.toU(pre), ctx.toU(e), t)))
        return U(t, 'SerderKERI')

    def sealevent(ip, args, kw, cls=None):
        ctx = ip.ctx
        if '**' in kw:
            t = ctx.toU(kw['**'])
            i, q, d = AT('i', t), AT('s', t), AT('d', t)
        else:
            i, q, d = (ctx.toU(kw.get(x, args[j] if len(args) > j else None)) for j, x in enumerate('isd'))
        t = SEALOF(i, q, d)
        ctx.assume(z3.And(AT('i', t) == i, AT('s', t) == q, AT('d', t) == d, truthyF(t)))
        return U(t, 'SealEvent')

    def seal_keys(ip, v):
        n, a = z3.Function('keys_n', US, INT)(v.t), z3.Function('keys_a', US, z3.ArraySort(INT, US))(v.t)
        ip.ctx.assume(n >= 0)
        return L(n, a, 'str')

    def inv(lv):
        ctx = lv.ctx
        o = []
        if lv.seq is not None:
            el = lv.elem(lv.i)
            if isinstance(el, U) and el.ty == 'Seal':
                for x, v in lv.bools():
                    o.append((f'?not_found_{x}', z3.Not(bt(lv.ip, v))))
            return o
        import itertools
        es = sorted(x for x in lv.names if isinstance(lv.var(x), U) and lv.var(x).ty == 'SerderKERI')
        ps = sorted(x for x in lv.names if isinstance(lv.var(x), U) and lv.var(x).ty in ('str', None, 'Delpre') and x not in es)
        for p in ps:
            for q in itertools.permutations(es, 4) if len(es) <= 6 else []:
                o.append((f'?link_{p}_{"_".join(q)}', LINK(lv.var(p).t, *[lv.var(x).t for x in q])))
        return o

    def post(ip, out):
        ctx = ip.ctx
        k, s, dp = st['k'], st['s'], st['delpre'].t
        if out[0] == 'raise':
            return
        ex = z3.Or(*[v.t for v in st['exempt'].values()])
        g = lambda o, n: ops.getattr_(ip, o, n)
        if ctx.branch(z3.Or(z3.Not(truthyF(dp)), ex)):
            return
        n, dg = out[1]
        ctx.prove('delegator_known', z3.And(KNOWN(dp), st['k'].fields['kevers'].t != ctx.injt(None)))
        ctx.prove('delegator_permits', z3.Not(truthyF(AT('doNotDelegate', KEV(dp)))))
        b = z3.Const('b?', US)
        is_n = z3.And(z3.Function('at_num', US, INT)(ctx.toU(n)) == SNB(b))
        named = AT('qb64', ctx.toU(dg)) == AT('said', b)
        found = z3.Not(forall(b, z3.Not(z3.And(INLOG(dp, b), seals_it(b, s.t), named)), [INLOG(dp, b)]))
        ctx.prove('accepted_log_of_delegator_holds_its_seal', found)
        last = g(st['k'].fields['lastEst'], 's').t
        sup = z3.And(g(s, 'ilk').t != ctx.injt('dip'), g(g(s, 'sner'), 'num').t <= last)
        if ctx.branch(z3.Not(sup)):
            return
        p, a, c, d = [z3.Const(f'{x}?', US) for x in 'pacd']
        ilk = lambda t: AT('ilk', t)
        t_ = ctx.injt
        sa, ia = z3.Function('at_seals_a', US, z3.ArraySort(INT, US)), z3.Function('at_seals_n', US, INT)
        is_seal = lambda x, e: z3.And(AT('i', x) == AT('pre', e), AT('s', x) == AT('snh', e), AT('d', x) == AT('said', e))
        at = lambda j, k: z3.And(J_(j) >= 0, J_(j) < ia(d), J_(k) >= 0, J_(k) < ia(b), is_seal(z3.Select(sa(b), J_(k)), a), is_seal(z3.Select(sa(d), J_(j)), c), z3.Implies(b == d, J_(j) < J_(k)))
        J_ = lambda x: x
        src = [f(k) for l, k in ctx.ghost.get('index', []) for f_, f in ctx.ghost.get('filters', []) if z3.eq(f_, l)]
        # of two seals in one event the later one supersedes
        later = z3.Or(*[at(x, y) for x in src for y in src if x is not y]) if len(src) > 1 else z3.Exists([J, K], at(J, K))
        cond = z3.Or(SNB(b) > SNB(d), z3.And(SNB(b) == SNB(d), z3.Or(ilk(b) == t_('rot'), ilk(b) == t_('drt')), ilk(d) == t_('ixn')), z3.And(AT('said', b) == AT('said', d), later))
        ctx.prove('superseding_approval_supersedes', z3.Not(forall([p, a, b, c, d], z3.Not(z3.And(LINK(p, a, b, c, d), cond)), [LINK(p, a, b, c, d)])))
    flag = lambda x: lambda ip, args, kw, f: st['exempt'][x]
    m = {**DBMODELS, **nm, E0 + 'Kever.locallyOwned': flag('owned'), E0 + 'Kever.locallyMembered': flag('membered'), E0 + 'Kever.locallyWitnessed': flag('witnessed'),
         ('in', 'Kevers'): known, ('getitem', 'Kevers'): kev, ('meth', 'Evts', 'get'): evts, ('meth', 'Baser', 'fetchLastSealingEventByEventSeal'): sealing,
         E0 + 'Kever.fetchDelegatingEvent': fetch, 'new:SealEvent': sealevent, ('iter', 'Seal'): seal_keys}
    m[E0 + 'Kever.escrowPDEvent'] = lambda ip, args, kw, f: None

    def diger(ip, args, kw, cls):
        q = ip.ctx.toU(kw.get('qb64', args[0] if args else None))
        t = ip.ctx.fresh('diger', US)
        ip.ctx.assume(z3.And(truthyF(t), t != ip.ctx.injt(None), AT('qb64', t) == q))
        return U(t, 'Diger')
    m['new:Diger'] = diger
    at = {**DBATTRS, ('SerderKERI', 'seals'): 'list:obj=Seal', ('SerderKERI', 'sn'): 'int', ('Kever', 'sner'): 'obj:Number', ('Kever', 'delpre'): 'opt:obj:Delpre', 'sn': 'int', ('Kever', 'doNotDelegate'): 'U', ('SealEvent', 'i'): 'str', ('SealEvent', 's'): 'str', ('SealEvent', 'd'): 'str'}
    return Unit('validateDelegation', [E + 'Kever.validateDelegation'], setup, post, models=m, attrs=at, invariants={'*': inv}, whiles={'*': 'inv'}, cover=['return', 'raise:ValidationError', 'raise:MissingDelegationError'], groups=['delegation'])


def part(u, name, group, *parts):
    """the obligations of a unit that belong to one property"""
    u.name, u.groups, u.parts = name, [group], tuple(parts)
    return u


def units_c01():
    load_classes()
    o = [unit_verifysigs(), part(unit_valsigs(), 'valSigsWigsDel', 'signatures', 'own_', 'threshold_', 'only_verified', 'state_unchanged')]
    for d in (False, True):
        o.append(part(unit_logevent(d, True), 'logEvent_signatures' + '_delegated' * d, 'signatures', 'Sigs_', 'Wigs_'))
    return o


def units_c02():
    load_classes()
    o = [unit_rotate(), unit_incept(), unit_update()]
    for d in (False, True):
        o.append(part(unit_logevent(d, False), 'logEvent' + '_delegated' * d, 'chaining', 'log_entry', 'added_', 'event_', 'saved_', 'number'))
    return o


def units_c03():
    load_classes()
    return [part(unit_exposeds(), 'exposeds', 'exposure'), part(unit_fetchcommitted(), 'fetchCommitted', 'exposure'),
            part(unit_valsigs(), 'valSigsWigsDel_commitment', 'exposure', 'rotation_keys')]


def units_c04():
    load_classes()
    return [part(unit_derivebacks(), 'deriveBacks', 'witnesses'), part(unit_ample(), 'ample', 'witnesses'),
            part(unit_valsigs(), 'valSigsWigsDel_witnesses', 'witnesses', 'no_witnesses', 'witness_', 'own_')]


def units_c05():
    load_classes()
    return [unit_delegation(), part(unit_valsigs(), 'valSigsWigsDel_delegation', 'delegation', 'delegat', 'event_checked', 'seal_')]


def units_c06():
    load_classes()
    return [part(unit_logevent(d, g), 'logEvent' + '_delegated' * d + '_witnesses' * g, 'duplicates', 'number', 'first', 'recorded', 'date', 'added_', 'log_', 'event_', 'saved_', 'no_exc')
            for d in (False, True) for g in (False, True)]
