"""Proof units on the primitives: thresholds, versions, counters."""
from .pv import *

C = 'src/keri/core/coring.py:'
REAL = z3.RealSort()
AU = z3.ArraySort(INT, US)
AR = z3.ArraySort(INT, REAL)
CN, CA = z3.Function('clause_n', US, INT), z3.Function('clause_a', US, AU)          # the elements of a clause
NEST = z3.Function('isa_tuple', US, BOOL)                                           # an element that is a weight with its own list of weights
HEAD, SUBN, SUBA = z3.Function('nest_weight', US, REAL), z3.Function('nest_n', US, INT), z3.Function('nest_a', US, AR)
NUM = z3.Function('uR', US, REAL)                                                   # an element that is a weight
SLOTS = lambda e: z3.If(NEST(e), SUBN(e), 1)
WC = z3.Function('slots_before', AU, INT, INT)                                      # keys covered by the first j elements of a clause
VS = z3.Function('sub_sum', AR, INT, INT, REAL)                                     # weights of the keys that signed among the first k of a nested list whose first key is b
CS = z3.Function('clause_sum', AU, INT, INT, REAL)                                  # weight gathered by the first j elements of a clause whose first key is b
START = z3.Function('first_key', INT, INT)                                          # first key of a clause


def unit_satisfy_weighted():
    from keri.core import coring
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['th'] = th = _l(ctx, 'U', 'Clause', 'thold')
        st['size'] = ctx.mk('int', 'size')
        st['ix'] = ctx.mk('list:int', 'indices')
        h = HObj(coring.Tholder, 'tholder', {})
        h.fields.update(thold=th, _thold=th, size=st['size'], _size=st['size'])
        c = lambda k: CA(sel(th, k))
        # what _processWeighted leaves: the keys of all elements of all clauses fit the size
        ctx.assume(forall([J], z3.Implies(rng(J, th.n), z3.And(CN(sel(th, J)) >= 0, START(J) >= 0))))
        ctx.assume(forall([J, K], z3.Implies(z3.And(rng(J, th.n), rng(K, CN(sel(th, J)))),
                                             z3.And(WC(c(J), K) >= 0, SUBN(z3.Select(c(J), K)) >= 0, START(J) + WC(c(J), K) + SLOTS(z3.Select(c(J), K)) <= st['size'].t))))
        ctx.assume(st['size'].t >= 0)
        st['h'] = h
        return coring.Tholder._satisfy_weighted, [h, st['ix']], {}

    def _l(ctx, ek, ty, nm):
        l = ctx.mk('list:' + ek, nm)
        l.ecls = ty
        return l

    def signed(x):
        ix = st['ix']
        return z3.And(rng(x, st['size'].t), z3.Exists([M], z3.And(rng(M, ix.n), sel(ix, M) == x)))
    SIG = z3.Function('signed', INT, BOOL)

    def unfold(ctx, a, b, i):
        """definitions, at one place"""
        if a.sort() == AU:
            e = z3.Select(a, i - 1)
            at = b + WC(a, i - 1)
            ctx.assume(z3.And(WC(a, 0) == 0, z3.Implies(i > 0, WC(a, i) == WC(a, i - 1) + SLOTS(e))))
            ctx.assume(z3.And(CS(a, b, 0) == 0, z3.Implies(i > 0, CS(a, b, i) == CS(a, b, i - 1) +
                       z3.If(NEST(e), z3.If(VS(SUBA(e), at, SUBN(e)) >= 1, HEAD(e), 0), z3.If(SIG(at), NUM(e), 0)))))
        else:
            ctx.assume(z3.And(VS(a, b, 0) == 0, z3.Implies(i > 0, VS(a, b, i) == VS(a, b, i - 1) + z3.If(SIG(b + i - 1), z3.Select(a, i - 1), 0))))

    def met(k):
        return CS(CA(sel(st['th'], k)), START(k), CN(sel(st['th'], k))) >= 1

    def inv(lv):
        ctx = lv.ctx
        if lv.seq is None:
            return []
        v = {x: lv.var(x) for x in lv.names}
        src = getattr(lv.seq, 'src', None)
        o = []
        bools = [(x, l) for x, l in lv.lists('bool')]
        ints = lv.ints()
        reals = lv.reals()
        e0 = None
        try:
            e0 = lv.elem(lv.i)
        except Exception:
            pass
        if isinstance(e0, I):        # the indices are marked
            for x, l in bools:
                o.append((f'?marks_{x}', forall(J, z3.Implies(rng(J, st['size'].t), sel(l, J) == z3.Exists([K], z3.And(rng(K, lv.i), ctx.int_t(lv.elem(K)) == J))))))
                o.append((f'?length_{x}', ops.zi(l.n) == st['size'].t))
            return o
        if isinstance(e0, U) and e0.ty == 'Clause':
            ctx.assume(START(0) == 0)
            ctx.assume(z3.Implies(lv.i > 0, START(lv.i) == START(lv.i - 1) + WC(CA(sel(st['th'], lv.i - 1)), CN(sel(st['th'], lv.i - 1)))))
            for x, v in ints:
                t = ctx.int_t(v)
                o.append((f'?position_{x}', t == START(lv.i)))
            o.append(('?clauses_met', forall(J, z3.Implies(rng(J, lv.i), met(J)))))
            return o
        a = src.a if src is not None else None
        if a is None:
            return []
        for x, v in ints:
            t = ctx.int_t(v)
            b = lv.pre.get(x)
            if b is None:
                continue
            b = ctx.int_t(b)
            if isinstance(e0, U):
                unfold(ctx, a, b, lv.i)
                o.append((f'?at_{x}', t == b + WC(a, lv.i)))
                o += [(f'?sum_{x}_{y}', r == CS(a, b, lv.i)) for y, r in reals]
            else:
                unfold(ctx, a, b, lv.i)
                o.append((f'?at_{x}', t == b + lv.i))
                o += [(f'?sum_{x}_{y}', r == VS(a, b, lv.i)) for y, r in reals]
        return o

    def post(ip, out):
        ctx = ip.ctx
        ix, th = st['ix'], st['th']
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        r = bt(ip, out[1])
        ctx.prove('satisfied_iff_every_clause_reaches_one', r == z3.And(ix.n > 0, forall(J, z3.Implies(rng(J, th.n), met(J)))))

    def signed_axiom(ip):
        pass
    it = lambda ip, v: L(CN(v.t), CA(v.t), 'U', False, 'Weight')

    def item(ip, o, k):
        assert k in (0, 1)
        return R(HEAD(o.t)) if k == 0 else L(SUBN(o.t), SUBA(o.t), 'real')

    def setup2(ip):
        r = setup(ip)
        ip.ctx.assume(forall(J, SIG(J) == signed(J), [SIG(J)]))
        return r
    return Unit('satisfy_weighted', [C + 'Tholder._satisfy_weighted'], setup2, post, models={('iter', 'Clause'): it, ('getitem', 'Weight'): item}, numeric=['Weight'], invariants={'*': inv},
                cover=['return'], groups=['meaning'])


def unit_satisfy_numeric():
    from keri.core import coring
    st = {}

    def setup(ip):
        ctx = ip.ctx
        st['th'], st['ix'] = ctx.mk('int', 'thold'), ctx.mk('list:int', 'indices')
        h = HObj(coring.Tholder, 'tholder', {})
        h.fields.update(thold=st['th'], _thold=st['th'])
        return coring.Tholder._satisfy_numeric, [h, st['ix']], {}

    def post(ip, out):
        ctx = ip.ctx
        if out[0] != 'return':
            ctx.prove('no_exception', False)
            return
        n = ops.card(ip, ops.s_of_l(ip, st['ix']))
        ctx.prove('satisfied_iff_enough_different_keys', bt(ip, out[1]) == z3.And(st['th'].t > 0, n >= st['th'].t))
    return Unit('satisfy_numeric', [C + 'Tholder._satisfy_numeric'], setup, post, cover=['return'], groups=['meaning'])


def units_c07():
    load_classes()
    return [unit_satisfy_numeric(), unit_satisfy_weighted()]
