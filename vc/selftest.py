"""Soundness checks of the VC generator: each true contract must be proved, each false one must fail."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'shims'))
sys.dont_write_bytecode = True
os.environ['VERIF_REPO'] = os.environ.get('VERIF_REPO', '/repo')
import z3
from vc import engine
from vc.engine import *
from vc.unit import Unit
from vc import selftest_src as T


def sel(l, k):
    return z3.Select(l.a, k)


def cases():
    def box():
        return HObj(T.Box, 'box', dict(n='int', dirty='bool', d='dict:U:U'))

    def mk(fn, setup, post, **kw):
        return Unit(fn.__name__, [fn.__name__], setup, post, **kw)
    st = {}

    def s1(ip):
        st['b'] = box()
        st['xs'] = ip.ctx.mk('list:U', 'xs')
        st['n0'] = ip.ctx.int_t(ip.ctx_n(st['b'])) if False else None
        from vc import ops
        st['n0'] = ops.getattr_(ip, st['b'], 'n').t
        st['d0'] = ops.getattr_(ip, st['b'], 'dirty').t
        return T.heap_loop, [st['b'], st['xs']], {}

    def inv(lv):
        from vc import ops
        return [('n', lv.ctx.int_t(ops.getattr_(lv.ip, st['b'], 'n')) == st['n0'] + lv.i)]
    yield 'heap_loop n unchanged is refuted', False, mk(T.heap_loop, s1, lambda ip, o: ip.ctx.prove('p', ip.ctx.int_t(o[1]) == st['n0']))
    yield 'heap_loop counts', True, mk(T.heap_loop, s1, lambda ip, o: ip.ctx.prove('p', ip.ctx.int_t(o[1]) == st['n0'] + st['xs'].n),
                                       invariants={'*': inv})
    yield 'heap_loop counts (bad invariant)', False, mk(
        T.heap_loop, s1, lambda ip, o: ip.ctx.prove('p', ip.ctx.int_t(o[1]) == st['n0'] + st['xs'].n),
        invariants={'*': lambda lv: [('n', lv.ctx.int_t(st['b'].fields['n']) == st['n0'] + 2 * lv.i)]})
    yield 'heap_loop keeps dirty is refuted', False, mk(
        T.heap_loop, s1, lambda ip, o: ip.ctx.prove('p', ip.ctx.truth(st['b'].fields['dirty']) == st['d0']))

    def s2(ip):
        st['d'] = ip.ctx.mk('dict:U:U', 'd')
        st['has0'] = st['d'].has
        st['xs'] = ip.ctx.mk('list:U', 'xs')
        return T.alias_loop, [st['d'], st['xs']], {}
    k = z3.Const('k', US)
    yield 'alias_loop frame is refuted', False, mk(T.alias_loop, s2, lambda ip, o: ip.ctx.prove(
        'p', z3.ForAll([k], z3.Select(st['d'].has, k) == z3.Select(st['has0'], k))))
    j = z3.Int('j')
    yield 'alias_loop adds all', True, mk(T.alias_loop, s2, lambda ip, o: ip.ctx.prove(
        'p', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < st['xs'].n), z3.Select(st['d'].has, sel(st['xs'], j))))),
        invariants={'*': lambda lv: [('a', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lv.i), z3.Select(st['d'].has, sel(st['xs'], j)))))]})

    def s3(ip):
        from vc import ops
        st['b'] = box()
        st['xs'] = ip.ctx.mk('list:U', 'xs')
        st['ys'] = ip.ctx.mk('list:U', 'ys')
        st['d0'] = ops.getattr_(ip, st['b'], 'dirty').t
        return T.nested, [st['b'], st['xs'], st['ys']], {}
    yield 'nested dirty unchanged is refuted', False, mk(T.nested, s3, lambda ip, o: ip.ctx.prove('p', ip.ctx.truth(o[1]) == st['d0']))
    yield 'nested dirty monotone', True, mk(
        T.nested, s3, lambda ip, o: ip.ctx.prove('p', z3.Implies(st['d0'], ip.ctx.truth(o[1]))),
        invariants={'*': lambda lv: [('m', z3.Implies(st['d0'], lv.ctx.truth(st['b'].fields['dirty'])))]})

    def s4(ip):
        st['xs'] = ip.ctx.mk('list:int', 'xs')
        ip.ctx.assume(st['xs'].n > 0)
        return T.maxi, [st['xs']], {}

    def m_inv(lv):
        m = lv.ctx.int_t(lv.var('m'))
        return [('ub', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lv.i), sel(st['xs'], j) <= m)))]
    ub = lambda ip, o: ip.ctx.prove('p', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < st['xs'].n), sel(st['xs'], j) <= ip.ctx.int_t(o[1]))))
    yield 'maxi upper bound', True, mk(T.maxi, s4, ub, invariants={'*': m_inv})
    yield 'maxi upper bound without invariant', False, mk(T.maxi, s4, ub)

    def s5(ip):
        st['n'] = ip.ctx.mk('int', 'n')
        return T.count_while, [st['n']], {}
    yield 'count_while', True, mk(T.count_while, s5, lambda ip, o: ip.ctx.prove('p', z3.Implies(st['n'].t >= 0, ip.ctx.int_t(o[1]) == st['n'].t)),
                                  invariants={'*': lambda lv: [('i', z3.Or(lv.ctx.int_t(lv.var('i')) <= st['n'].t, st['n'].t < 0))]})
    yield 'count_while false', False, mk(T.count_while, s5, lambda ip, o: ip.ctx.prove('p', ip.ctx.int_t(o[1]) == st['n'].t),
                                         invariants={'*': lambda lv: [('i', z3.Or(lv.ctx.int_t(lv.var('i')) <= st['n'].t, st['n'].t < 0))]})

    def s6(ip):
        for v in ('a', 'lo', 'hi'):
            st[v] = ip.ctx.mk('int', v)
        ip.ctx.assume(st['lo'].t <= st['hi'].t)
        return T.clamp, [st['a'], st['lo'], st['hi']], {}
    yield 'clamp', True, mk(T.clamp, s6, lambda ip, o: ip.ctx.prove('p', z3.And(ip.ctx.int_t(o[1]) >= st['lo'].t, ip.ctx.int_t(o[1]) <= st['hi'].t)))
    yield 'clamp false', False, mk(T.clamp, s6, lambda ip, o: ip.ctx.prove('p', z3.And(ip.ctx.int_t(o[1]) > st['lo'].t)))

    def s7(ip):
        st['xs'] = ip.ctx.mk('list:int', 'xs')
        st['k'] = ip.ctx.mk('int', 'k')
        return T.gen, [st['xs'], st['k']], {}

    def ginv(lv):
        y = lv.var('$yield')
        if not isinstance(y, L):
            return []
        return [('ge', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < y.n), sel(y, j) >= st['k'].t)))]
    yield 'gen', True, mk(T.gen, s7, lambda ip, o: ip.ctx.prove('p', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o[1].n), sel(o[1], j) >= st['k'].t))),
                          invariants={'*': ginv}, elem_kinds={'$yield': 'int'})
    yield 'gen false', False, mk(T.gen, s7, lambda ip, o: ip.ctx.prove('p', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o[1].n), sel(o[1], j) > st['k'].t))),
                                 invariants={'*': ginv}, elem_kinds={'$yield': 'int'})

    HA, HN = z3.Function('row_a', US, z3.ArraySort(INT, US)), z3.Function('row_n', US, INT)

    def s8(ip):
        from vc import ops
        st['xss'] = ops.mk_kind(ip, 'list:obj=Row', 'xss')
        return T.heads, [st['xss']], {}

    def row(ip, v):
        ip.ctx.assume(HN(v.t) == 3)
        return L(HN(v.t), HA(v.t), 'U')
    last = lambda x: z3.Select(HA(sel(st['xss'], x)), 2)
    at = lambda x: z3.And(x >= 0, x < st['xss'].n)
    yield 'what is made up for one element is not shared by all', False, mk(T.heads, s8, lambda ip, o: ip.ctx.prove('p', z3.ForAll([j], z3.Implies(at(j), last(j) == last(0)))), models={('iter', 'Row'): row})
    yield 'heads', True, mk(T.heads, s8, lambda ip, o: ip.ctx.prove('p', z3.ForAll([j], z3.Implies(at(j), sel(o[1], j) == last(j)))), models={('iter', 'Row'): row})


def main():
    engine.REPO = os.path.dirname(os.path.abspath(__file__))
    bad = 0
    for name, want, u in cases():
        r = u.run()
        ok = not r['error'] and r['obs'] and all(o.status == 'proved' for o in r['obs'])
        good = ok == want and (want or not (r['error'] or '').startswith('engine'))
        if not good:
            bad += 1
        if not good or '-v' in sys.argv:
            print('ok ' if good else 'BAD', name, r['error'], [(o.name, o.status) for o in r['obs']])
    print('selftest', 'failed' if bad else 'passed')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
