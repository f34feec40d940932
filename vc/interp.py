"""AST interpreter producing verification conditions (see engine.py)."""
import ast
import hashlib
import os
import re
import builtins
import inspect
import types
import z3
from .engine import *
from .engine import _Ret, _Brk, _Cont, _has_quant, _Track
from . import ops

MAXDEPTH = 40


class Frame:
    def __init__(self, glob, closure=None, qual='', cls=None, selfv=None):
        self.env = {}
        self.glob = glob
        self.closure = closure
        self.qual = qual
        self.cls = cls
        self.selfv = selfv
        self.yields = None
        self.nonlocals = set()
        self.excs = []


class Interp:
    def __init__(self, ctx, unit):
        self.given = {}
        self.ctx = ctx
        self.unit = unit
        self.loopstack = []

    # ------------------------------------------------------------ calls
    def call_function(self, fn, args, kwargs):
        """interpret a real function object / Fn with given values"""
        ctx = self.ctx
        if isinstance(fn, Fn):
            node, glob, closure, qual, cls = fn.node, fn.glob, fn.closure, fn.qual, fn.cls
            if fn.selfv is not None:
                args = [fn.selfv] + list(args)
            defaults = fn.defaults
        else:
            node = func_ast(fn)
            glob = fn.__globals__
            closure = None
            if fn.__closure__:
                closure = Frame(glob)
                for nme, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                    try:
                        closure.env[nme] = cell.cell_contents
                    except ValueError:
                        pass
            qual = key_of(fn)
            cls = closure.env.get('__class__') if closure else None
            if cls is None and '.' in fn.__qualname__:
                q = fn.__qualname__.split('.')
                c = glob.get(q[-2]) if len(q) >= 2 else None
                cls = c if isinstance(c, type) else None
            defaults = None
        ctx.depth += 1
        if ctx.depth > MAXDEPTH:
            raise Unsupported('inline depth at ' + qual)
        self.unit.inlined.add(qual)
        fr = Frame(glob, closure, qual, cls)
        self.bind(fr, node, fn, list(args), dict(kwargs), defaults)
        if args:
            fr.selfv = args[0]
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            isgen = _is_gen(node)
            if isgen:
                fr.yields = []
            try:
                self.block(node.body, fr)
                r = None
            except _Ret as e:
                r = e.v
            if isgen:
                return fr.yields if not isinstance(fr.yields, V) else fr.yields
            return r
        finally:
            ctx.depth -= 1

    def bind(self, fr, node, fn, args, kwargs, defaults):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if defaults is None and not isinstance(fn, Fn):
            pd = list(fn.__defaults__ or ())
            kd = dict(fn.__kwdefaults__ or {})
        elif defaults is None:
            pd = [self.ev(d, fr) for d in a.defaults]
            kd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        else:
            pd, kd = defaults
        env = fr.env
        for i, n in enumerate(pos):
            if i < len(args):
                env[n] = args[i]
                if n in kwargs:
                    raise PyRaise(TypeError)
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            else:
                j = i - (len(pos) - len(pd))
                if j < 0:
                    raise PyRaise(TypeError, f'missing arg {n} of {fr.qual}')
                env[n] = pd[j]
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            raise PyRaise(TypeError, f'too many args {fr.qual}')
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env[k.arg] = kwargs.pop(k.arg)
            elif k.arg in kd:
                env[k.arg] = kd[k.arg]
            else:
                raise PyRaise(TypeError, f'missing kwonly {k.arg}')
        if a.kwarg:
            env[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(TypeError, f'unexpected kwargs {list(kwargs)} {fr.qual}')

    def call(self, f, args, kwargs, node=None):
        return ops.call(self, f, args, kwargs, node)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.ctx.steps += 1
        if self.ctx.steps > self.unit.max_steps:
            raise Unsupported('step budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('stmt ' + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.load(s.target.id, fr)
            v = ops.binop(self, type(s.op).__name__, cur, self.ev(s.value, fr), inplace=True)
            self.assign(s.target, v, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            cur = ops.getattr_(self, o, s.target.attr)
            v = ops.binop(self, type(s.op).__name__, cur, self.ev(s.value, fr), inplace=True)
            ops.setattr_(self, o, s.target.attr, v)
        else:
            o = self.ev(s.target.value, fr)
            k = self.ev(s.target.slice, fr)
            cur = ops.getitem(self, o, k)
            v = ops.binop(self, type(s.op).__name__, cur, self.ev(s.value, fr), inplace=True)
            ops.setitem(self, o, k, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            ops.setattr_(self, self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            ops.setitem(self, self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                vs = ops.concrete_iter(self, v)
                i = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyRaise(ValueError)
                parts = list(vs[:i]) + [list(vs[i:len(vs) - after])] + list(vs[len(vs) - after:])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            else:
                vs = ops.unpack(self, v, len(t.elts))
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, fr)
        else:
            raise Unsupported('assign target')

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                ops.delitem(self, self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                ops.setattr_(self, self.ev(t.value, fr), t.attr, None)
            else:
                raise Unsupported('del')

    def cond(self, e, fr):
        """evaluate expression as a branch decision"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                for v in e.values:
                    if not self.cond(v, fr):
                        return False
                return True
            for v in e.values:
                if self.cond(v, fr):
                    return True
            return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.cond(e.operand, fr)
        v = self.ev(e, fr)
        return self.ctx.branch(ops.truth(self, v), getattr(e, 'lineno', ''))

    def s_If(self, s, fr):
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Return(self, s, fr):
        raise _Ret(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise _Brk()

    def s_Continue(self, s, fr):
        raise _Cont()

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.excs:
                raise fr.excs[-1]
            raise PyRaise(RuntimeError)
        # the exception's message is not part of any contract: do not evaluate its arguments
        e = s.exc
        if isinstance(e, ast.Call):
            f = self.ev(e.func, fr)
            if isinstance(f, type) and issubclass(f, BaseException):
                raise PyRaise(f)
        v = self.ev(e, fr)
        if isinstance(v, type):
            raise PyRaise(v)
        if isinstance(v, Exc):
            raise PyRaise(v.cls, v.val)
        if isinstance(v, BaseException):
            raise PyRaise(type(v))
        raise PyRaise(Exception)

    def s_Assert(self, s, fr):
        if not self.cond(s.test, fr):
            raise PyRaise(AssertionError)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        m = True
                    else:
                        ty = self.ev(h.type, fr)
                        tys = ty if isinstance(ty, tuple) else (ty,)
                        m = any(isinstance(x, type) and issubclass(e.cls, x) for x in tys)
                        if not m and any(isinstance(x, type) and issubclass(x, e.cls) for x in tys) and \
                                e.cls in (Exception,) and e.val == 'opaque':
                            m = self.ctx.choose(2, 'exc kind') == 1   # unknown exception might be of the type
                    if m:
                        if h.name:
                            self.store(h.name, Exc(e.cls, e.val), fr)
                        fr.excs.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.excs.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyRaise, _Ret, _Brk, _Cont):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            v2 = ops.enter(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v2, fr)
        self.block(s.body, fr)

    def s_FunctionDef(self, s, fr):
        pd = [self.ev(d, fr) for d in s.args.defaults]
        kd = {k.arg: self.ev(d, fr) for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        fr.env[s.name] = Fn(s, fr.glob, fr, None, fr.qual + '.' + s.name, fr.cls, (pd, kd))

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split('.')[0]] = __import__(a.name) if not a.asname else __import__(a.name, fromlist=['x'])

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.glob.get('__package__') or ''
        name = ('.' * s.level) + (s.module or '')
        m = importlib.import_module(name, pkg) if s.level else importlib.import_module(name)
        for a in s.names:
            if hasattr(m, a.name):
                fr.env[a.asname or a.name] = getattr(m, a.name)
            else:
                fr.env[a.asname or a.name] = importlib.import_module(m.__name__ + '.' + a.name)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Global(self, s, fr):
        raise Unsupported('global')

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            r = self.pat(c.pattern, v, fr)
            if self.ctx.branch(r) and (c.guard is None or self.cond(c.guard, fr)):
                self.block(c.body, fr)
                return

    def pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return ops.eq(self, v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return ops.is_(self, v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store(p.name, v, fr)
                return True
            r = self.pat(p.pattern, v, fr)
            if p.name:
                self.store(p.name, v, fr)
            return r
        if isinstance(p, ast.MatchOr):
            return ops.or_([self.pat(q, v, fr) for q in p.patterns])
        raise Unsupported('match pattern')

    # ------------------------------------------------------------ loops
    def s_While(self, s, fr):
        # concrete unrolling while the test is decided by constants, else invariant cut
        n = 0
        while True:
            before = len(self.ctx.dec)
            mode = self.unit.while_mode(fr.qual)
            if mode == 'unroll':
                c = self.cond(s.test, fr)
            else:
                c = None if mode == 'inv' else self._try_concrete(s.test, fr)
                if c is None:
                    return self.cut_while(s, fr)
            if not c:
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.unit.max_unroll:
                raise Unsupported('while unroll budget in ' + fr.qual)
            try:
                self.block(s.body, fr)
            except _Brk:
                return
            except _Cont:
                pass

    def _try_concrete(self, e, fr):
        """truth of test if constant under the current bindings, else None (no side effects committed)"""
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if _pure_expr(e):
            v = self.ev(e, fr)
            t = ops.truth(self, v)
            if isinstance(t, bool):
                return t
            t = z3.simplify(t)
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
        return None

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = ops.iterate(self, it)
        if isinstance(seq, (list, tuple)):
            for x in list(seq):
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except _Brk:
                    return
                except _Cont:
                    continue
            self.block(s.orelse, fr)
            return
        assert isinstance(seq, It)
        self.cut_for(s, fr, seq)

    def modified(self, body, fr):
        """locals (and heap fields) a loop body may change: found by syntactic scan of body"""
        names = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    if n.func.attr in ops.MUTATORS:
                        names.add(n.func.value.id)
                elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    names.add(n.value.id)
                elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                    names.add('$yield')
        return names

    def _keeps_kind(self, fr, names, lid):
        """a loop variable must stay within the values the arbitrary iteration was given for it; otherwise it is given wider ones and the loop is redone"""
        for x in names:
            if x == '$yield' or x not in fr.env or (lid, x) not in self.given:
                continue
            g, v = self.given[(lid, x)], fr.env[x]
            if g is v or _fits(g, v):
                continue
            k = (lid, x)
            have = self.unit.loop_kinds.get(k)
            if isinstance(g, I) and isinstance(v, (R, float)) or type(v).__name__ == 'Fraction' and isinstance(g, I):
                want = 'real'
            elif isinstance(g, (B, I, R, U)) and (v is None or isinstance(v, (bool, int, str, bytes, B, I, R, BV, U, tuple, list))):
                want = 'U'
            else:
                raise Unsupported(f'loop variable {x} changes kind: {type(g).__name__} {type(v).__name__}')
            if have == want or have == 'U':
                raise Unsupported(f'loop variable {x} changes kind')
            self.unit.loop_kinds[k] = want
            self.unit.new_mods = True

    def havoc_val(self, v, name):
        ctx = self.ctx
        if isinstance(v, bool) or isinstance(v, B):
            return ctx.mk('bool', name)
        if isinstance(v, (int, I)):
            return ctx.mk('int', name)
        if isinstance(v, (str, bytes)):
            return ctx.mk('str' if isinstance(v, str) else 'bytes', name)
        if isinstance(v, R):
            return ctx.mk('real', name)
        if isinstance(v, L):
            nv = ctx.mk('list:' + v.ek, name)
            if isinstance(v, OL):
                nv = OL(nv.n, nv.a, nv.ek)
            nv.ecls, nv.tup = v.ecls, v.tup
            return nv
        if isinstance(v, S):
            return ctx.mk('set:' + v.ek, name)
        if isinstance(v, D):
            return ctx.mk(f'dict:{v.kk}:{v.vk}', name)
        if isinstance(v, U):
            return U(ctx.fresh(name, US), v.ty)
        if v is None:
            return U(ctx.fresh(name, US))
        if isinstance(v, (list, tuple, set)):
            return ops.to_L(self, v) if False else self._havoc_native(v, name)
        if isinstance(v, dict) and not v:
            return ctx.mk('dict:U:U', name)
        try:
            from fractions import Fraction
            if isinstance(v, (Fraction, float)):
                return ctx.mk('real', name)
        except Exception:
            pass
        raise Unsupported(f'havoc of {type(v).__name__} {name}')

    def _havoc_native(self, v, name):
        ek = self.unit.elem_kind(name)
        if ek is None:
            ek = 'U'
            if v and all(isinstance(x, (int, I)) and not isinstance(x, bool) for x in v):
                ek = 'int'
        return self.ctx.mk(('set:' if isinstance(v, (set,)) or type(v).__name__ in ('OrderedSet',) else 'list:') + ek, name)

    def lift(self, v, name):
        """turn native containers that a cut loop mutates into symbolic containers of the same content"""
        ek = self.unit.elem_kind(name)
        if isinstance(v, list) or (type(v).__name__ == 'deque'):
            return ops.to_L(self, list(v), ek)
        if type(v).__name__ == 'OrderedSet':
            l = ops.to_L(self, list(v), ek)
            return OL(l.n, l.a, l.ek)
        if isinstance(v, set):
            return ops.to_S(self, v, ek)
        if type(v) is dict:
            return ops.to_D(self, v)
        return v

    def _loop_id(self, fr, s):
        k = (fr.qual, s.lineno)
        ids = self.unit.loop_ids
        if k not in ids:
            ids[k] = f'{fr.qual}#{sum(1 for q in ids if q[0] == fr.qual)}'
        return ids[k]

    def cut_for(self, s, fr, seq):
        ctx = self.ctx
        lid = self._loop_id(fr, s)
        names = self.modified(s.body, fr)
        tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        n = seq.n if not isinstance(seq.n, int) else z3.IntVal(seq.n)
        pre = {}
        self._lift_env(fr, names - tgt)
        for x in names - tgt:
            if x == '$yield':
                pre[x] = fr.yields
            elif x in fr.env:
                pre[x] = _snap(fr.env[x])
        lv0 = LoopView(self, lid, fr, z3.IntVal(0), seq, pre, names - tgt)
        cands = self._cands(lid, lv0)
        for nm, c in self._inv(lid, lv0):
            if (lid, nm) in ctx.dropped:
                continue
            self._check(lid, nm, 'init', c)
        which = ctx.choose(2, 'loop ' + lid)
        self._loop_enter(fr, names - tgt, lid)
        i = ctx.fresh('it', INT)
        if which == 0:
            # arbitrary iteration
            ctx.assume(z3.And(i >= 0, i < n))
            if not ctx._feasible(z3.BoolVal(True)):
                raise PathEnd()
            lv = LoopView(self, lid, fr, i, seq, pre, names - tgt)
            for nm, c in self._inv(lid, lv):
                if (lid, nm) not in ctx.dropped:
                    ctx.assume(c)
            self.assign(s.target, seq.get(i), fr)
            self.loopstack.append(lid)
            st = self._track_start(fr)
            try:
                self.block(s.body, fr)
            except _Cont:
                pass
            except _Brk:
                fr.env['$broke'] = True
                return
            finally:
                self.loopstack.pop()
                self._track_end(st, fr, lid)
            self._keeps_kind(fr, names - tgt, lid)
            lv = LoopView(self, lid, fr, i + 1, seq, pre, names - tgt)
            for nm, c in self._inv(lid, lv):
                if (lid, nm) not in ctx.dropped:
                    self._check(lid, nm, 'preserve', c)
            raise PathEnd()
        lv = LoopView(self, lid, fr, n, seq, pre, names - tgt)
        for nm, c in self._inv(lid, lv):
            if (lid, nm) not in ctx.dropped:
                ctx.assume(c)
        # loop targets keep their last value: arbitrary
        for x in tgt:
            fr.env[x] = U(ctx.fresh(x, US))
            self.ctx.ghost.setdefault('stale', set()).add(x)
        self.block(s.orelse, fr)

    def cut_while(self, s, fr):
        ctx = self.ctx
        lid = self._loop_id(fr, s)
        names = self.modified(s.body, fr) | self.modified([ast.Expr(s.test)], fr)
        pre = {}
        self._lift_env(fr, names)
        for x in names:
            if x in fr.env:
                pre[x] = _snap(fr.env[x])
        lv0 = LoopView(self, lid, fr, None, None, pre, names)
        for nm, c in self._inv(lid, lv0):
            if (lid, nm) not in ctx.dropped:
                self._check(lid, nm, 'init', c)
        self._loop_enter(fr, names, lid)
        lv = LoopView(self, lid, fr, None, None, pre, names)
        for nm, c in self._inv(lid, lv):
            if (lid, nm) not in ctx.dropped:
                ctx.assume(c)
        st = self._track_start(fr)
        try:
            t = self.cond(s.test, fr)
        finally:
            self._track_end(st, fr, lid)
        if t:
            self.loopstack.append(lid)
            st = self._track_start(fr)
            try:
                self.block(s.body, fr)
            except _Cont:
                pass
            except _Brk:
                return
            finally:
                self.loopstack.pop()
                self._track_end(st, fr, lid)
            self._keeps_kind(fr, names, lid)
            lv = LoopView(self, lid, fr, None, None, pre, names)
            for nm, c in self._inv(lid, lv):
                if (lid, nm) not in ctx.dropped:
                    self._check(lid, nm, 'preserve', c)
            raise PathEnd()
        self.block(s.orelse, fr)

    # ---- what a loop body changes besides the locals found by the syntactic scan
    def _loop_enter(self, fr, names, lid):
        ctx = self.ctx
        keep = _Track.log
        done = _Track.log = set()
        first = _Track.sid
        self._havoc(fr, names, lid)
        for sid, field in sorted(self.unit.loop_mods.get(lid, ()), key=str):
            o = _Track.reg.get(sid)
            if o is None or (sid, field) in done:
                continue
            if field is None and isinstance(o, (L, S, D)):
                o.become(self.havoc_val(o, 'h'))
            elif field is None and isinstance(o, Mem):
                o.a = ctx.fresh('mem_' + o.name, z3.ArraySort(US, sort_of(o.kind)))
            elif isinstance(o, HObj) and field is not None:
                cur = ops.getattr_(self, o, field)
                if isinstance(cur, (list, dict, set)) and not isinstance(cur, V):
                    cur = self.lift(cur, field)
                if isinstance(cur, (L, S, D)):
                    nv = cur.copy()
                    nv.become(self.havoc_val(cur, field))
                    o.fields[field] = nv
                else:
                    o.fields[field] = self.havoc_val(cur, field)
        _Track.log = keep
        if keep is not None:
            keep |= done
        done |= {(k, None) for k in range(first + 1, _Track.sid + 1)}
        self.havocked = getattr(self, 'havocked', {})
        self.havocked[lid] = done

    def _track_start(self, fr):
        st = (_Track.log, _Track.sid, self._natives(fr))
        _Track.log = set()
        return st

    def _natives(self, fr):
        out = []
        seen = set()

        def walk(v, d):
            if id(v) in seen or d > 3:
                return
            if type(v) in (list, dict, set):
                seen.add(id(v))
                out.append((v, v.copy()))
                for x in (v.values() if type(v) is dict else v):
                    walk(x, d + 1)
            elif isinstance(v, tuple):
                for x in v:
                    walk(x, d + 1)
        f = fr
        while f is not None:
            for v in f.env.values():
                walk(v, 0)
            f = f.closure
        for o in list(_Track.reg.values()):
            if isinstance(o, HObj):
                for v in o.fields.values():
                    walk(v, 0)
        return out

    def _track_end(self, st, fr, lid):
        outer, start, nat = st
        log = _Track.log if _Track.log is not None else set()
        _Track.log = outer
        if outer is not None:
            outer |= log
        new = {(sid, f) for sid, f in log if sid <= start} - self.havocked.get(lid, set())
        have = self.unit.loop_mods.setdefault(lid, set())
        if new - have:
            have |= new
            self.unit.new_mods = True
        for v, old in nat:
            if len(v) != len(old) or any(a is not b for a, b in (zip(list(v.items()), list(old.items())) if False else
                                                               (zip(v.values(), old.values()) if type(v) is dict else zip(v, old)))) \
                    or (type(v) is dict and list(v) != list(old)):
                raise Unsupported(f'native container changed in cut loop {lid}')

    def _lift_env(self, fr, names):
        for x in names:
            if x == '$yield':
                if isinstance(fr.yields, list):
                    fr.yields = ops.to_L(self, fr.yields, self.unit.elem_kind('$yield'))
                continue
            if x in fr.env:
                fr.env[x] = self.lift(fr.env[x], x)

    def _havoc(self, fr, names, lid):
        for x in names:
            if x == '$yield':
                fr.yields = self.havoc_val(fr.yields, 'yields')
            elif x in fr.env:
                cur = fr.env[x]
                k = self.unit.loop_kinds.get((lid, x))
                if k is not None:
                    fr.env[x] = self.given[(lid, x)] = self.ctx.mk('real', x) if k == 'real' else U(self.ctx.fresh(x, US))
                    continue
                if isinstance(cur, (HObj, Fn, type, types.ModuleType)):
                    self.given[(lid, x)] = cur
                    continue
                nv = self.given[(lid, x)] = self.havoc_val(cur, x)
                if isinstance(cur, (L, S, D)) and not getattr(cur, 'tup', False):
                    cur.become(nv)      # keep identity (aliasing)
                else:
                    fr.env[x] = nv
        h = self.unit.loop_havoc.get(lid.split('#')[0])
        if h:
            h(self, fr, lid)
        else:
            for o in self.ctx.ghost.get('heap', []):
                self._havoc_heap(o, fr, lid)
        self.ctx.trace.append(('loop', lid))

    def _havoc_heap(self, o, fr, lid):
        for f in self.unit.loop_fields.get(lid.split('#')[0], ()):
            if f in o.fields:
                nv = self.havoc_val(o.fields[f], f)
                cur = o.fields[f]
                if isinstance(cur, (L, S, D)):
                    cur.become(nv)
                else:
                    o.fields[f] = nv

    def _cands(self, lid, lv):
        return None

    def _inv(self, lid, lv):
        f = self.unit.invariants_for(lid)
        if f is None:
            return []
        out = []
        for item in f(lv):
            out.append(item)
        return out

    def _check(self, lid, nm, phase, c):
        """Houdini candidates (name starts with '?') are dropped silently when not inductive;
        other invariants are obligations."""
        ctx = self.ctx
        if nm.startswith('?'):
            if (lid, nm) in self.unit.newly_dropped or self.unit.new_mods:
                return
            if not ctx.holds(c, self.unit.houdini_ms):
                self.unit.newly_dropped.add((lid, nm))
                if os.environ.get('VERIF_RL'):
                    print('RL DROP', lid, nm, phase, ctx.dec if os.environ['VERIF_RL'] == nm else '', [t for t, _ in ctx.pc] + [c] if os.environ['VERIF_RL'] == nm else '', flush=True)
            else:
                self.unit.houdini_ok.add((lid, nm, phase))
        else:
            ctx.prove(f'{lid}:{nm}:{phase}', c)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expr ' + type(e).__name__)
        return m(e, fr)

    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.closure
        if name in fr.glob:
            return fr.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if name == '__class__' and fr.cls:
            return fr.cls
        raise PyRaise(NameError, name)

    def store(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if name in f.env:
                    if _Track.log is not None:
                        raise Unsupported('nonlocal changed in a cut loop')
                    f.env[name] = v
                    return
                f = f.closure
        fr.env[name] = v

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Attribute(self, e, fr):
        return ops.getattr_(self, self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return ops.getitem(self, self.ev(e.value, fr), self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*(self.ev(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)))

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(ops.concrete_iter(self, self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        vs = self.elts(e.elts, fr)
        if any(is_sym(x) for x in vs):
            return ops.to_S(self, vs, None)
        return set(vs)

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, fr)
            if k is None:
                if not isinstance(vv, dict):
                    raise Unsupported('** of symbolic')
                d.update(vv)
                continue
            kk = self.ev(k, fr)
            if is_sym(kk):
                raise Unsupported('dict display with symbolic key')
            d[kk] = vv
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, fr)
                spec = None
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec, fr)
                parts.append((v, p.conversion, spec))
        return ops.fstring(self, parts)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        # value semantics: try to stay in formula form when all operands are boolean
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = ops.truth(self, v)
            if self.ctx.quiet and not isinstance(t, bool):
                rest = [t]
                for y in e.values[i + 1:]:
                    ty = ops.truth(self, self.ev(y, fr))
                    rest.append(z3.BoolVal(ty) if isinstance(ty, bool) else ty)
                return B(z3.And(*rest) if isand else z3.Or(*rest))
            d = self.ctx.branch(t)
            if d != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = ops.truth(self, v)
            return (not t) if isinstance(t, bool) else B(z3.Not(t))
        if isinstance(e.op, ast.USub):
            if is_sym(v):
                if isinstance(v, R):
                    return R(-v.t)
                return I(-self.ctx.int_t(v))
            return -v
        if not is_sym(v):
            return ~v if isinstance(e.op, ast.Invert) else +v
        raise Unsupported('unary')

    def e_BinOp(self, e, fr):
        return ops.binop(self, type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = ops.compare(self, type(op).__name__, left, right)
            if c is False:
                return False
            res.append(c)
            left = right
        res = [c for c in res if c is not True]
        if not res:
            return True
        return B(z3.And(*res)) if len(res) > 1 else B(res[0])

    def e_IfExp(self, e, fr):
        if self.ctx.quiet:
            t = ops.truth(self, self.ev(e.test, fr))
            if isinstance(t, bool):
                return self.ev(e.body if t else e.orelse, fr)
            return ops.ite(self, t, self.ev(e.body, fr), self.ev(e.orelse, fr))
        if self.cond(e.test, fr):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_Lambda(self, e, fr):
        pd = [self.ev(d, fr) for d in e.args.defaults]
        kd = {k.arg: self.ev(d, fr) for k, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}
        return Fn(e, fr.glob, fr, None, fr.qual + '.<lambda>', fr.cls, (pd, kd))

    def e_Call(self, e, fr):
        # logging and printing carry no obligation: skip without evaluating
        if _is_log(e):
            return None
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return ops.SuperV(fr.cls, fr.env.get('self', fr.env.get('cls')))
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and len(e.args) == 1 and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            r = self.quantified(e.func.id, e.args[0], fr)
            if r is not NotImplemented:
                return r
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(ops.concrete_iter(self, self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, dict):
                    kwargs.update(d)
                else:
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs, e)

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if isinstance(fr.yields, L):
            ops.list_append(self, fr.yields, v)
        else:
            fr.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        if isinstance(fr.yields, list) and isinstance(v, (list, tuple)):
            fr.yields.extend(v)
        elif isinstance(fr.yields, list) and not fr.yields and isinstance(v, L):
            fr.yields = v.copy()
        elif isinstance(v, (L, list, tuple)):
            if isinstance(v, L) and isinstance(fr.yields, list):
                fr.yields = ops.to_L(self, fr.yields, v.ek)
            if isinstance(v, L):
                fr.yields.become(ops.l_concat(self, fr.yields, v))
            else:
                for x in v:
                    ops.list_append(self, fr.yields, x)
        else:
            raise Unsupported('yield from')

    # comprehensions
    def comp(self, gens, elt, fr, sink, k=0):
        g = gens[k]
        seq = ops.iterate(self, self.ev(g.iter, fr))
        if isinstance(seq, It):
            return NotImplemented
        for x in list(seq):
            self.assign(g.target, x, fr)
            if all(self.cond(c, fr) for c in g.ifs):
                if k + 1 < len(gens):
                    r = self.comp(gens, elt, fr, sink, k + 1)
                    if r is NotImplemented:
                        raise Unsupported('nested symbolic comprehension')
                else:
                    sink(fr)
        return None

    def _sub(self, fr):
        f2 = Frame(fr.glob, fr, fr.qual, fr.cls)
        return f2

    def e_ListComp(self, e, fr):
        out = []
        f2 = self._sub(fr)
        r = self.comp(e.generators, None, f2, lambda f: out.append(self.ev(e.elt, f)))
        if r is NotImplemented:
            return self.symcomp(e, fr)
        return out

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        v = self.e_ListComp(e, fr)
        return ops.make_set(self, v)

    def e_DictComp(self, e, fr):
        out = {}

        def sink(f):
            k = self.ev(e.key, f)
            if is_sym(k):
                raise Unsupported('symbolic dict comp key')
            out[k] = self.ev(e.value, f)
        r = self.comp(e.generators, None, self._sub(fr), sink)
        if r is NotImplemented:
            raise Unsupported('dictcomp over symbolic')
        return out

    def pure_eval(self, fn):
        """evaluate in formula mode (no forking)"""
        self.ctx.quiet += 1
        try:
            return fn()
        finally:
            self.ctx.quiet -= 1

    def symcomp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported('nested symbolic comprehension')
        g = e.generators[0]
        ctx = self.ctx
        seq = ops.iterate(self, self.ev(g.iter, fr))
        n = seq.n if not isinstance(seq.n, int) else z3.IntVal(seq.n)
        f2 = self._sub(fr)
        k = ctx.fresh('ck', INT)

        def at(idx):
            self.assign(g.target, seq.get(idx), f2)
            conds = [ops.truth(self, self.ev(c, f2)) for c in g.ifs]
            return ops.and_(conds), self.ev(e.elt, f2)
        npc, n0 = len(ctx.pc), ctx.n
        c, v = self.pure_eval(lambda: at(k))
        ek = ops.kind_of(v)
        vt = ctx.term(v, ek)
        facts = [t for t, _ in ctx.pc[npc:]]
        per = _per_element(n0, k, facts + [vt] + ([] if isinstance(c, bool) else [c]))
        vt = z3.substitute(vt, *per) if per else vt
        c = z3.substitute(c, *per) if per and not isinstance(c, bool) else c
        # facts assumed while evaluating with k generic hold for every k
        for t in facts:
            t = z3.substitute(t, *per) if per else t
            if _mentions(t, k):
                ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), t)))
        res = L(n, None, ek, ecls=getattr(v, 'ty', None))
        if c is True:
            res.a = ctx.fresh('map', z3.ArraySort(INT, sort_of(ek)))
            ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), res.a[k] == vt), patterns=[res.a[k]]))
            return res
        m = ctx.fresh('flt_n', INT)
        a = ctx.fresh('flt', z3.ArraySort(INT, sort_of(ek)))
        ctx.n += 1
        if isinstance(seq.src, L) and not isinstance(c, bool):
            # where the chosen elements come from depends on the sequence and the condition alone: the same choice from an equal sequence is the same
            A = seq.src.a
            cA, ck = z3.Const('seq?', A.sort()), z3.Int('pos?')
            key = hashlib.blake2b(z3.substitute(c, (A, cA), (k, ck)).sexpr().encode(), digest_size=8).hexdigest()
            fs, fi = (z3.Function(f'{x}#{key}', A.sort(), INT, INT) for x in ('src', 'inv'))
            src, inv = (lambda x: fs(A, x)), (lambda x: fi(A, x))
        else:
            src = z3.Function(f'src!{ctx.n}', INT, INT)
            inv = z3.Function(f'inv!{ctx.n}', INT, INT)
        j = ctx.fresh('j', INT)
        j2 = ctx.fresh('j2', INT)
        ctx.assume(z3.And(m >= 0, m <= n))
        cs = z3.BoolVal(c) if isinstance(c, bool) else c
        cj = z3.substitute(cs, (k, src(j)))
        vj = z3.substitute(vt, (k, src(j)))
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m),
                                             z3.And(src(j) >= 0, src(j) < n, cj, a[j] == vj, inv(src(j)) == j)), patterns=[a[j]]))
        ctx.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), src(j) < src(j2))))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, cs),
                                             z3.And(inv(k) >= 0, inv(k) < m, src(inv(k)) == k)), patterns=[inv(k)]))
        res.n, res.a = m, a
        if isinstance(seq.src, L):
            ctx.ghost.setdefault('filters', []).append((a, src))      # a contract may name where a chosen element came from
        return res

    def quantified(self, which, e, fr):
        if len(e.generators) != 1:
            return NotImplemented
        g = e.generators[0]
        ctx = self.ctx
        seq = ops.iterate(self, self.ev(g.iter, fr))
        if not isinstance(seq, It):
            f2 = self._sub(fr)
            acc = []
            for x in list(seq):
                self.assign(g.target, x, f2)
                if not all(self.cond(c, f2) for c in g.ifs):
                    continue
                if self.ctx.quiet:
                    acc.append(ops.truth(self, self.ev(e.elt, f2)))
                elif self.cond(e.elt, f2) == (which == 'any'):
                    return which == 'any'
            if self.ctx.quiet:
                r = ops.or_(acc) if which == 'any' else ops.and_(acc)
                return r if isinstance(r, bool) else B(r)
            return which == 'all'
        n = seq.n if not isinstance(seq.n, int) else z3.IntVal(seq.n)
        f2 = self._sub(fr)
        k = ctx.fresh('qk', INT)

        def body():
            self.assign(g.target, seq.get(k), f2)
            conds = [ops.truth(self, self.ev(c, f2)) for c in g.ifs]
            return ops.and_(conds), ops.truth(self, self.ev(e.elt, f2))
        npc, n0 = len(ctx.pc), ctx.n
        c, v = self.pure_eval(body)
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        v = z3.BoolVal(v) if isinstance(v, bool) else v
        facts = [t for t, _ in ctx.pc[npc:]]
        per = _per_element(n0, k, facts + [c, v])
        if per:
            facts, (c, v) = [z3.substitute(t, *per) for t in facts], [z3.substitute(t, *per) for t in (c, v)]
        for t in facts:
            if _mentions(t, k):
                ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), t)))
        rng = z3.And(k >= 0, k < n, c)
        if which == 'any':
            return B(z3.Exists([k], z3.And(rng, v)))
        return B(z3.ForAll([k], z3.Implies(rng, v)))


def _per_element(n0, k, terms):
    """what was made up while evaluating for the generic element k is made up anew for each: constants become functions of k"""
    out, seen, st = {}, set(), list(terms)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_var(x):
            continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', d.name())
            if m and int(m.group(1)) > n0:
                if d.arity():
                    raise Unsupported(f'function {d.name()} made up for the generic element of a comprehension')
                if not z3.eq(x, k):
                    out[d.name()] = (x, z3.Function(d.name() + '@', z3.IntSort(), x.sort())(k))
        st.extend(x.children())
    return list(out.values())


def _mentions(t, k):
    st, seen = [t], set()
    kid = k.get_id()
    while st:
        x = st.pop()
        if x.get_id() == kid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def _snap(v):
    return v.copy() if isinstance(v, (L, S, D)) else v


def _fits(g, v):
    """is v among the values g stands for?"""
    if isinstance(g, B):
        return isinstance(v, (B, bool))
    if isinstance(g, I):
        return isinstance(v, (I, BV)) or isinstance(v, int) and not isinstance(v, bool)
    if isinstance(g, R):
        return isinstance(v, (R, I, int, float)) and not isinstance(v, bool) or type(v).__name__ == 'Fraction'
    if isinstance(g, L):
        return isinstance(v, L) and v.ek == g.ek or type(v) in (list, tuple)
    if isinstance(g, S):
        return isinstance(v, S) and v.ek == g.ek or type(v) in (set, frozenset)
    if isinstance(g, D):
        return isinstance(v, D) and (v.kk, v.vk) == (g.kk, g.vk) or type(v) is dict
    if isinstance(g, U):
        if g.ty is None:
            return isinstance(v, (U, B, I, R, BV, Exc, int, str, bytes, tuple)) or v is None
        return isinstance(v, U) and v.ty == g.ty or g.ty == 'str' and isinstance(v, str) or g.ty == 'bytes' and isinstance(v, bytes)
    return False


class LoopView:
    """what an invariant template sees"""

    def __init__(self, ip, lid, fr, i, seq, pre, names):
        self.ip, self.ctx, self.lid, self.fr, self.i, self.seq = ip, ip.ctx, lid, fr, i, seq
        self.pre = pre
        self.names = names

    def var(self, x):
        if x == '$yield':
            return self.fr.yields
        return self.fr.env.get(x)

    def lists(self, ek=None):
        return [(x, self.var(x)) for x in sorted(self.names) if isinstance(self.var(x), L) and (ek is None or self.var(x).ek == ek)]

    def sets(self):
        return [(x, self.var(x)) for x in sorted(self.names) if isinstance(self.var(x), S)]

    def ints(self):
        return [(x, self.var(x)) for x in sorted(self.names)
                if self.ip.unit.loop_kinds.get((self.lid, x)) is None and (isinstance(self.var(x), I) or isinstance(self.var(x), int) and not isinstance(self.var(x), bool))]

    def reals(self):
        return [(x, self.ctx.real_t(self.var(x))) for x in sorted(self.names)
                if isinstance(self.var(x), R) or self.ip.unit.loop_kinds.get((self.lid, x)) == 'real']

    def bools(self):
        return [(x, self.var(x)) for x in sorted(self.names) if isinstance(self.var(x), (bool, B))]

    def opts(self):
        """untyped values (numbers or None, say)"""
        return [(x, self.ctx.toU(self.var(x))) for x in sorted(self.names) if self.var(x) is None or isinstance(self.var(x), U) and self.var(x).ty is None or self.ip.unit.loop_kinds.get((self.lid, x)) == 'U']

    def elem(self, k):
        return self.seq.get(k)


def _is_log(e):
    f = e.func
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('logger', 'logging'):
        return f.attr not in ('isEnabledFor',)
    return isinstance(f, ast.Name) and f.id == 'print'


def _pure_expr(e):
    return not any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield)) for n in ast.walk(e))


def _is_gen(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False
