"""
Deductive VC generator for the Python of /repo.

Forward symbolic execution of the *real* AST (read from the working tree on every run) into
verification conditions that z3 (second back end: cvc5) discharges.  Functions are verified one
by one: a call to a function that has a contract uses the contract (its precondition becomes an
obligation, its postcondition an assumption), a call to a repo function without a contract is
inlined from its own source, anything else is an opaque call whose result is an arbitrary value
and which is recorded in the ghost trace.  Loops over symbolic sequences are cut by invariants;
candidate invariants are pruned to the largest inductive subset (Houdini) so that they are
phrased over the abstraction (element sequences, counts) instead of over local names.

All values are mathematical: Python int is unbounded Int (or an exact non-overflowing bit-vector in
bit-level units).
"""
import ast
import builtins
import inspect
import itertools
import os
import subprocess
import sys
import textwrap
import time
import types
import z3

z3.set_param('smt.random_seed', 0)

US = z3.DeclareSort('U')          # any Python value we do not look inside
INT = z3.IntSort()
BOOL = z3.BoolSort()
iU = z3.Function('iU', INT, US)   # int injected in U
uI = z3.Function('uI', US, INT)
truthyF = z3.Function('truthy', US, BOOL)
rankF = z3.Function('rank', US, z3.RealSort())   # total order on strings/bytes
lenF = z3.Function('lenU', US, INT)


class Unsupported(Exception):
    """construct outside the verified subset"""


class PathEnd(Exception):
    """path finished early (loop iteration closed, infeasible)"""


class PyRaise(Exception):
    def __init__(self, cls, val=None):
        self.cls = cls
        self.val = val


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


# ------------------------------------------------------------------ values
class V:
    pass


class I(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'I({self.t})'


class B(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f'B({self.t})'


class BV(V):
    """exact non-negative int held in a bit vector wide enough never to overflow"""
    __slots__ = ('t', 'w')

    def __init__(self, t):
        self.t = t
        self.w = t.size()


class R(V):
    """rational (Fraction / exact float stand-in)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class U(V):
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty=None):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return f'U({self.t})'


SORTS = {'U': US, 'int': INT, 'bool': BOOL, 'str': US, 'bytes': US, 'nat': INT, 'real': z3.RealSort()}


def sort_of(kind):
    return SORTS.get(kind, US)


class _Track:
    """records which pre-existing mutable values a loop body changes (see Interp.cut_for)"""
    sid = 0
    reg = {}
    log = None      # innermost set of (sid, field) or None

    @classmethod
    def reset(cls):
        cls.sid = 0
        cls.reg = {}
        cls.log = None

    @classmethod
    def new(cls, o):
        cls.sid += 1
        o.__dict__['sid'] = cls.sid
        cls.reg[cls.sid] = o

    @classmethod
    def note(cls, o, field=None):
        if cls.log is not None:
            cls.log.add((o.__dict__.get('sid', 0), field))


class Mut(V):
    """base of symbolic containers that may be changed in place"""

    def __setattr__(self, k, v):
        self.__dict__[k] = v
        if 'sid' in self.__dict__:
            _Track.note(self)

    def become(self, other):
        sid = self.__dict__.get('sid')
        self.__dict__.update(other.__dict__)
        self.__dict__['sid'] = sid
        _Track.note(self)


class Fields(dict):
    """fields of a heap object; writes are recorded"""

    def __init__(self, owner):
        super().__init__()
        self.owner = owner

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        _Track.note(self.owner, k)

    def init(self, k, v):
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        for kk, v in dict(*a, **k).items():
            self[kk] = v


class L(Mut):
    """symbolic sequence: n elements, a: Array(Int, elem)"""

    def __init__(self, n, a, ek='U', tup=False, ecls=None):
        self.n = n
        self.a = a
        self.ek = ek
        self.tup = tup
        self.ecls = ecls
        _Track.new(self)

    def copy(self):
        return L(self.n, self.a, self.ek, self.tup, self.ecls)

    def __repr__(self):
        return f'L(n={self.n})'


class OL(L):
    """ordered set: a sequence without repetitions"""

    def copy(self):
        return OL(self.n, self.a, self.ek, False, self.ecls)


class S(Mut):
    def __init__(self, a, ek='U', ecls=None):
        self.a = a
        self.ek = ek
        self.ecls = ecls
        _Track.new(self)

    def copy(self):
        return S(self.a, self.ek, self.ecls)


class D(Mut):
    def __init__(self, has, val, kk='U', vk='U'):
        self.has = has
        self.val = val
        self.kk = kk
        self.vk = vk
        _Track.new(self)

    def copy(self):
        return D(self.has, self.val, self.kk, self.vk)


class Mem(Mut):
    """one attribute of opaque objects that the code assigns: map from object to value"""

    def __init__(self, name, kind, ecls, a):
        self.name = name
        self.kind = kind
        self.ecls = ecls
        self.a = a
        _Track.new(self)

    def copy(self):
        return Mem(self.name, self.kind, self.ecls, self.a)


class SB(V):
    """bytes/str of concrete length with symbolic content"""

    def __init__(self, items, isstr=False, mut=False):
        self.items = list(items)   # int or BitVec(8)
        self.isstr = isstr
        self.mut = mut

    def __len__(self):
        return len(self.items)

    def __repr__(self):
        return f'SB[{len(self.items)}]'


class It(V):
    """abstract iterable: n elements, get(i: z3 Int) -> value"""

    def __init__(self, n, get, src=None):
        self.n = n
        self.get = get
        self.src = src


class HObj(V):
    """mutable heap object of known real class"""

    def __init__(self, cls, name='obj', schema=None):
        self.cls = cls
        self.name = name
        _Track.new(self)
        self.fields = Fields(self)
        self.old = {}
        self.schema = schema or {}

    def __repr__(self):
        return f'<HObj {self.name}>'


class Fn(V):
    def __init__(self, node, glob, closure=None, selfv=None, qual='', cls=None, defaults=None):
        self.node = node
        self.glob = glob
        self.closure = closure
        self.selfv = selfv
        self.qual = qual
        self.cls = cls
        self.defaults = defaults


class Meth(V):
    """bound method name on a symbolic/builtin receiver"""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class OpaqueMod(V):
    def __init__(self, name):
        self.name = name


class Exc(V):
    """caught exception object"""

    def __init__(self, cls, val=None):
        self.cls = cls
        self.val = val


def is_sym(v, _d=0):
    if isinstance(v, V):
        return True
    if _d < 6:
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(is_sym(x, _d + 1) for x in v)
        if type(v) is dict:
            return any(is_sym(x, _d + 1) or is_sym(k, _d + 1) for k, x in v.items())
        if isinstance(v, slice):
            return any(is_sym(x) for x in (v.start, v.stop, v.step))
    return False


# ------------------------------------------------------------------ source access
_AST = {}


def module_ast(path):
    st = os.stat(path).st_mtime_ns
    if path not in _AST or _AST[path][0] != st:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}

        def walk(n, pre):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    idx.setdefault((c.name, c.lineno), c)
                    for d in c.decorator_list:
                        idx.setdefault((c.name, d.lineno), c)
                    walk(c, pre + c.name + '.')
                elif isinstance(c, ast.ClassDef):
                    walk(c, pre + c.name + '.')
                else:
                    walk(c, pre)
        walk(tree, '')
        _AST[path] = (st, idx)
    return _AST[path][1]


def func_ast(fn):
    code = fn.__code__
    path = code.co_filename
    idx = module_ast(path)
    node = idx.get((code.co_name, code.co_firstlineno))
    if node is None:
        for (n, ln), c in idx.items():
            if n == code.co_name and abs(ln - code.co_firstlineno) < 3:
                node = c
    if node is None:
        raise Unsupported(f'no source for {fn.__qualname__}')
    return node


REPO = os.environ.get('VERIF_REPO', '/repo')


def in_repo(fn):
    try:
        p = fn.__code__.co_filename
    except AttributeError:
        return False
    return p.startswith(REPO + '/')


def key_of(fn):
    return f'{fn.__module__}:{fn.__qualname__}'


# ------------------------------------------------------------------ obligations
class Ob:
    __slots__ = ('name', 'status', 'secs', 'backend', 'model', 'path', 'info', 'unit')

    def __init__(self, name, status, secs, backend, model=None, path=None, info=''):
        self.name = name
        self.status = status
        self.secs = secs
        self.backend = backend
        self.model = model
        self.path = path
        self.info = info


STATS = {'feas': 0, 'feas_s': 0.0}
CVC5 = '/usr/bin/cvc5'
Z3NEW = '/usr/local/bin/z3-new'
for _c in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(_c):
        CVC5 = _c
        break


class Ctx:
    def __init__(self, unit, prefix, dropped):
        _Track.reset()
        self.unit = unit
        self.prefix = prefix
        self.dec = []
        self.alts = []
        self.pc = []            # (term, quantified?)
        self.fs = z3.Solver()
        limit(self.fs, unit.feas_ms)
        self.trace = []
        self.obs = []
        self.dropped = dropped
        self.n = 0
        self.inj = {}
        self.injlist = []
        self.cache = {}
        self.depth = 0
        self.ghost = {}
        self.loopcount = 0
        self.ax_done = set()
        self.steps = 0
        self.quiet = 0
        self.mems = {}
        for nm in sorted(getattr(unit, 'heap_attrs', {})):
            kind = unit.heap_attrs[nm]
            ecls = None
            if kind.startswith('obj:'):
                kind, ecls = 'U', kind[4:]
            self.mems[nm] = Mem(nm, kind, ecls, self.fresh('mem_' + nm, z3.ArraySort(US, sort_of(kind))))

    # ---- fresh
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const(f'{name}!{self.n}', sort)

    def mk(self, kind, name, ecls=None):
        if callable(kind) and not isinstance(kind, str):
            return kind(self, name)
        if kind == 'int':
            return I(self.fresh(name, INT))
        if kind == 'nat':
            t = self.fresh(name, INT)
            self.assume(t >= 0)
            return I(t)
        if kind == 'bool':
            return B(self.fresh(name, BOOL))
        if kind == 'real':
            return R(self.fresh(name, z3.RealSort()))
        if kind in ('U', 'str', 'bytes'):
            return U(self.fresh(name, US), kind if kind != 'U' else None)
        if kind.startswith('obj:'):
            t = self.fresh(name, US)
            self.assume(truthyF(t))
            self.assume(t != self.injt(None))
            return U(t, kind[4:])
        if kind.startswith('list:') or kind.startswith('tuple:'):
            ek = kind.split(':', 1)[1]
            n = self.fresh(name + '_n', INT)
            self.assume(n >= 0)
            return L(n, self.fresh(name + '_a', z3.ArraySort(INT, sort_of(ek))), ek, kind[0] == 't')
        if kind.startswith('set:'):
            ek = kind[4:]
            return S(self.fresh(name, z3.ArraySort(sort_of(ek), BOOL)), ek)
        if kind.startswith('dict:'):
            _, kk, vk = kind.split(':')
            return D(self.fresh(name + '_has', z3.ArraySort(sort_of(kk), BOOL)),
                     self.fresh(name + '_val', z3.ArraySort(sort_of(kk), sort_of(vk))), kk, vk)
        if kind.startswith('opt:'):
            if self.choose(2, name + ' is None') == 0:
                return None
            return self.mk(kind[4:], name)
        if kind == 'none':
            return None
        raise Unsupported('kind ' + kind)

    def from_term(self, kind, t):
        if kind in ('int', 'nat'):
            if kind == 'nat':
                self.assume(t >= 0)
            return I(t)
        if kind == 'bool':
            return B(t)
        if kind == 'real':
            return R(t)
        return U(t, kind if kind != 'U' else None)

    # ---- facts
    def assume(self, t, q=None):
        if t is True or (z3.is_expr(t) and z3.is_true(t)):
            return
        if t is False:
            raise PathEnd()
        if q is None:
            q = _has_quant(t)
        self.pc.append((t, q))
        if not q:
            self.fs.add(t)

    def injt(self, v):
        """U constant for a concrete hashable Python value"""
        if isinstance(v, bool):
            k = ('b', v)
        elif isinstance(v, int):
            t = iU(z3.IntVal(v))
            self._int_ax(t, z3.IntVal(v))
            return t
        elif isinstance(v, (str, bytes)) or v is None:
            k = (type(v).__name__, v)
        else:
            try:
                k = ('o', type(v).__name__, hash(v), v)
            except TypeError:
                k = ('id', id(v))
                self.cache.setdefault('keep', []).append(v)
        if k not in self.inj:
            c = z3.Const('k_' + str(len(self.inj)) + '_' + ''.join(ch for ch in str(k[-1])[:20] if ch.isalnum()), US)
            for o, _ in self.injlist:
                self.assume(c != o, q=False)
            self.inj[k] = c
            self.injlist.append((c, v))
            try:
                self.assume(truthyF(c) == bool(v), q=False)
                if isinstance(v, (str, bytes)):
                    self.assume(lenF(c) == len(v), q=False)
            except Exception:
                pass
        return self.inj[k]

    def _int_ax(self, t, i):
        h = ('iU', i.get_id())
        if h not in self.ax_done:
            self.ax_done.add(h)
            self.cache.setdefault('keepz', []).append(i)
            self.assume(uI(t) == i, q=False)
            self.assume(t != self.injt(None), q=False)
            self.assume(truthyF(t) == (i != 0), q=False)

    def toU(self, v):
        if isinstance(v, U):
            return v.t
        if isinstance(v, I):
            t = iU(v.t)
            self._int_ax(t, v.t)
            return t
        if isinstance(v, B):
            return z3.If(v.t, self.injt(True), self.injt(False))
        if isinstance(v, BV):
            return self.toU(I(z3.BV2Int(v.t)))
        if isinstance(v, HObj):
            if 'U' not in v.__dict__:
                v.U = self.fresh('h_' + v.name, US)
                self.assume(truthyF(v.U))
                self.assume(v.U != self.injt(None))
            return v.U
        if isinstance(v, L):
            k = ('LU', v.n if isinstance(v.n, int) else v.n.get_id(), v.a.get_id())
            if k not in self.cache:
                t = self.fresh('lst', US)
                self.assume(lenF(t) == v.n)
                self.assume(truthyF(t) == (v.n > 0))
                self.assume(t != self.injt(None))
                self.cache[k] = (t, v.n, v.a)
            return self.cache[k][0]
        if isinstance(v, (S, D, It, Fn, Meth, OpaqueMod, SB, Exc, R)):
            key = ('VU', id(v))
            if key not in self.cache:
                t = self.fresh('val', US)
                self.cache[key] = (t, v)
                if isinstance(v, Exc):
                    self.assume(z3.And(truthyF(t), t != self.injt(None)))
            return self.cache[key][0]
        if isinstance(v, (tuple, list)) and is_sym(v):
            ts = [self.toU(x) for x in v]
            f = z3.Function(f'tup{len(ts)}', *([US] * len(ts)), US)
            t = f(*ts)
            h = ('tup', t.get_id())
            if h not in self.ax_done:
                self.ax_done.add(h)
                self.cache.setdefault('keepz', []).append(t)
                self.assume(truthyF(t) == (len(ts) > 0))
                self.assume(t != self.injt(None))
            return t
        return self.injt(v)

    def term(self, v, kind):
        """z3 term of v in sort of kind"""
        if kind in ('int', 'nat'):
            return self.int_t(v)
        if kind == 'bool':
            c = self.truth(v)
            return z3.BoolVal(c) if isinstance(c, bool) else c
        if kind == 'real':
            return self.real_t(v)
        return self.toU(v)

    def int_t(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, I):
            return v.t
        if isinstance(v, BV):
            return z3.BV2Int(v.t)
        if isinstance(v, B):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, U):
            return uI(v.t)
        raise Unsupported(f'int_t {v!r}')

    def real_t(self, v):
        if isinstance(v, R):
            return v.t
        if isinstance(v, (I, BV)):
            return z3.ToReal(self.int_t(v))
        if isinstance(v, U):
            f = z3.Function('uR', US, z3.RealSort())
            return f(v.t)
        from fractions import Fraction
        fr = Fraction(v)
        return z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)

    # ---- decisions
    def _feasible(self, t):
        t0 = time.time()
        r = self.fs.check(t)
        STATS['feas'] += 1
        STATS['feas_s'] += time.time() - t0
        return r != z3.unsat

    def branch(self, c, why=''):
        """decide a condition; c python bool or z3 Bool"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.quiet:
            raise Unsupported('branch in pure context')
        k = len(self.dec)
        if k < len(self.prefix):
            d = self.prefix[k]
            forced = isinstance(d, str)
            d = d in ('T', True)
            self.dec.append(self.prefix[k])
        else:
            ft = self._feasible(c)
            ff = self._feasible(z3.Not(c)) if ft else True
            if ft and ff:
                d = True
                self.alts.append(self.dec + [False])
                self.dec.append(True)
            elif ft:
                d = True
                self.dec.append('T')
            else:
                d = False
                self.dec.append('F')
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, why=''):
        k = len(self.dec)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.dec.append(d)
            return d
        for j in range(n - 1, 0, -1):
            self.alts.append(self.dec + [j])
        self.dec.append(0)
        return 0

    def truth(self, v):
        """python bool or z3 Bool for truthiness of v"""
        if isinstance(v, B):
            return v.t
        if isinstance(v, I):
            return v.t != 0
        if isinstance(v, BV):
            return v.t != 0
        if isinstance(v, R):
            return v.t != 0
        if isinstance(v, U):
            return truthyF(v.t)
        if isinstance(v, L):
            return v.n > 0 if not isinstance(v.n, int) else v.n > 0
        if isinstance(v, S):
            return v.a != z3.EmptySet(sort_of(v.ek))
        if isinstance(v, D):
            return v.has != z3.K(sort_of(v.kk), z3.BoolVal(False))
        if isinstance(v, SB):
            return len(v.items) > 0
        if isinstance(v, It):
            return v.n > 0
        if isinstance(v, HObj):
            m = getattr(v.cls, '__len__', None)
            if m is not None:
                raise Unsupported('truth of sized object')
            return True
        if isinstance(v, (Fn, Meth, OpaqueMod, Exc)):
            return True
        return bool(v)

    # ---- obligations
    def prove(self, name, c, info='', timeout=None):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if self.unit.parts and not name.startswith(self.unit.parts):
            return True     # belongs to another property's check
        if self.unit.new_mods or self.unit.newly_dropped - self.dropped:
            return True     # this round is going to be repeated with fewer candidates; its results are thrown away
        if sum(o.status != 'proved' for o in self.obs) >= self.unit.max_fails:
            return False
        ob = discharge(name, [t for t, _ in self.pc], c, timeout or self.unit.timeout_ms)
        ob.path = list(self.dec)
        ob.info = info
        self.obs.append(ob)
        return ob.status == 'proved'

    def lemma(self, name, c, info='', timeout=None):
        """prove, then use"""
        if self.prove(name, c, info, timeout):
            self.assume(c)

    def holds(self, c, timeout=3000):
        """silent check, for houdini"""
        ob = discharge('?', [t for t, _ in self.pc], c, timeout)
        self.unit.aux.append(ob)
        return ob.status == 'proved'

    def consistent(self, timeout=3000):
        s = z3.Solver()
        limit(s, timeout)
        s.add(*[t for t, _ in self.pc])
        return s.check() != z3.unsat


_HQ = {}


def _has_quant(t):
    """does the term contain a quantifier (memoised over subterms)"""
    if not z3.is_expr(t):
        return False
    k = t.get_id()
    e = _HQ.get(k)
    if e is not None:
        return e[0]
    if z3.is_quantifier(t):
        r = True
    else:
        r = any(_has_quant(c) for c in t.children())
    if len(_HQ) > 400000:
        _HQ.clear()
    _HQ[k] = (r, t)
    return r


RL_PER_MS = 4000        # z3 resource units granted per nominal millisecond: results do not depend on how busy the machine is
SCALE = 1               # raised when a unit is given a second chance


def limit(s, ms):
    s.set('rlimit', int(ms * RL_PER_MS * SCALE))
    s.set('timeout', int(ms * 12 * SCALE))


def _syms(t, cache={}):
    """names of the uninterpreted constants and functions in t"""
    k = t.get_id()
    if k in cache and cache[k][0].eq(t):
        return cache[k][1]
    out = set()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    cache[k] = (t, frozenset(out))
    return cache[k][1]


def slice_hyps(hyps, goal, hops):
    """the facts that share symbols with the goal, directly or over a few steps; symbols that most facts mention do not connect"""
    sy = [_syms(h) for h in hyps]
    freq = {}
    for x in sy:
        for n in x:
            freq[n] = freq.get(n, 0) + 1
    common = {n for n, c in freq.items() if c > max(12, len(hyps) // 4)}
    have = set(_syms(goal)) - common
    keep = [False] * len(hyps)
    for _ in range(hops):
        new = set()
        for i, x in enumerate(sy):
            if not keep[i] and (x & have):
                keep[i] = True
                new |= x
        have |= new - common
    return [h for h, k, x in zip(hyps, keep, sy) if k or not _has_quant(h)]


PORTFOLIO = [('full', {}, 0.15), ('full', {'smt.mbqi': False}, 0.3), (2, {'smt.mbqi': False}, 0.3), (1, {}, 0.2), (3, {}, 0.3), ('full', {'smt.random_seed': 7}, 0.3), ('full', {}, 1)]


def discharge(name, hyps, goal, timeout):
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Ob(name, 'proved', time.time() - t0, 'z3-simplify')
    why = ''
    for which, opts, part in PORTFOLIO if name != '?' else [('full', {}, 1)]:
        s = z3.Solver()
        for k, v in opts.items():
            s.set(k, v)
        limit(s, timeout * part)
        s.add(*(hyps if which == 'full' else slice_hyps(hyps, goal, which)))
        s.add(z3.Not(goal))
        r = s.check()
        if DEBUG_RL:
            st = s.statistics()
            rl = [st.get_key_value(k) for k in st.keys() if k == 'rlimit count']
            print('RL', name, r, which, opts, rl, round(time.time() - t0, 2), flush=True)
        if r == z3.unsat:
            return Ob(name, 'proved', time.time() - t0, 'z3')
        if r == z3.sat and which == 'full':
            try:
                m = str(s.model())[:4000]
            except Exception:
                m = ''
            return Ob(name, 'refuted', time.time() - t0, 'z3', m)
        if r == z3.unknown:
            why = s.reason_unknown()
    if DUMP:
        s = z3.Solver()
        s.add(*hyps)
        s.add(z3.Not(goal))
        _n[0] += 1
        open(f'{DUMP}/{_n[0]}.smt2', 'w').write(s.to_smt2())
        print('DUMP', _n[0], name)
    if name == '?':
        return Ob(name, 'unknown', time.time() - t0, 'z3', why)
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    # second opinion
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
        import re
        txt = re.sub(r'\(set-info[^)]*\)', '', txt).replace('\\|', '_')
        p = subprocess.run([Z3NEW, '-in', f'rlimit={int(timeout * RL_PER_MS * SCALE)}', f'-T:{max(1, int(timeout * SCALE * 12 / 1000))}'],
                           input=txt.replace('(set-logic ALL)\n', '', 1), capture_output=True, text=True)
        if p.stdout.split()[:1] == ['unsat']:
            return Ob(name, 'proved', time.time() - t0, 'z3-new')
        lim = timeout * SCALE * 3
        p = subprocess.run([CVC5, '--lang=smt2', f'--tlimit={lim}', '--full-saturate-quant'], input=txt,
                           capture_output=True, text=True, timeout=lim / 1000 + 5)
        out = p.stdout.strip().splitlines()
        if out and out[0] == 'unsat':
            return Ob(name, 'proved', time.time() - t0, 'cvc5')
    except Exception:
        pass
    return Ob(name, 'unknown', time.time() - t0, 'z3+cvc5', why)


DEBUG_RL = os.environ.get('VERIF_RL')
DUMP = os.environ.get('VERIF_DUMP')
_n = [0]
