"""Proof units: a contracted function, how its inputs are quantified, and what must hold."""
import sys
import time
import traceback
import types
import z3
from .engine import *
from . import interp as _interp

DEFAULT_ATTRS = {
    'sn': 'int', 'num': 'int', 'index': 'int', 'ondex': 'int', 's': 'int', 'size': 'int', 'fn': 'int', 'fullSize': 'int',
    'transferable': 'bool', 'estive': 'bool', 'digestive': 'bool', 'prefixive': 'bool', 'special': 'bool', 'weighted': 'bool',
    'qb64': 'str', 'qb64b': 'bytes', 'raw': 'bytes', 'said': 'str', 'saidb': 'bytes', 'pre': 'str', 'preb': 'bytes', 'ilk': 'str',
    'code': 'str', 'snh': 'str', 'numh': 'str', 'delpre': 'str', 'prior': 'str', 'route': 'str', 'dts': 'str', 'schema': 'str',
    'verfers': 'list:obj=Verfer', 'ndigers': 'list:obj=Diger', 'berfers': 'list:obj=Verfer', 'werfers': 'list:obj=Verfer',
    'backs': 'list:str', 'cuts': 'list:str', 'adds': 'list:str', 'traits': 'list:str', 'seals': 'list:U', 'ndigs': 'list:str',
    'keys': 'list:str',
    'tholder': 'obj:Tholder', 'ntholder': 'obj:Tholder', 'sner': 'obj:Number', 'bner': 'obj:Number', 'verfer': 'obj:Verfer',
    'ked': 'obj:dict', 'sad': 'obj:dict',
}


class Unit:
    """one proof unit.  setup(ip) -> (callable, args, kwargs); post(ip, outcome) states obligations"""
    timeout_ms = 10000
    feas_ms = 1500
    houdini_ms = 3000
    max_paths = 4000
    max_steps = 60000
    max_unroll = 400
    max_rounds = 8
    max_fails = 3

    def __init__(self, name, target, setup, post, models=None, attrs=None, pure=(), opaque=(), raises=None, invariants=None,
                 kinds=None, loop_fields=None, keys=None, on_opaque=None, elem_kinds=None, whiles=None, item_types=None, notes='',
                 budget=240, methods=(), cover=None, **kw):
        self.name = name
        self.target = target            # list of keys of functions under contract here
        self.setup = setup
        self.post = post
        self.models = dict(models or {})
        self.attrs = dict(DEFAULT_ATTRS)
        self.attrs.update(attrs or {})
        self.pure = set(pure)
        self.opaque_fns = set(opaque)
        self.raises = raises or {}
        self.invs = invariants or {}
        self.kinds = kinds or {}
        self.loop_fields = loop_fields or {}
        self.loop_havoc = kw.pop('loop_havoc', {})
        self.keys = keys or {}
        self.on_opaque = on_opaque
        self.elem_kinds = elem_kinds or {}
        self.whiles = whiles or {}
        self.item_types = item_types or {}
        self.notes = notes
        self.budget = budget
        self.methods = set(methods)
        self.cover = cover
        self.list_hooks = kw.pop('list_hooks', [])
        self.listy = kw.pop('listy', ())
        self.numeric = tuple(kw.pop('numeric', ()))     # types of opaque values that are rational numbers
        self.parts = tuple(kw.pop('parts', ()))     # prove only the obligations whose names start like this
        self.classes = kw.pop('classes', {})
        self.expect_paths = kw.pop('expect_paths', 1)
        for k, v in kw.items():
            setattr(self, k, v)
        self.reset()

    def reset(self):
        self.inlined = set()
        self.opaque_calls = set()
        self.aux = []
        self.newly_dropped = set()
        self.new_mods = False
        self.houdini_ok = set()
        self.loop_ids = {}
        self.covered = set()

    # hooks
    def attr_kind(self, cls, name):
        return self.attrs.get((cls, name)) or self.attrs.get(name) or ('method' if (cls, name) in self.methods or name in self.methods else 'U')

    def is_method_name(self, cls, name):
        if ('meth', cls, name) in self.models or ('meth', None, name) in self.models:
            return True
        c = self.class_named(cls) if cls else None
        if c is not None:
            raw = getattr(c, name, None)
            return isinstance(raw, (types.FunctionType, types.MethodType)) or (callable(raw) and not isinstance(raw, type))
        return name in METHODS

    def class_named(self, n):
        return self.classes.get(n) or CLASSES.get(n)

    def key_kind(self, o, k):
        return self.keys.get(k, 'U')

    def invariants_for(self, lid):
        for k in (lid, lid.split('#')[0], '*'):
            if k in self.invs:
                return self.invs[k]
        return None

    def elem_kind(self, name):
        return self.elem_kinds.get(name)

    def while_mode(self, qual):
        return self.whiles.get(qual, self.whiles.get('*', 'cut'))

    def may_raise(self, name):
        if name in self.raises:
            return self.raises[name]
        return self.raises.get(name.split('.')[-1].split(':')[-1], self.raises.get('*', False))

    def call_kind(self, name):
        return self.call_kind_or(name, 'U')

    def call_kind_or(self, name, d):
        if name in self.kinds:
            return self.kinds[name]
        return self.kinds.get('.' + name.split('.')[-1].split(':')[-1], d)

    def is_pure(self, name):
        return name in self.pure or ('.' + name.split('.')[-1].split(':')[-1]) in self.pure or name.startswith('new:')

    def is_opaque(self, key):
        return key in self.opaque_fns or key.split(':')[-1] in self.opaque_fns or key.split('.')[-1] in self.opaque_fns

    def native_ok(self, cls):
        return False

    def opaque_order(self, a, b):
        return False

    def powf(self, ip, a, y):
        f = z3.Function(f'pow_{a}', INT, INT)
        return f(y)

    def pow2(self, ip, b):
        f = z3.Function('pow2', INT, INT)
        t = ip.ctx.int_t(b)
        ip.ctx.assume(f(t) > 0)
        return f(t)

    # run
    def run(self):
        """returns dict(status, obligations[], ...)"""
        t0 = time.time()
        dropped = set()
        rounds = 0
        self.loop_mods = {}
        self.loop_kinds = {}
        err = None
        obs = []
        npaths = 0
        outcomes = {}
        while True:
            rounds += 1
            self.reset()
            obs, npaths, err, outcomes = self._explore(dropped, t0)
            if self.new_mods and rounds < 12 and not (err and 'budget' in err):
                continue
            if err or not (self.newly_dropped - dropped) or rounds >= 12:
                if (self.newly_dropped - dropped or self.new_mods) and not err:
                    err = 'houdini did not stabilise'
                break
            dropped |= self.newly_dropped
        if not err and self.cover and all(o.status == 'proved' for o in obs):
            missing = [c for c in self.cover if not outcomes.get(c)]
            if missing:
                obs.append(Ob('cover:' + ','.join(map(str, missing)), 'vacuous', 0, 'engine'))
        if not err and not obs:
            obs.append(Ob('nonempty', 'vacuous', 0, 'engine'))
        return dict(unit=self.name, target=self.target, obs=obs, paths=npaths, error=err, outcomes=outcomes, secs=time.time() - t0,
                    mods=module_digests(self.inlined), inlined=sorted(self.inlined), opaque=sorted(self.opaque_calls), dropped=sorted(map(str, dropped)), rounds=rounds,
                    invariants=sorted({f'{a}:{b}' for a, b, c in self.houdini_ok if (a, b) not in dropped}), aux=len(self.aux),
                    aux_s=sum(o.secs for o in self.aux))

    def _explore(self, dropped, t0):
        work = [[]]
        obs = []
        n = 0
        outcomes = {}
        while work:
            prefix = work.pop()
            n += 1
            if n > self.max_paths:
                return obs, n, 'path budget', outcomes
            if sum(o.status not in ('proved', 'vacuous') for o in obs) >= self.max_fails:
                return obs, n, None, outcomes        # failed already: the remaining paths cannot change that
            if time.time() - t0 > self.budget:
                return obs, n, 'time budget', outcomes
            ctx = Ctx(self, prefix, dropped)
            ip = _interp.Interp(ctx, self)
            try:
                f, args, kwargs = self.setup(ip)
                try:
                    r = ip.call(f, list(args), dict(kwargs))
                    out = ('return', r)
                except PyRaise as e:
                    out = ('raise', e.cls)
                except (_interp._Brk, _interp._Cont):
                    raise Unsupported('loop control escaped')
                k = out[0] if out[0] == 'return' else 'raise'
                self.outcome = out
                key = out[0] if out[0] == 'return' else 'raise:' + out[1].__name__
                # enough paths of this outcome known to be possible: no need to look whether this one is (facts proved on an impossible path are harmless)
                if outcomes.get(key, 0) >= 4 or ctx.consistent(60):
                    outcomes[k] = outcomes.get(k, 0) + 1
                    if out[0] == 'raise':
                        outcomes['raise:' + out[1].__name__] = outcomes.get('raise:' + out[1].__name__, 0) + 1
                    self.post(ip, out)
            except PathEnd:
                pass
            except Unsupported as e:
                return obs + ctx.obs, n, f'unsupported: {e}', outcomes
            except z3.Z3Exception as e:
                return obs + ctx.obs, n, f'engine: z3 {e}', outcomes
            except RecursionError:
                return obs + ctx.obs, n, 'engine: recursion', outcomes
            except Exception as e:
                return obs + ctx.obs, n, f'engine: {type(e).__name__} {e} ' + traceback.format_exc()[-600:], outcomes
            obs += ctx.obs
            work.extend(ctx.alts)
        return obs, n, None, outcomes


def module_digests(keys):
    """digest of the syntax tree of every module an inlined function lives in"""
    import ast
    import hashlib
    out = {}
    for m in sorted({k.split(':')[0] for k in keys}):
        f = getattr(sys.modules.get(m), '__file__', None)
        if f:
            with open(f) as h:
                out[m] = hashlib.blake2b(ast.dump(ast.parse(h.read())).encode(), digest_size=12).hexdigest()
    return out


METHODS = {'verify', 'satisfy', 'compare', 'get', 'put', 'pin', 'rem', 'add', 'append', 'push', 'getLast', 'getIter', 'getItemIter',
           'getTopItemIter', 'validate', 'pretty', 'items', 'keys', 'values', 'index', 'cnt', 'trim', 'remIter', 'encode', 'decode',
           'startswith', 'endswith', 'split', 'rsplit', 'strip', 'update', 'extend', 'pop', 'sign', 'encrypt', 'decrypt', 'tobytes'}
CLASSES = {}


def load_classes():
    import keri.core as c
    from keri.core import coring, indexing, serdering, signing, counting
    for m in (coring, indexing, serdering, signing, counting):
        for n, v in vars(m).items():
            if isinstance(v, type):
                CLASSES.setdefault(n, v)
