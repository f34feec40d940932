"""Semantics of Python operations on mixed concrete/symbolic values."""
import base64 as _b64
import builtins
import datetime
import inspect
import math
import types
from fractions import Fraction
import z3
from .engine import *

MUTATORS = {'append', 'appendleft', 'extend', 'add', 'update', 'remove', 'pop', 'popleft', 'insert', 'clear', 'discard',
            'setdefault', 'sort', 'push', 'difference_update', 'intersection_update'}


class SuperV(V):
    def __init__(self, cls, selfv):
        self.cls = cls
        self.selfv = selfv


def and_(cs):
    cs = [c for c in cs if c is not True]
    if any(c is False for c in cs):
        return False
    if not cs:
        return True
    return z3.And(*cs) if len(cs) > 1 else cs[0]


def or_(cs):
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    if not cs:
        return False
    return z3.Or(*cs) if len(cs) > 1 else cs[0]


def not_(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def truth(ip, v):
    if isinstance(v, U) and v.ty in LISTATTR_TYPES:
        pass
    if isinstance(v, HObj):
        m = ip.unit.models.get(('truth', v.cls))
        if m:
            return m(ip, v)
        for nm in ('__bool__', '__len__'):
            f = getattr(v.cls, nm, None)
            if isinstance(f, types.FunctionType):
                return ip.ctx.truth(ip.call(f, [v], {}))
        return True
    return ip.ctx.truth(v)


LISTATTR_TYPES = ()


def wrapc(c):
    return c if isinstance(c, bool) else B(c)


# ------------------------------------------------------------------ equality / order
NUM = (I, BV, R)


def isnum(v):
    return isinstance(v, NUM) or (isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)) or isinstance(v, bool)


def bv_pair(a, b):
    def as_bv(x):
        if isinstance(x, BV):
            return x.t
        if isinstance(x, int) and x >= 0:
            return z3.BitVecVal(x, max(1, x.bit_length()))
        return None
    x, y = as_bv(a), as_bv(b)
    if x is None or y is None:
        return None
    w = max(x.size(), y.size())
    return zext(x, w), zext(y, w)


def zext(t, w):
    return t if t.size() >= w else z3.ZeroExt(w - t.size(), t)


def eq(ip, a, b):
    ctx = ip.ctx
    if a is b:
        return True
    if not is_sym(a) and not is_sym(b):
        try:
            return bool(a == b)
        except Exception:
            return False
    if isinstance(a, BV) or isinstance(b, BV):
        p = bv_pair(a, b)
        if p:
            return p[0] == p[1]
        if isinstance(a, int) and a < 0 or isinstance(b, int) and b < 0:
            return False
    if isinstance(a, SB) or isinstance(b, SB):
        return sb_eq(ip, a, b)
    if isinstance(a, R) or isinstance(b, R):
        if isnum(a) and isnum(b):
            return ctx.real_t(a) == ctx.real_t(b)
        return False
    if isinstance(a, I) or isinstance(b, I):
        if isnum(a) and isnum(b):
            return ctx.int_t(a) == ctx.int_t(b)
        if isinstance(a, U) or isinstance(b, U):
            return ctx.toU(a) == ctx.toU(b)
        if isinstance(a, B) or isinstance(b, B):
            return ctx.int_t(a) == ctx.int_t(b)
        return False
    if isinstance(a, B) or isinstance(b, B):
        o = b if isinstance(a, B) else a
        s = a if isinstance(a, B) else b
        if isinstance(o, B):
            return s.t == o.t
        if isinstance(o, bool):
            return s.t if o else z3.Not(s.t)
        if isinstance(o, int):
            return ctx.int_t(s) == o
        if isinstance(o, U):
            return ctx.toU(s) == o.t
        return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return and_([eq(ip, x, y) for x, y in zip(a, b)])
    if isinstance(a, L) and isinstance(b, L):
        return l_eq(ip, a, b)
    if isinstance(a, L) or isinstance(b, L):
        o = b if isinstance(a, L) else a
        s = a if isinstance(a, L) else b
        if isinstance(o, (list, tuple)):
            return and_([s.n == len(o)] + [eq(ip, lget(ip, s, z3.IntVal(i)), x) for i, x in enumerate(o)])
        if isinstance(o, U):
            return ctx.toU(s) == o.t
        return False
    if isinstance(a, S) and isinstance(b, S):
        return a.a == b.a
    if isinstance(a, S) or isinstance(b, S):
        o = b if isinstance(a, S) else a
        s = a if isinstance(a, S) else b
        if isinstance(o, (set, frozenset)):
            return s.a == to_S(ip, o, s.ek).a
        return False
    if isinstance(a, HObj) or isinstance(b, HObj):
        x = a if isinstance(a, HObj) else b
        m = getattr(x.cls, '__eq__', None)
        if isinstance(m, types.FunctionType) and in_repo(m):
            return truth(ip, ip.call(m, [x, b if x is a else a], {}))
        if isinstance(a, U) or isinstance(b, U):
            return ctx.toU(a) == ctx.toU(b)
        return False
    if isinstance(a, U) or isinstance(b, U):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, U) and x.ty in ('str', 'bytes') and not is_sym(y):
                want = str if x.ty == 'str' else bytes
                if not isinstance(y, want):
                    return False
        if isinstance(a, U) and isinstance(b, U) and a.ty in ('str', 'bytes') and b.ty in ('str', 'bytes') and a.ty != b.ty:
            return False
        return ctx.toU(a) == ctx.toU(b)
    if isinstance(a, dict) or isinstance(b, dict):
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return and_([eq(ip, a[k], b[k]) for k in a])
        return False
    return False


def l_eq(ip, a, b):
    if a.a.get_id() == b.a.get_id() and (a.n is b.n or z3.is_true(z3.simplify(zi(a.n) == zi(b.n)))):
        return True
    k = ip.ctx.fresh('eqk', INT)
    if sort_of(a.ek) != sort_of(b.ek):
        return and_([zi(a.n) == 0, zi(b.n) == 0])
    return z3.And(zi(a.n) == zi(b.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(a.n)), a.a[k] == b.a[k])))


def zi(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def is_(ip, a, b):
    if b is None or a is None:
        x = a if b is None else b
        if x is None:
            return True
        if isinstance(x, U):
            if x.ty in ('str', 'bytes'):
                return False
            return x.t == ip.ctx.injt(None)
        return False
    if isinstance(a, bool) and isinstance(b, U) or isinstance(b, bool) and isinstance(a, U):
        return ip.ctx.toU(a) == ip.ctx.toU(b)
    if isinstance(a, V) or isinstance(b, V):
        if a is b:
            return True
        if isinstance(a, (U, B)) and isinstance(b, (U, B)) or isinstance(a, bool) or isinstance(b, bool):
            return eq(ip, a, b)
        if isinstance(a, U) and isinstance(b, HObj) or isinstance(a, HObj) and isinstance(b, U):
            return ip.ctx.toU(a) == ip.ctx.toU(b)
        return False
    return a is b


def contains(ip, x, c):
    ctx = ip.ctx
    if isinstance(c, U) or isinstance(c, HObj):
        m = ip.unit.models.get(('in', getattr(c, 'ty', None) or getattr(c, 'cls', None)))
        if m:
            return m(ip, c, x)
        if isinstance(c, HObj):
            f = getattr(c.cls, '__contains__', None)
            if isinstance(f, types.FunctionType) and in_repo(f):
                return truth(ip, ip.call(f, [c, x], {}))
        f = z3.Function('contains', US, US, z3.BoolSort())
        return f(ctx.toU(c), ctx.toU(x))
    if isinstance(c, L):
        k = ctx.fresh('ink', INT)
        xt = ctx.term(x, c.ek)
        return z3.Exists([k], z3.And(k >= 0, k < zi(c.n), c.a[k] == xt))
    if isinstance(c, S):
        return z3.Select(c.a, ctx.term(x, c.ek))
    if isinstance(c, D):
        return z3.Select(c.has, ctx.term(x, c.kk))
    if isinstance(c, SB):
        if isinstance(x, (SB, str, bytes)):
            xs, n = sb_items(x), len(sb_items(x))
            return or_([and_([ch_eq(p, q) for p, q in zip(c.items[i:i + n], xs)]) for i in range(len(c.items) - n + 1)])
        return or_([ch_eq(p, x) for p in c.items])
    if not is_sym(x) and not is_sym(c):
        try:
            return x in c
        except TypeError:
            raise PyRaise(TypeError)
    if isinstance(c, (str, bytes)):
        if isinstance(x, SB):
            return contains(ip, x, SB(list(c.encode() if isinstance(c, str) else c), isinstance(c, str)))
        f = z3.Function('contains', US, US, z3.BoolSort())
        return f(ctx.toU(c), ctx.toU(x))
    if isinstance(c, It):
        k = ctx.fresh('ink', INT)
        e = eq(ip, c.get(k), x)
        return z3.Exists([k], z3.And(k >= 0, k < zi(c.n), zb(e)))
    return or_([eq(ip, x, y) for y in list(c)])


ORD = {'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b}


def compare(ip, op, a, b):
    """python bool or z3 Bool"""
    if op == 'Eq':
        return eq(ip, a, b)
    if op == 'NotEq':
        return not_(eq(ip, a, b))
    if op == 'Is':
        return is_(ip, a, b)
    if op == 'IsNot':
        return not_(is_(ip, a, b))
    if op == 'In':
        return contains(ip, a, b)
    if op == 'NotIn':
        return not_(contains(ip, a, b))
    if not is_sym(a) and not is_sym(b):
        try:
            return bool(ORD[op](a, b))
        except TypeError:
            raise PyRaise(TypeError)
    ctx = ip.ctx
    if isinstance(a, BV) or isinstance(b, BV):
        p = bv_pair(a, b)
        if p:
            x, y = p
            return {'Lt': z3.ULT, 'LtE': z3.ULE, 'Gt': z3.UGT, 'GtE': z3.UGE}[op](x, y)
    if isinstance(a, SB) or isinstance(b, SB):
        return sb_cmp(ip, op, a, b)
    if isinstance(a, R) or isinstance(b, R) or isinstance(a, (Fraction, float)) or isinstance(b, (Fraction, float)):
        return ORD[op](ctx.real_t(a), ctx.real_t(b))
    strs = lambda v: isinstance(v, (str, bytes)) or (isinstance(v, U) and v.ty in ('str', 'bytes'))
    if strs(a) or strs(b):
        x, y = ctx.toU(a), ctx.toU(b)
        key = ('rank', x.get_id(), y.get_id())
        if key not in ctx.ax_done:
            ctx.ax_done.add(key)
            ctx.cache.setdefault('keepz', []).extend([x, y])
            ctx.assume((rankF(x) == rankF(y)) == (x == y))
        return ORD[op](rankF(x), rankF(y))
    if isinstance(a, U) and isinstance(b, U) and a.ty not in ('int',) and ip.unit.opaque_order(a, b):
        x, y = a.t, b.t
        return ORD[op](rankF(x), rankF(y))
    if isinstance(a, (datetime.timedelta, datetime.datetime)) or isinstance(b, (datetime.timedelta, datetime.datetime)):
        if isinstance(a, U) or isinstance(b, U):        # times: an unknown total order
            return ORD[op](rankF(ctx.toU(a)), rankF(ctx.toU(b)))
        return ORD[op](a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return tup_cmp(ip, op, list(a), list(b))
    if is_oset(a) or is_oset(b):
        la, lb = os_make(ip, [a]), os_make(ip, [b])
        a = os_set(ip, la) if isinstance(la, L) else set(la)
        b = os_set(ip, lb) if isinstance(lb, L) else set(lb)
    if isinstance(a, (S, set)) and isinstance(b, (S, set)):
        sa, sb_ = to_S(ip, a, getattr(b, 'ek', None)), to_S(ip, b, getattr(a, 'ek', None))
        sub = z3.IsSubset(sa.a, sb_.a)
        sup = z3.IsSubset(sb_.a, sa.a)
        return {'LtE': sub, 'GtE': sup, 'Lt': z3.And(sub, sa.a != sb_.a), 'Gt': z3.And(sup, sa.a != sb_.a)}[op]
    if a is None or b is None:
        raise PyRaise(TypeError)
    return ORD[op](ctx.int_t(a), ctx.int_t(b))


def tup_cmp(ip, op, a, b):
    strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
    if not a or not b:
        return ORD[op](len(a), len(b))
    e = eq(ip, a[0], b[0])
    return or_([compare(ip, strict, a[0], b[0]), and_([e, tup_cmp(ip, op, a[1:], b[1:])])])


# ------------------------------------------------------------------ fixed-length symbolic bytes
def sb_items(v):
    if isinstance(v, SB):
        return v.items
    if isinstance(v, str):
        return list(v.encode('latin1', 'replace'))
    return list(v)


def ch_eq(p, q):
    if isinstance(p, int) and isinstance(q, int):
        return p == q
    if isinstance(p, BV):
        p = p.t
    if isinstance(q, BV):
        q = q.t
    if isinstance(p, int) and (p < 0 or p > 255) or isinstance(q, int) and (q < 0 or q > 255):
        return False
    p = z3.BitVecVal(p, 8) if isinstance(p, int) else p
    q = z3.BitVecVal(q, 8) if isinstance(q, int) else q
    w = max(p.size(), q.size())
    return zext(p, w) == zext(q, w)


def sb_eq(ip, a, b):
    def isstr(v):
        return v.isstr if isinstance(v, SB) else isinstance(v, str)
    if not isinstance(a, (SB, str, bytes, bytearray)) or not isinstance(b, (SB, str, bytes, bytearray)):
        if isinstance(a, U) or isinstance(b, U):
            return ip.ctx.toU(a) == ip.ctx.toU(b)
        return False
    if isstr(a) != isstr(b):
        return False
    x, y = sb_items(a), sb_items(b)
    if len(x) != len(y):
        return False
    return and_([ch_eq(p, q) for p, q in zip(x, y)])


def bv8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def sb_cmp(ip, op, a, b):
    x, y = sb_items(a), sb_items(b)
    strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'

    def rec(i):
        if i >= len(x) or i >= len(y):
            return ORD[op](len(x), len(y))
        p, q = x[i], y[i]
        if isinstance(p, int) and isinstance(q, int):
            if p != q:
                return ORD[strict](p, q)
            return rec(i + 1)
        p, q = bv8(p), bv8(q)
        lt = z3.ULT(p, q) if strict == 'Lt' else z3.UGT(p, q)
        return or_([lt, and_([p == q, rec(i + 1)])])
    return rec(0)


def sb_norm(items, isstr=False, mut=False):
    """collapse to concrete bytes when every item is concrete"""
    items = [z3.simplify(x) if z3.is_expr(x) else x for x in items]
    items = [x.as_long() if z3.is_bv_value(x) else x for x in items] if items else items
    if all(isinstance(x, int) for x in items) and not mut:
        b = bytes(items)
        return b.decode('latin1') if isstr else b
    return SB(items, isstr, mut)


B64CH = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
_encF = None


def b64_enc_sextet(s):
    """BitVec(6) -> BitVec(8) url-safe alphabet"""
    x = z3.ZeroExt(2, s)
    c = lambda v: z3.BitVecVal(v, 8)
    return z3.If(z3.ULT(x, c(26)), x + c(65), z3.If(z3.ULT(x, c(52)), x + c(71), z3.If(z3.ULT(x, c(62)), x - c(4),
                 z3.If(x == c(62), c(45), c(95)))))


def b64_dec_char(c):
    """BitVec(8) char -> (valid Bool, BitVec(6)); url-safe alphabet and the +/ that the stdlib decoder also takes"""
    k = lambda v: z3.BitVecVal(v, 8)
    up = z3.And(z3.UGE(c, k(65)), z3.ULE(c, k(90)))
    lo = z3.And(z3.UGE(c, k(97)), z3.ULE(c, k(122)))
    dg = z3.And(z3.UGE(c, k(48)), z3.ULE(c, k(57)))
    p62 = z3.Or(c == k(45), c == k(43))
    p63 = z3.Or(c == k(95), c == k(47))
    v = z3.If(up, c - k(65), z3.If(lo, c - k(71), z3.If(dg, c + k(4), z3.If(p62, k(62), k(63)))))
    return z3.Or(up, lo, dg, p62, p63), z3.Extract(5, 0, v)


def b64_sextet_of(c):
    """inverse of b64_enc_sextet when syntactically visible (keeps formulas small)"""
    return None


def sb_b64encode(ip, v):
    """contract of base64.urlsafe_b64encode on bytes of length divisible by 3 (RFC 4648)"""
    it = sb_items(v)
    if not any(z3.is_expr(x) for x in it):
        return _b64.urlsafe_b64encode(bytes(it))
    if len(it) % 3:
        pad = (3 - len(it) % 3)
        r = sb_b64encode(ip, SB(it + [0] * pad))
        return SB(list(sb_items(r))[:-pad] + [61] * pad)
    out = []
    for i in range(0, len(it), 3):
        t = z3.Concat(bv8(it[i]), bv8(it[i + 1]), bv8(it[i + 2]))
        for j in range(4):
            s = z3.simplify(z3.Extract(23 - 6 * j, 18 - 6 * j, t))
            if z3.is_bv_value(s):
                out.append(B64CH[s.as_long()])
            else:
                e = b64_enc_sextet(s)
                ip.ctx.cache[('sext', e.get_id())] = (s, e)
                out.append(e)
    return SB(out)


def sb_b64decode(ip, v):
    """contract of base64.urlsafe_b64decode on unpadded text of length divisible by 4.

    Every char valid: the RFC 4648 value.  Some char outside the alphabet: the stdlib (non-strict)
    skips it: modelled as 'result of some other length or an exception' (havoc)."""
    it = sb_items(v)
    if not any(z3.is_expr(x) for x in it):
        import binascii
        try:
            return _b64.urlsafe_b64decode(bytes(it))
        except binascii.Error:
            raise PyRaise(binascii.Error)
    if len(it) % 4:
        raise Unsupported('b64decode length')
    sx, valid = [], []
    for c in it:
        if isinstance(c, int):
            k = B64CH.find(bytes([c])) if c not in (43, 47) else {43: 62, 47: 63}[c]
            if k < 0:
                valid.append(False)
                k = 0
            sx.append(z3.BitVecVal(k, 6))
            continue
        h = ip.ctx.cache.get(('sext', c.get_id()))
        if h is not None and h[1].eq(c):
            sx.append(h[0])
            continue
        ok, s = b64_dec_char(c)
        valid.append(ok)
        sx.append(s)
    ok = and_(valid)
    if not ip.ctx.branch(ok if isinstance(ok, bool) else ok):
        import binascii
        if ip.ctx.choose(2, 'b64 garbage') == 0:
            raise PyRaise(binascii.Error)
        return SB([ip.ctx.fresh('junk', z3.BitVecSort(8)) for _ in range(max(0, len(it) // 4 * 3 - 3))])
    out = []
    for i in range(0, len(sx), 4):
        t = z3.Concat(*sx[i:i + 4])
        out += [z3.simplify(z3.Extract(23, 16, t)), z3.simplify(z3.Extract(15, 8, t)), z3.simplify(z3.Extract(7, 0, t))]
    return sb_norm(out)


def int_from_bytes(v):
    it = sb_items(v)
    if not it:
        return 0
    if not any(z3.is_expr(x) for x in it):
        return int.from_bytes(bytes(it), 'big')
    ts = [bv8(x) for x in it]
    t = z3.Concat(*ts) if len(ts) > 1 else ts[0]
    return bvnorm(t)


def bvnorm(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return BV(t)


def int_to_bytes(ip, v, n):
    if isinstance(v, int):
        try:
            return v.to_bytes(n, 'big')
        except OverflowError:
            raise PyRaise(OverflowError)
    if not isinstance(v, BV):
        raise Unsupported('to_bytes of Int')
    t = v.t
    if t.size() > 8 * n:
        hi = z3.Extract(t.size() - 1, 8 * n, t)
        if not ip.ctx.branch(hi == 0):
            raise PyRaise(OverflowError)
        t = z3.Extract(8 * n - 1, 0, t) if n else None
    if n == 0:
        return b''
    t = zext(t, 8 * n)
    return sb_norm([z3.simplify(z3.Extract(8 * (n - i) - 1, 8 * (n - i - 1), t)) for i in range(n)])


# ------------------------------------------------------------------ arithmetic
def binop(ip, op, a, b, inplace=False):
    ctx = ip.ctx
    if not is_sym(a) and not is_sym(b):
        return native_binop(op, a, b, inplace)
    if ip.unit.numeric:
        a, b = [R(z3.Function('uR', US, z3.RealSort())(x.t)) if isinstance(x, U) and x.ty in ip.unit.numeric else x for x in (a, b)]
    # sequences
    if op == 'Add':
        if isinstance(a, SB) or isinstance(b, SB):
            if not isinstance(a, (SB, str, bytes, bytearray)) or not isinstance(b, (SB, str, bytes, bytearray)):
                raise PyRaise(TypeError)
            isstr = a.isstr if isinstance(a, SB) else isinstance(a, str)
            isstr2 = b.isstr if isinstance(b, SB) else isinstance(b, str)
            if isstr != isstr2:
                raise PyRaise(TypeError)
            return sb_norm(list(sb_items(a)) + list(sb_items(b)), isstr)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return a + b
        if isinstance(a, (L, list, tuple)) and isinstance(b, (L, list, tuple)):
            la = to_L(ip, a, getattr(b, 'ek', None))
            lb = to_L(ip, b, getattr(a, 'ek', None))
            r = l_concat(ip, la, lb)
            if inplace and isinstance(a, L):
                a.n, a.a = r.n, r.a
                return a
            return r
        sa = isinstance(a, (str, bytes)) or (isinstance(a, U) and a.ty in ('str', 'bytes'))
        sb_ = isinstance(b, (str, bytes)) or (isinstance(b, U) and b.ty in ('str', 'bytes'))
        if sa or sb_:
            return str_concat(ip, a, b)
    if op == 'Mult' and (isinstance(a, (bytes, str, SB, list, tuple)) and isinstance(b, int) or isinstance(b, (bytes, str, SB)) and isinstance(a, int)):
        s, n = (a, b) if isinstance(b, int) else (b, a)
        if isinstance(s, (list, tuple)):
            return s * n
        return sb_norm(list(sb_items(s)) * n, s.isstr if isinstance(s, SB) else isinstance(s, str))
    if op == 'Mult' and isinstance(a, list) and len(a) == 1 and isinstance(b, I):
        k = kind_of(a[0])
        return L(z3.If(b.t > 0, b.t, 0), z3.K(INT, ctx.term(a[0], k)), k)
    if is_oset(a) and op in ('BitOr', 'BitAnd', 'Sub'):
        return os_op(ip, op, a, b)
    if isinstance(a, (S, set, frozenset)) or isinstance(b, (S,)):
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            return set_op(ip, op, a, b)
    if op == 'Mod' and (isinstance(a, (str, bytes)) or (isinstance(a, U) and a.ty in ('str', 'bytes'))):
        h = ip.unit.models.get('fmt%')
        if h:
            return h(ip, a, b)
        f = z3.Function('fmt', US, US, US)
        return U(f(ctx.toU(a), ctx.toU(b)), 'bytes' if isinstance(a, bytes) else 'str')
    if op == 'BitOr' and (isinstance(a, (D, dict)) and isinstance(b, (D, dict))):
        raise Unsupported('dict |')
    # bit vectors
    if isinstance(a, BV) or isinstance(b, BV):
        r = bv_binop(ip, op, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, R) or isinstance(b, R) or isinstance(a, (Fraction, float)) or isinstance(b, (Fraction, float)) or op == 'Div':
        x, y = ctx.real_t(a), ctx.real_t(b)
        if op == 'Add':
            return R(x + y)
        if op == 'Sub':
            return R(x - y)
        if op == 'Mult':
            return R(x * y)
        if op == 'Div':
            if not ctx.branch(y != 0):
                raise PyRaise(ZeroDivisionError)
            return R(x / y)
        raise Unsupported('real ' + op)
    if isinstance(a, U) and a.ty not in (None, 'int') or isinstance(b, U) and b.ty not in (None, 'int'):
        f = z3.Function('op_' + op, US, US, US)
        return U(f(ctx.toU(a), ctx.toU(b)))
    if a is None or b is None:
        raise PyRaise(TypeError)
    x, y = ctx.int_t(a), ctx.int_t(b)
    if op == 'Add':
        return I(x + y)
    if op == 'Sub':
        return I(x - y)
    if op == 'Mult':
        return I(x * y)
    if op in ('FloorDiv', 'Mod'):
        if not ctx.branch(y != 0):
            raise PyRaise(ZeroDivisionError)
        if z3.is_int_value(y) and y.as_long() > 0:
            return I(x / y) if op == 'FloorDiv' else I(x % y)
        # python floor semantics for symbolic divisor
        q, r = x / y, x % y
        fq = z3.If(z3.And(y < 0, r != 0), q - 1, q)
        return I(fq) if op == 'FloorDiv' else I(x - y * fq)
    if op == 'LShift' and isinstance(b, int):
        return I(x * (1 << b))
    if op == 'RShift' and isinstance(b, int):
        return I(x / (1 << b))
    if op == 'Pow' and isinstance(b, int) and b >= 0:
        r = z3.IntVal(1)
        for _ in range(b):
            r = r * x
        return I(r)
    if op == 'LShift':
        p = ip.unit.pow2(ip, b)
        return I(x * p)
    if op == 'Pow' and isinstance(a, int):
        return I(ip.unit.powf(ip, a, y))
    if op == 'BitOr' and ip.unit.models.get('bitor'):
        return ip.unit.models['bitor'](ip, x, y)
    f = z3.Function('iop_' + op, INT, INT, INT)
    return I(f(x, y))


def native_binop(op, a, b, inplace):
    import operator as o
    tab = {'Add': (o.add, o.iadd), 'Sub': (o.sub, o.isub), 'Mult': (o.mul, o.imul), 'Div': (o.truediv, o.itruediv),
           'FloorDiv': (o.floordiv, o.ifloordiv), 'Mod': (o.mod, o.imod), 'Pow': (o.pow, o.ipow), 'LShift': (o.lshift, o.ilshift),
           'RShift': (o.rshift, o.irshift), 'BitOr': (o.or_, o.ior), 'BitAnd': (o.and_, o.iand), 'BitXor': (o.xor, o.ixor),
           'MatMult': (o.matmul, o.imatmul)}
    try:
        return tab[op][1 if inplace else 0](a, b)
    except Exception as e:
        raise PyRaise(type(e))


def bv_binop(ip, op, a, b):
    def bvt(x):
        if isinstance(x, BV):
            return x.t
        if isinstance(x, bool) or not isinstance(x, int) or x < 0:
            return None
        return z3.BitVecVal(x, max(1, x.bit_length()))
    if op in ('LShift', 'RShift') and isinstance(b, int) and isinstance(a, BV):
        if op == 'LShift':
            return bvnorm(z3.Concat(a.t, z3.BitVecVal(0, b))) if b else a
        if b >= a.w:
            return 0
        return bvnorm(z3.Extract(a.w - 1, b, a.t)) if b else a
    x, y = bvt(a), bvt(b)
    if x is None or y is None:
        return NotImplemented
    if op in ('Mod', 'FloorDiv', 'Mult') and isinstance(b, int) and b and b & (b - 1) == 0:
        k = b.bit_length() - 1
        if op == 'Mod':
            if k == 0:
                return 0
            return bvnorm(z3.Extract(k - 1, 0, x)) if x.size() > k else a
        if op == 'FloorDiv':
            return bv_binop(ip, 'RShift', a, k)
        return bv_binop(ip, 'LShift', a, k)
    w = max(x.size(), y.size())
    if op in ('BitOr', 'BitAnd', 'BitXor'):
        x, y = zext(x, w), zext(y, w)
        return bvnorm({'BitOr': x | y, 'BitAnd': x & y, 'BitXor': x ^ y}[op])
    if op == 'Add':
        return bvnorm(zext(x, w + 1) + zext(y, w + 1))
    if op == 'Mult':
        w = x.size() + y.size()
        return bvnorm(zext(x, w) * zext(y, w))
    if op in ('Mod', 'FloorDiv') and isinstance(b, int) and b > 0:
        x, y = zext(x, w), zext(y, w)
        return bvnorm(z3.URem(x, y) if op == 'Mod' else z3.UDiv(x, y))
    return NotImplemented


def str_concat(ip, a, b):
    ctx = ip.ctx
    ty = 'bytes' if isinstance(a, bytes) or isinstance(b, bytes) or getattr(a, 'ty', None) == 'bytes' or getattr(b, 'ty', None) == 'bytes' else 'str'
    h = ip.unit.models.get('concat')
    if h:
        r = h(ip, a, b, ty)
        if r is not None:
            return r
    f = z3.Function('concat', US, US, US)
    x, y = ctx.toU(a), ctx.toU(b)
    t = f(x, y)
    ctx.assume(lenF(t) == lenF(x) + lenF(y))
    ctx.assume(z3.And(lenF(x) >= 0, lenF(y) >= 0))
    return U(t, ty)


def fstring(ip, parts):
    if all(isinstance(p, str) or not is_sym(p[0]) for p in parts):
        out = ''
        for p in parts:
            if isinstance(p, str):
                out += p
            else:
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                try:
                    out += format(v, spec or '')
                except Exception as e:
                    raise PyRaise(type(e))
        return out
    if any(isinstance(p, tuple) and isinstance(p[0], SB) for p in parts):
        items = []
        for p in parts:
            v = p if isinstance(p, str) else p[0]
            if isinstance(v, (str, SB)):
                items += list(sb_items(v))
            elif not is_sym(v):
                items += list(sb_items(str(v)))
            else:
                raise Unsupported('fstring mix')
        return sb_norm(items, True)
    h = ip.unit.models.get('fstring')
    if h:
        r = h(ip, parts)
        if r is not None:
            return r
    # uninterpreted but deterministic in its parts
    ctx = ip.ctx
    ts = []
    shape = []
    for p in parts:
        if isinstance(p, str):
            shape.append(p)
        else:
            v, conv, spec = p
            if isinstance(spec, str) and spec.endswith('h'):
                raise PyRaise(ValueError)     # unknown format code
            if isinstance(spec, str) and spec[-1:] in ('x', 'd', 'b', 'o', 'X') and isinstance(v, U) and v.ty in ('str', 'bytes'):
                raise PyRaise(ValueError)
            shape.append('{%s}' % (spec if isinstance(spec, str) else ''))
            ts.append(ctx.toU(v))
    if len(ts) == 1 and shape == ['{}'] and isinstance(parts[0][0], U) and parts[0][0].ty == 'str':
        return parts[0][0]
    f = z3.Function('fs:' + ''.join(shape), *([US] * len(ts)), US)
    t = f(*ts)
    ctx.assume(t != ctx.injt(None))
    return U(t, 'str')


# ------------------------------------------------------------------ containers
def kind_of(v):
    if isinstance(v, bool) or isinstance(v, B):
        return 'bool'
    if isinstance(v, (int, I, BV)):
        return 'int'
    if isinstance(v, (R, Fraction)):
        return 'real'
    return 'U'


def join_kind(vs, default):
    ks = {kind_of(v) for v in vs}
    if len(ks) == 1:
        return ks.pop()
    return default or 'U'


def to_L(ip, v, ek=None):
    ctx = ip.ctx
    if isinstance(v, L):
        return v
    if isinstance(v, It):
        if isinstance(v.src, L) and ek in (None, v.src.ek):
            return v.src.copy()
        k = ctx.fresh('lk', INT)
        x = v.get(k)
        ek = ek or kind_of(x)
        a = ctx.fresh('lst', z3.ArraySort(INT, sort_of(ek)))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.n)), a[k] == ctx.term(x, ek)), patterns=[a[k]]))
        return L(zi(v.n), a, ek)
    if isinstance(v, S):
        return s_list(ip, v)
    vs = list(v)
    if ek is None:
        ek = join_kind(vs, 'U')
    a = ctx.fresh('lit', z3.ArraySort(INT, sort_of(ek)))
    for i, x in enumerate(vs):
        a = z3.Store(a, z3.IntVal(i), ctx.term(x, ek))
    return L(z3.IntVal(len(vs)), a, ek, isinstance(v, tuple))


def l_concat(ip, x, y):
    ctx = ip.ctx
    if sort_of(x.ek) != sort_of(y.ek):
        raise Unsupported('concat kinds')
    a = ctx.fresh('cat', z3.ArraySort(INT, sort_of(x.ek)))
    k = ctx.fresh('k', INT)
    nx, ny = zi(x.n), zi(y.n)
    ctx.assume(z3.ForAll([k], z3.And(z3.Implies(z3.And(k >= 0, k < nx), a[k] == x.a[k]),
                                     z3.Implies(z3.And(k >= nx, k < nx + ny), a[k] == y.a[k - nx])), patterns=[a[k]]))
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nx), a[k] == x.a[k]), patterns=[x.a[k]]))
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ny), a[k + nx] == y.a[k]), patterns=[y.a[k]]))
    return L(nx + ny, a, x.ek, x.tup, x.ecls)


cardFs = {}


def card(ip, s):
    ctx = ip.ctx
    srt = sort_of(s.ek)
    f = cardFs.setdefault(srt, z3.Function('card_' + str(srt), z3.ArraySort(srt, z3.BoolSort()), INT))
    t = f(s.a)
    key = ('card', s.a.get_id())
    if key not in ctx.ax_done:
        ctx.ax_done.add(key)
        ctx.cache.setdefault('keepz', []).append(s.a)
        ctx.assume(t >= 0)
        ctx.assume((t == 0) == (s.a == z3.EmptySet(srt)))
        ctx.assume(f(z3.EmptySet(srt)) == 0)
    return t


def to_S(ip, v, ek=None):
    ctx = ip.ctx
    if isinstance(v, S):
        return v
    if isinstance(v, (L, It)):
        l = to_L(ip, v, ek)
        return s_of_l(ip, l)
    vs = list(v)
    if ek is None:
        ek = join_kind(vs, 'U')
    srt = sort_of(ek)
    s = S(z3.EmptySet(srt), ek)
    for x in vs:
        s_add(ip, s, x)
    return s


def s_of_l(ip, l):
    """set of the elements of a sequence, with the cardinality facts (card<=n, equal iff distinct)"""
    ctx = ip.ctx
    key = ('sofl', zi(l.n).get_id(), l.a.get_id())
    if key in ctx.cache:
        r = ctx.cache[key][0]
        return S(r.a, r.ek, r.ecls)
    srt = sort_of(l.ek)
    a = ctx.fresh('sofl', z3.ArraySort(srt, z3.BoolSort()))
    s = S(a, l.ek, l.ecls)
    k, j = ctx.fresh('k', INT), ctx.fresh('j', INT)
    x = ctx.fresh('x', srt)
    pos = z3.Function(f'pos!{ctx.n}', srt, INT)
    ctx.n += 1
    n = zi(l.n)
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, l.a[k])), patterns=[l.a[k]]))
    ctx.assume(z3.ForAll([x], z3.Implies(z3.Select(a, x), z3.And(pos(x) >= 0, pos(x) < n, l.a[pos(x)] == x)), patterns=[z3.Select(a, x)]))
    c = card(ip, s)
    ctx.assume(c <= n)
    ctx.assume((c == n) == z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < n), l.a[k] != l.a[j])))
    ctx.assume((c == 0) == (n == 0))
    ctx.cache[key] = (s, l.n, l.a)
    s._of = (l.n, l.a)
    return S(a, l.ek, l.ecls)


def s_list(ip, s):
    """list of a set: distinct elements, exactly the members"""
    ctx = ip.ctx
    srt = sort_of(s.ek)
    n = card(ip, s)
    key = ('slist', s.a.get_id())
    if key in ctx.cache:
        l = ctx.cache[key][0]
        return l.copy()
    a = ctx.fresh('slist', z3.ArraySort(INT, srt))
    k, j = ctx.fresh('k', INT), ctx.fresh('j', INT)
    x = ctx.fresh('x', srt)
    pos = z3.Function(f'pos!{ctx.n}', srt, INT)
    ctx.n += 1
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(s.a, a[k]), pos(a[k]) == k)), patterns=[a[k]]))
    ctx.assume(z3.ForAll([x], z3.Implies(z3.Select(s.a, x), z3.And(pos(x) >= 0, pos(x) < n, a[pos(x)] == x)), patterns=[z3.Select(s.a, x)]))
    l = L(n, a, s.ek, ecls=s.ecls)
    ctx.cache[key] = (l, s.a)
    return l.copy()


def s_add(ip, s, x):
    ctx = ip.ctx
    xt = ctx.term(x, s.ek)
    c0 = card(ip, s)
    was = z3.Select(s.a, xt)
    s2 = S(z3.Store(s.a, xt, z3.BoolVal(True)), s.ek)
    c1 = card(ip, s2)
    ctx.assume(c1 == c0 + z3.If(was, 0, 1))
    s.a = s2.a


def make_set(ip, v):
    if isinstance(v, D):
        return S(v.has, v.kk)
    if isinstance(v, (L, It, S)):
        s = to_S(ip, v)
        return S(s.a, s.ek, s.ecls)
    vs = list(v)
    if any(is_sym(x) for x in vs):
        return to_S(ip, vs)
    return set(vs)


def os_filter(ip, l, keep, nm):
    """subsequence of the first occurrences of the elements of l that satisfy keep, with its witnesses"""
    ctx = ip.ctx
    srt = sort_of(l.ek)
    n = zi(l.n)
    m = ctx.fresh(nm + '_n', INT)
    a = ctx.fresh(nm, z3.ArraySort(INT, srt))
    src = z3.Function(f'src!{ctx.n}', INT, INT)
    at = z3.Function(f'at!{ctx.n}', srt, INT)          # position of an element in the result
    ctx.n += 1
    j, j2, k = ctx.fresh('j', INT), ctx.fresh('j2', INT), ctx.fresh('k', INT)
    ctx.assume(z3.And(m >= 0, m <= n))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(src(j) >= 0, src(j) < n, a[j] == l.a[src(j)], keep(a[j]), at(a[j]) == j)), patterns=[a[j]]))
    ctx.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < m), src(j) < src(j2)), patterns=[z3.MultiPattern(src(j), src(j2))]))
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, keep(l.a[k])),
                                         z3.And(at(l.a[k]) >= 0, at(l.a[k]) < m, a[at(l.a[k])] == l.a[k], src(at(l.a[k])) <= k)), patterns=[at(l.a[k])]))
    ctx.assume(z3.Implies(m == n, a == l.a))     # nothing left out: the same sequence (elements past the end are arbitrary)
    return OL(m, a, l.ek, ecls=l.ecls)


def os_make(ip, args, kw=None, cls=None):
    ctx = ip.ctx
    v = args[0] if args else None
    if v is None:
        v = []
    if isinstance(v, OL):
        return v.copy()
    if not is_sym(v) and not isinstance(v, V):
        from ordered_set import OrderedSet
        return native(OrderedSet, [v], {})
    if isinstance(v, U):
        v = iterate(ip, v)
    l = to_L(ip, v)
    key = ('osof', zi(l.n).get_id(), l.a.get_id())
    if key in ctx.cache:
        return ctx.cache[key][0].copy()
    r = os_filter(ip, l, lambda t: z3.BoolVal(True), 'oset')
    j, k = ctx.fresh('j', INT), ctx.fresh('k', INT)
    n = zi(l.n)
    sl, sr = s_of_l(ip, l), s_of_l(ip, r)
    ctx.assume(sl.a == sr.a)
    ctx.assume(card(ip, sr) == zi(r.n))
    ctx.assume((zi(r.n) == 0) == (n == 0))
    ctx.cache[key] = (r, l.n, l.a)
    return r.copy()


def os_set(ip, o):
    s = s_of_l(ip, o)
    ip.ctx.assume(card(ip, s) == zi(o.n))
    return s


def os_op(ip, op, a, b):
    ctx = ip.ctx
    x = os_make(ip, [a])
    y = os_make(ip, [b])
    if not isinstance(x, L):
        x = OL(*[getattr(to_L(ip, list(x), getattr(y, 'ek', None)), f) for f in ('n', 'a', 'ek')])
    if not isinstance(y, L):
        y = OL(*[getattr(to_L(ip, list(y), x.ek), f) for f in ('n', 'a', 'ek')])
    key = ('osop', op, zi(x.n).get_id(), x.a.get_id(), zi(y.n).get_id(), y.a.get_id())
    if key in ctx.cache:
        return ctx.cache[key][0].copy()
    sx, sy = os_set(ip, x), os_set(ip, y)
    want = set_op(ip, op, sx, sy)
    if op == 'Sub' and not ctx._feasible(z3.SetIntersect(sx.a, sy.a) != z3.EmptySet(sort_of(x.ek))):
        r = x.copy()
    elif op == 'Sub':
        r = os_filter(ip, x, lambda t: z3.Not(z3.Select(sy.a, t)), 'diff')
    elif op == 'BitAnd':
        r = os_filter(ip, x, lambda t: z3.Select(sy.a, t), 'both')
    elif op == 'BitOr':
        d = os_op(ip, 'Sub', y, x)
        c = l_concat(ip, x, d)
        r = OL(c.n, c.a, c.ek, ecls=c.ecls)
        j, k = ctx.fresh('j', INT), ctx.fresh('k', INT)
        ctx.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < zi(r.n)), r.a[k] != r.a[j])))
    else:
        raise Unsupported('ordered set ' + op)
    sr = os_set(ip, r)
    ctx.assume(sr.a == want.a)
    ctx.cache[key] = (r, x, y)
    return r.copy()


def is_oset(v):
    return isinstance(v, OL) or type(v).__name__ == 'OrderedSet'


def set_op(ip, op, a, b):
    ctx = ip.ctx
    ek = getattr(a, 'ek', None) or getattr(b, 'ek', None)
    x, y = to_S(ip, a, ek), to_S(ip, b, ek)
    uni, inter, d = z3.SetUnion(x.a, y.a), z3.SetIntersect(x.a, y.a), z3.SetDifference(x.a, y.a)
    mk = lambda t: S(t, ek)
    cx, cy, ci = card(ip, x), card(ip, y), card(ip, mk(inter))
    ctx.assume(ci <= cx)
    ctx.assume(ci <= cy)
    if op == 'BitOr':
        ctx.assume(card(ip, mk(uni)) == cx + cy - ci)
        return mk(uni)
    if op == 'BitAnd':
        ctx.assume((ci == cx) == z3.IsSubset(x.a, y.a))
        return mk(inter)
    if op == 'Sub':
        ctx.assume(card(ip, mk(d)) == cx - ci)
        return mk(d)
    raise Unsupported('set ' + op)


def to_D(ip, d):
    ctx = ip.ctx
    kk = join_kind(list(d.keys()), 'U') if d else 'U'
    vk = join_kind(list(d.values()), 'U') if d else 'U'
    has = z3.K(sort_of(kk), z3.BoolVal(False))
    val = ctx.fresh('dval', z3.ArraySort(sort_of(kk), sort_of(vk)))
    for k, v in d.items():
        kt = ctx.term(k, kk)
        has = z3.Store(has, kt, z3.BoolVal(True))
        val = z3.Store(val, kt, ctx.term(v, vk))
    return D(has, val, kk, vk)


def lget(ip, l, i):
    v = ip.ctx.from_term(l.ek, l.a[i])
    if l.ecls and isinstance(v, U):
        v.ty = l.ecls
    return v


def list_append(ip, l, x):
    l.a = z3.Store(l.a, zi(l.n), ip.ctx.term(x, l.ek))
    l.n = z3.simplify(zi(l.n) + 1)


def iterate(ip, v):
    """native list/tuple when concrete length, else It"""
    ctx = ip.ctx
    if isinstance(v, It):
        if isinstance(v.n, int) or z3.is_int_value(z3.simplify(zi(v.n))):
            n = v.n if isinstance(v.n, int) else z3.simplify(v.n).as_long()
            if n <= 64:
                return [v.get(z3.IntVal(i)) for i in range(n)]
        return v
    if isinstance(v, L):
        n = z3.simplify(zi(v.n))
        snap = v.copy()
        if z3.is_int_value(n) and n.as_long() <= 64:
            return [lget(ip, snap, z3.IntVal(i)) for i in range(n.as_long())]
        return It(n, lambda i: lget(ip, snap, i), snap)
    if isinstance(v, S):
        return iterate(ip, s_list(ip, v))
    if isinstance(v, D):
        return iterate(ip, s_list(ip, S(v.has, v.kk)))
    if isinstance(v, SB):
        return [sb_norm([x], True) if v.isstr else (x if isinstance(x, int) else BV(x)) for x in v.items]
    if isinstance(v, U):
        h = ip.unit.models.get(('iter', v.ty))
        if h:
            return iterate(ip, h(ip, v))
        if v.ty is None or v.ty in ip.unit.listy:
            return iterate(ip, u_list(ip, v))
        raise Unsupported(f'iterate U {v.ty}')
    if isinstance(v, HObj):
        f = getattr(v.cls, '__iter__', None)
        raise Unsupported('iterate obj')
    if isinstance(v, (list, tuple, set, frozenset, str, bytes, bytearray, dict, range)):
        return list(v)
    if v is None or isinstance(v, (int, B, I, bool)):
        raise PyRaise(TypeError)
    try:
        return list(v)
    except TypeError:
        raise PyRaise(TypeError)


def u_list(ip, u):
    """view an opaque value as a sequence of opaque values"""
    ctx = ip.ctx
    fn = z3.Function('seq_n', US, INT)
    fa = z3.Function('seq_a', US, z3.ArraySort(INT, US))
    n = fn(u.t)
    ctx.assume(n >= 0)
    ctx.assume(z3.Implies(truthyF(u.t), n > 0))
    return L(n, fa(u.t), 'U')


def concrete_iter(ip, v):
    s = iterate(ip, v)
    if isinstance(s, It):
        raise Unsupported('unpack symbolic sequence')
    return list(s)


def unpack(ip, v, k):
    if isinstance(v, (list, tuple)):
        if len(v) != k:
            raise PyRaise(ValueError)
        return list(v)
    if isinstance(v, L):
        if not ip.ctx.branch(zi(v.n) == k):
            raise PyRaise(ValueError)
        return [lget(ip, v, z3.IntVal(i)) for i in range(k)]
    if isinstance(v, U):
        h = ip.unit.models.get(('unpack', v.ty)) or ip.unit.models.get('unpack')
        if h:
            r = h(ip, v, k)
            if r is not None:
                return r
        return [u_item(ip, v, i) for i in range(k)]
    s = concrete_iter(ip, v)
    if len(s) != k:
        raise PyRaise(ValueError)
    return s


def u_item(ip, v, i):
    # components of tup(...) terms are visible
    t = v.t
    if z3.is_app(t) and t.decl().name().startswith('tup') and t.num_args() > i:
        return U(t.arg(i))
    f = z3.Function(f'item{i}', US, US)
    r = U(f(t))
    k = ip.unit.item_types.get((v.ty, i)) or ip.unit.item_types.get((None, i))
    if k:
        r.ty = k
    return r


def ite(ip, c, a, b):
    ctx = ip.ctx
    ka, kb = kind_of(a), kind_of(b)
    if ka == kb:
        return ctx.from_term(ka, z3.If(c, ctx.term(a, ka), ctx.term(b, ka)))
    return U(z3.If(c, ctx.toU(a), ctx.toU(b)))


def idx_norm(ip, l, k):
    """index value -> z3 Int in range, raising IndexError otherwise"""
    ctx = ip.ctx
    n = zi(l.n)
    t = ctx.int_t(k)
    if isinstance(k, int):
        t = z3.IntVal(k) if k >= 0 else n + k
        if ctx.quiet:
            return t
        ok = (n > k) if k >= 0 else (n >= -k)
    else:
        if ctx.quiet:
            return z3.If(t < 0, t + n, t)
        ok = z3.And(t >= -n, t < n)
    if not ctx.branch(ok):
        raise PyRaise(IndexError)
    if not isinstance(k, int):
        t = z3.simplify(t)
        if ctx._feasible(t < 0):
            t = z3.If(t < 0, t + n, t)
    return t


def slice_L(ip, l, s):
    ctx = ip.ctx
    if s.step not in (None, 1):
        if s.step == -1 and s.start is None and s.stop is None:
            a = ctx.fresh('rev', z3.ArraySort(INT, sort_of(l.ek)))
            k = ctx.fresh('k', INT)
            n = zi(l.n)
            ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), a[k] == l.a[n - 1 - k]), patterns=[a[k]]))
            return L(n, a, l.ek, l.tup, l.ecls)
        raise Unsupported('slice step')
    n = zi(l.n)

    def clamp(x, d):
        if x is None:
            return d
        t = ctx.int_t(x)
        if isinstance(x, int):
            return z3.If(n < x, n, z3.IntVal(x)) if x >= 0 else z3.If(n + x < 0, z3.IntVal(0), n + x)
        t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        return t
    lo, hi = z3.simplify(clamp(s.start, z3.IntVal(0))), z3.simplify(clamp(s.stop, n))
    m = z3.simplify(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
    a = ctx.fresh('sl', z3.ArraySort(INT, sort_of(l.ek)))
    k = ctx.fresh('k', INT)
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), a[k] == l.a[lo + k]), patterns=[a[k]]))
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), a[k - lo] == l.a[k]), patterns=[l.a[k]]))
    return L(m, a, l.ek, l.tup, l.ecls)


def getitem(ip, o, k):
    ctx = ip.ctx
    if isinstance(o, SB):
        if isinstance(k, slice):
            if is_sym(k):
                raise Unsupported('symbolic slice of fixed bytes')
            return sb_norm(o.items[k], o.isstr, o.mut)
        if isinstance(k, int):
            try:
                x = o.items[k]
            except IndexError:
                raise PyRaise(IndexError)
            if o.isstr:
                return sb_norm([x], True)
            return x if isinstance(x, int) else BV(x)
        raise Unsupported('SB index')
    if isinstance(o, L):
        if isinstance(k, slice):
            return slice_L(ip, o, k)
        if k is None or isinstance(k, (str, bytes, tuple, list)):
            raise PyRaise(TypeError)
        return lget(ip, o, idx_norm(ip, o, k))
    if isinstance(o, It):
        return getitem(ip, to_L(ip, o), k)
    if isinstance(o, D):
        kt = ctx.term(k, o.kk)
        if not ctx.quiet and not ctx.branch(z3.Select(o.has, kt)):
            raise PyRaise(KeyError)
        return ctx.from_term(o.vk, z3.Select(o.val, kt))
    if isinstance(o, HObj):
        h = ip.unit.models.get(('getitem', o.cls))
        if h:
            return h(ip, o, k)
        f = getattr(o.cls, '__getitem__', None)
        if isinstance(f, types.FunctionType):
            return ip.call(f, [o, k], {})
        raise Unsupported(f'getitem on {o.cls}')
    if isinstance(o, U):
        h = ip.unit.models.get(('getitem', o.ty))
        if h:
            return h(ip, o, k)
        if isinstance(k, slice):
            if is_sym(k):
                f = z3.Function('slice', US, US, US)
                return U(f(o.t, ctx.toU((k.start, k.stop))), o.ty)
            f = z3.Function(f'slice_{k.start}_{k.stop}_{k.step}', US, US)
            return U(f(o.t), o.ty)
        if isinstance(k, int) and not isinstance(k, bool) and k >= 0 and o.ty not in ('dict', 'str', 'bytes'):
            return u_item(ip, o, k)
        kind = ip.unit.key_kind(o, k)
        if kind.startswith('list:'):
            return u_attr_list(ip, o, f'key:{k}', kind)
        if isinstance(k, str):
            f = z3.Function(f'key_{k}', US, sort_of(kind))
            return ctx.from_term(kind, f(o.t))
        f = z3.Function('getitem', US, US, sort_of(kind))
        return ctx.from_term(kind, f(o.t, ctx.toU(k)))
    if is_sym(k) and isinstance(o, dict):
        # concrete table, symbolic key: fork over the table's keys
        if isinstance(k, (SB, BV)) or True:
            r = table_lookup(ip, o, k)
            if r is not NotImplemented:
                return r
    if is_sym(k) and isinstance(o, (list, tuple)) and not isinstance(k, slice):
        return getitem(ip, to_L(ip, o), k)
    if isinstance(o, (list, tuple)) and isinstance(k, slice) and is_sym(k):
        return slice_L(ip, to_L(ip, o), k)
    if isinstance(o, (str, bytes)) and is_sym(k):
        raise Unsupported('symbolic index in str')
    try:
        return o[k]
    except (KeyError, IndexError, TypeError) as e:
        raise PyRaise(type(e))


def table_lookup(ip, tab, k, default=None, missing='raise'):
    """lookup of a symbolic key in a concrete table"""
    ctx = ip.ctx
    vals = list(tab.values())
    if all(isinstance(v, int) and not isinstance(v, bool) for v in vals) and len(tab) == 64 and isinstance(k, SB) and len(k) == 1:
        # base64 char -> index: formula instead of a 64 way fork
        c = bv8(k.items[0])
        ref = {chr(B64CH[i]): i for i in range(64)}
        if tab == ref:
            h = ctx.cache.get(('sext', c.get_id()))
            if h is not None and h[1].eq(c):
                return BV(h[0])
            ok, s = b64_dec_char(c)
            ok = z3.And(ok, c != 43, c != 47)
            if not ctx.branch(ok):
                raise PyRaise(KeyError)
            return bvnorm(s)
    if isinstance(k, BV) and len(tab) == 64 and all(isinstance(v, str) and len(v) == 1 for v in vals):
        ref = {i: chr(B64CH[i]) for i in range(64)}
        if tab == ref:
            t = k.t
            if t.size() > 6:
                if not ctx.branch(z3.ULT(t, 64)):
                    raise PyRaise(KeyError)
                t = z3.Extract(5, 0, t)
            s = z3.simplify(zext(t, 6))
            if z3.is_bv_value(s):
                return chr(B64CH[s.as_long()])
            e = b64_enc_sextet(s)
            ctx.cache[('sext', e.get_id())] = (s, e)
            return SB([e], True)
    # group keys by value to limit forking
    if isinstance(k, (SB, BV, U, I)):
        groups = {}
        for kk, v in tab.items():
            c = eq(ip, k, kk)
            if c is False:
                continue
            try:
                groups.setdefault(v, []).append(c)
            except TypeError:
                groups.setdefault(id(v), [v]).append(c)
        for v, cs in groups.items():
            if cs and not isinstance(cs[0], bool) and not z3.is_expr(cs[0]):
                v, cs = cs[0], cs[1:]
            if ctx.branch(or_(cs)):
                return v
        if missing == 'raise':
            raise PyRaise(KeyError)
        return default
    return NotImplemented


def setitem(ip, o, k, v):
    ctx = ip.ctx
    if isinstance(o, D):
        kt = ctx.term(k, o.kk)
        o.has = z3.Store(o.has, kt, z3.BoolVal(True))
        o.val = z3.Store(o.val, kt, ctx.term(v, o.vk))
        return
    if isinstance(o, L):
        if isinstance(k, slice):
            if k.start is None and k.stop is None:
                l = to_L(ip, v, o.ek)
                o.n, o.a = l.n, l.a
                return
            raise Unsupported('slice assign')
        o.a = z3.Store(o.a, idx_norm(ip, o, k), ctx.term(v, o.ek))
        return
    if isinstance(o, HObj):
        h = ip.unit.models.get(('setitem', o.cls))
        if h:
            return h(ip, o, k, v)
        f = getattr(o.cls, '__setitem__', None)
        if isinstance(f, types.FunctionType) and in_repo(f):
            return ip.call(f, [o, k, v], {})
        ctx.trace.append(('setitem', o, k, v))
        return
    if isinstance(o, U):
        h = ip.unit.models.get(('setitem', o.ty))
        if h:
            return h(ip, o, k, v)
        ctx.trace.append(('setitem', o, k, v))
        return
    if isinstance(o, dict):
        if is_sym(k):
            raise Unsupported('symbolic key into native dict')
        o[k] = v
        return
    if isinstance(o, list):
        if is_sym(k):
            raise Unsupported('symbolic index store')
        try:
            o[k] = v
        except IndexError:
            raise PyRaise(IndexError)
        return
    if isinstance(o, bytearray) and not is_sym(k) and not is_sym(v):
        o[k] = v
        return
    raise Unsupported('setitem')


def delitem(ip, o, k):
    ctx = ip.ctx
    if isinstance(o, D):
        kt = ctx.term(k, o.kk)
        if not ctx.branch(z3.Select(o.has, kt)):
            raise PyRaise(KeyError)
        c0 = card(ip, S(o.has, o.kk))
        o.has = z3.Store(o.has, kt, z3.BoolVal(False))
        ctx.assume(card(ip, S(o.has, o.kk)) == c0 - 1)
        return
    if isinstance(o, SB) and isinstance(k, slice) and not is_sym(k):
        del o.items[k]
        return
    if isinstance(o, (U, HObj)):
        ctx.trace.append(('delitem', o, k))
        return
    if isinstance(o, (dict, list, bytearray)) and not is_sym(k):
        try:
            del o[k]
        except (KeyError, IndexError) as e:
            raise PyRaise(type(e))
        return
    if isinstance(o, L) and isinstance(k, slice):
        if k.start is None and k.stop is not None:
            r = slice_L(ip, o, slice(k.stop, None))
            o.n, o.a = r.n, r.a
            return
    raise Unsupported('delitem')


# ------------------------------------------------------------------ attributes
def u_attr_list(ip, o, name, kind):
    ctx = ip.ctx
    ek = kind.split(':', 1)[1]
    ecls = None
    if ek.startswith('obj='):
        ecls, ek = ek[4:], 'U'
    fn = z3.Function('at_' + name + '_n', US, INT)
    fa = z3.Function('at_' + name + '_a', US, z3.ArraySort(INT, sort_of(ek)))
    n = fn(o.t)
    key = ('atl', name, o.t.get_id())
    if key not in ctx.ax_done:
        ctx.ax_done.add(key)
        ctx.cache.setdefault('keepz', []).append(o.t)
        ctx.assume(n >= 0)
    return L(n, fa(o.t), ek, kind.startswith('tuple'), ecls)


def getattr_(ip, o, name):
    ctx = ip.ctx
    unit = ip.unit
    if isinstance(o, HObj):
        if name in o.fields:
            return o.fields[name]
        if name == '__class__':
            return o.cls
        if name in o.schema:
            v = ctx.mk(o.schema[name], name) if isinstance(o.schema[name], str) or callable(o.schema[name]) else o.schema[name]
            o.fields.init(name, v)
            o.old[name] = v.copy() if isinstance(v, (L, S, D)) else v
            return v
        h = unit.models.get(('attr', o.cls, name)) or unit.models.get(('attr', None, name))
        if h:
            return h(ip, o)
        raw = None
        for c in getattr(o.cls, '__mro__', ()):
            if name in c.__dict__:
                raw = c.__dict__[name]
                break
        if isinstance(raw, property):
            m = unit.models.get(key_of(raw.fget))
            if m:
                return m(ip, [o], {}, None)
            return ip.call(raw.fget, [o], {})
        if isinstance(raw, types.FunctionType):
            return Meth(o, name)
        if isinstance(raw, classmethod):
            return Fn(func_ast(raw.__func__), raw.__func__.__globals__, None, o.cls, key_of(raw.__func__), o.cls,
                      (list(raw.__func__.__defaults__ or ()), dict(raw.__func__.__kwdefaults__ or {})))
        if isinstance(raw, staticmethod):
            return raw.__func__
        if raw is not None:
            return raw
        # undeclared instance attribute: arbitrary value of the kind the unit declares for the name
        kind = unit.attr_kind(o.cls.__name__, name)
        v = ctx.mk(kind, name)
        o.fields.init(name, v)
        o.old[name] = v.copy() if isinstance(v, (L, S, D)) else v
        return v
    if isinstance(o, U):
        h = unit.models.get(('attr', o.ty, name)) or unit.models.get(('attr', None, name))
        if h:
            return h(ip, o)
        if name in ctx.mems:
            m = ctx.mems[name]
            v = ctx.from_term(m.kind, z3.Select(m.a, o.t))
            if m.ecls:
                v.ty = m.ecls
            return v
        kind = unit.attr_kind(o.ty, name)
        if kind == 'method':
            return Meth(o, name)
        if kind.startswith('list:') or kind.startswith('tuple:'):
            return u_attr_list(ip, o, name, kind)
        ty = None
        if kind.startswith('obj:'):
            ty, kind = kind[4:], 'U'
        f = z3.Function('at_' + name, US, sort_of(kind))
        v = ctx.from_term(kind, f(o.t))
        if ty:
            v.ty = ty
        if kind == 'U' and ty is None and unit.is_method_name(o.ty, name):
            return Meth(o, name)
        return v
    if isinstance(o, SuperV):
        mro = o.selfv.cls.__mro__ if isinstance(o.selfv, HObj) else o.cls.__mro__
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                raw = c.__dict__[name]
                if isinstance(raw, types.FunctionType):
                    return BoundReal(raw, o.selfv)
                if isinstance(raw, property):
                    return ip.call(raw.fget, [o.selfv], {})
                break
        return Meth(o, name)
    if isinstance(o, (I, BV, R, B, L, S, D, SB, It, Fn, Meth, OpaqueMod, Exc)):
        if isinstance(o, R) and name in ('numerator', 'denominator'):
            f = z3.Function('frac_' + name, z3.RealSort(), INT)
            return I(f(o.t))
        if isinstance(o, Exc) and name == 'args':
            return (U(ctx.fresh('excarg', US), 'str'),)
        return Meth(o, name)
    if is_sym(o):
        return Meth(o, name)
    try:
        return getattr(o, name)
    except AttributeError:
        raise PyRaise(AttributeError)


class BoundReal(V):
    def __init__(self, fn, selfv):
        self.fn = fn
        self.selfv = selfv


def setattr_(ip, o, name, v):
    ctx = ip.ctx
    if isinstance(o, HObj):
        raw = None
        for c in getattr(o.cls, '__mro__', ()):
            if name in c.__dict__:
                raw = c.__dict__[name]
                break
        if isinstance(raw, property) and raw.fset is not None:
            ip.call(raw.fset, [o, v], {})
            return
        if name not in o.fields and name not in o.old:
            try:
                getattr_(ip, o, name)
            except (Unsupported, PyRaise):
                pass
        ctx.trace.append(('set', o, name, v))
        o.fields[name] = v
        return
    if isinstance(o, U) and name in ctx.mems:
        m = ctx.mems[name]
        m.a = z3.Store(m.a, o.t, ctx.term(v, m.kind))
        return
    if isinstance(o, U):
        if not getattr(ip.unit, 'uset_ok', False):
            raise Unsupported(f'setattr on opaque object .{name}')
        ctx.trace.append(('set', o, name, v))
        return
    raise Unsupported(f'setattr on {type(o).__name__}.{name}')


def enter(ip, v):
    if isinstance(v, CtxMgr):
        return v.v
    if isinstance(v, U):
        return U(ip.ctx.fresh('with', US))
    if isinstance(v, HObj):
        return v
    return v


class CtxMgr(V):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------ calls
def call(ip, f, args, kwargs, node=None):
    ctx, unit = ip.ctx, ip.unit
    # contracts / models by identity of the real function
    if isinstance(f, types.MethodType):
        return call(ip, f.__func__, [f.__self__] + args, kwargs, node)
    if isinstance(f, BoundReal):
        return call(ip, f.fn, [f.selfv] + args, kwargs, node)
    if isinstance(f, types.FunctionType):
        m = unit.models.get(key_of(f)) or unit.models.get(f.__name__ if in_repo(f) else None)
        if m:
            return m(ip, args, kwargs, f)
        m = BUILTINS.get(f)
        if m:
            return m(ip, args, kwargs)
        if in_repo(f):
            if unit.is_opaque(key_of(f)):
                return opaque(ip, key_of(f), args, kwargs)
            return ip.call_function(f, args, kwargs)
        if not is_sym(args) and not is_sym(list(kwargs.values())):
            return native(f, args, kwargs)
        return opaque(ip, key_of(f), args, kwargs)
    if isinstance(f, Fn):
        m = unit.models.get(f.qual)
        if m:
            return m(ip, ([f.selfv] if f.selfv is not None else []) + args, kwargs, f)
        return ip.call_function(f, args, kwargs)
    if isinstance(f, Meth):
        return call_method(ip, f.recv, f.name, args, kwargs)
    if isinstance(f, type):
        return construct(ip, f, args, kwargs)
    if isinstance(f, OpaqueMod):
        return opaque(ip, f.name, args, kwargs)
    if isinstance(f, U):
        return opaque(ip, 'call:' + str(f.t.decl().name()), [f] + args, kwargs)
    try:
        m = BUILTINS.get(f)
    except TypeError:
        m = None
    if m:
        return m(ip, args, kwargs)
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)) or callable(f):
        selfv = getattr(f, '__self__', None)
        if selfv is not None and not isinstance(selfv, types.ModuleType) and not isinstance(selfv, type):
            return call_method(ip, selfv, f.__name__, args, kwargs)
        m = unit.models.get(f"{getattr(f, '__module__', '')}:{getattr(f, '__qualname__', '')}")
        if m:
            return m(ip, args, kwargs, f)
        if not is_sym(args) and not is_sym(list(kwargs.values())):
            return native(f, args, kwargs)
        return opaque(ip, getattr(f, '__qualname__', str(f)), args, kwargs)
    raise PyRaise(TypeError)


def native(f, args, kwargs):
    try:
        return f(*args, **kwargs)
    except Exception as e:
        raise PyRaise(type(e))


def opaque(ip, name, args, kwargs, kind=None, raises=None):
    """call outside the verified text: arbitrary result, recorded in the ghost trace"""
    ctx, unit = ip.ctx, ip.unit
    if ctx.quiet:
        return uf_call(ip, name, args, kwargs, kind or unit.call_kind(name))
    unit.opaque_calls.add(name)
    if unit.on_opaque:
        unit.on_opaque(ip, name, args, kwargs)
    r = raises if raises is not None else unit.may_raise(name)
    if r:
        if ctx.choose(2, name + ' raises') == 1:
            ctx.trace.append(('raised', name, args, kwargs))
            raise PyRaise(r if isinstance(r, type) else Exception, 'opaque')
    kind = kind or unit.call_kind(name)
    if unit.is_pure(name):
        v = uf_call(ip, name, args, kwargs, kind)
    else:
        short = name.split(':')[-1].split('.')[-1]
        v = mk_kind(ip, kind, 'r_' + short)
        # mutable args given to opaque impure calls keep their value: frame assumption, listed
    ctx.trace.append(('call', name, args, kwargs, v))
    return v


def mk_kind(ip, kind, nm):
    ty = None
    if kind.startswith('obj:'):
        return ip.ctx.mk(kind, nm)
    if kind.startswith('list:obj='):
        l = ip.ctx.mk('list:U', nm)
        l.ecls = kind[9:]
        return l
    if kind.startswith('opt:obj:'):
        u = U(ip.ctx.fresh(nm, US), kind[8:])
        ip.ctx.assume(truthyF(u.t) == (u.t != ip.ctx.injt(None)))
        return u
    return ip.ctx.mk(kind, nm)


def uf_call(ip, name, args, kwargs, kind):
    ctx = ip.ctx
    ts = [ctx.toU(a) for a in args]
    nm = name
    for k in sorted(kwargs):
        nm += '|' + k
        ts.append(ctx.toU(kwargs[k]))
    ty = None
    if kind.startswith('obj:'):
        ty, kind = kind[4:], 'U'
    if kind.startswith('list:'):
        ek = kind[5:]
        ecls = None
        if ek.startswith('obj='):
            ecls, ek = ek[4:], 'U'
        fn = z3.Function('c_' + nm + '_n', *([US] * len(ts)), INT)
        fa = z3.Function('c_' + nm + '_a', *([US] * len(ts)), z3.ArraySort(INT, sort_of(ek)))
        n = fn(*ts) if ts else z3.Const('c_' + nm + '_n', INT)
        ctx.assume(n >= 0)
        return L(n, fa(*ts), ek, ecls=ecls)
    if not ts:
        return ctx.from_term(kind, z3.Const('c_' + nm, sort_of(kind)))
    f = z3.Function('c_' + nm, *([US] * len(ts)), sort_of(kind))
    v = ctx.from_term(kind, f(*ts))
    if ty:
        v.ty = ty
        ctx.assume(truthyF(v.t))
        ctx.assume(v.t != ctx.injt(None))
    return v


def construct(ip, cls, args, kwargs):
    ctx, unit = ip.ctx, ip.unit
    if cls.__name__ == 'OrderedSet':
        return os_make(ip, args, kwargs, cls)
    m = unit.models.get(cls) or unit.models.get('new:' + cls.__name__) or BUILTINS.get(cls)
    if m:
        return m(ip, args, kwargs) if m in BUILTINS.values() else m(ip, args, kwargs, cls)
    if isinstance(cls, type) and issubclass(cls, BaseException):
        return Exc(cls)
    if not is_sym(args) and not is_sym(list(kwargs.values())) and (cls.__module__ in ('builtins', 'collections', 'fractions', 'datetime') or
                                                                  unit.native_ok(cls)):
        return native(cls, args, kwargs)
    if hasattr(cls, '_fields') and issubclass(cls, tuple):   # namedtuple
        fs = list(cls._fields)
        vals = list(args) + [kwargs[k] for k in fs[len(args):] if k in kwargs]
        if len(vals) != len(fs):
            raise PyRaise(TypeError)
        return cls(*vals)
    return opaque(ip, 'new:' + cls.__name__, args, kwargs, kind=unit.call_kind_or('new:' + cls.__name__, 'obj:' + cls.__name__))


def call_method(ip, o, name, args, kwargs):
    ctx, unit = ip.ctx, ip.unit
    if isinstance(o, HObj):
        m = unit.models.get(('meth', o.cls.__name__, name)) or unit.models.get(('meth', None, name))
        if m:
            return m(ip, [o] + args, kwargs, None)
        fn = getattr(o.cls, name, None)
        if isinstance(fn, types.FunctionType):
            return call(ip, fn, [o] + args, kwargs)
        return opaque(ip, f'{o.cls.__name__}.{name}', [o] + args, kwargs)
    if isinstance(o, U):
        m = unit.models.get(('meth', o.ty, name)) or unit.models.get(('meth', None, name))
        if m:
            r = m(ip, [o] + args, kwargs, None)
            if r is not NotImplemented:
                return r
        if o.ty in ('str', 'bytes', None) and name in STRM:
            return STRM[name](ip, o, args, kwargs)
        return opaque(ip, f'{o.ty or ""}.{name}', [o] + args, kwargs)
    if isinstance(o, L):
        return l_method(ip, o, name, args, kwargs)
    if isinstance(o, S):
        return s_method(ip, o, name, args, kwargs)
    if isinstance(o, D):
        return d_method(ip, o, name, args, kwargs)
    if isinstance(o, SB):
        return sb_method(ip, o, name, args, kwargs)
    if isinstance(o, BV) or (isinstance(o, int) and not isinstance(o, bool) and name == 'to_bytes'):
        if name == 'to_bytes':
            n = args[0] if args else kwargs.get('length', 1)
            return int_to_bytes(ip, o, n)
        if name == 'bit_length':
            raise Unsupported('bit_length')
    if isinstance(o, SuperV):
        return opaque(ip, 'super.' + name, args, kwargs)
    if isinstance(o, It):
        return l_method(ip, to_L(ip, o), name, args, kwargs)
    # native receiver
    if isinstance(o, list) and name == 'append':
        o.append(args[0])
        return None
    if isinstance(o, list) and name == 'insert' and not is_sym(args[0]):
        o.insert(*args)
        return None
    if isinstance(o, list) and name == 'extend':
        x = args[0]
        if isinstance(x, (L, It, S)):
            raise Unsupported('extend native list by symbolic')
        o.extend(list(x))
        return None
    if isinstance(o, list) and name in ('pop', 'reverse', 'clear', 'copy'):
        try:
            return getattr(o, name)(*args)
        except IndexError:
            raise PyRaise(IndexError)
    if type(o).__name__ == 'deque' and name in ('append', 'appendleft'):
        getattr(o, name)(args[0])
        return None
    if type(o).__name__ in ('Deck',):
        ctx.trace.append(('call', 'Deck.' + name, [o] + args, kwargs, None))
        return None
    if isinstance(o, dict):
        if name == 'get':
            k = args[0]
            d = args[1] if len(args) > 1 else kwargs.get('default')
            if is_sym(k):
                return table_lookup(ip, o, k, d, missing='default')
            return o.get(k, d)
        if name == 'items':
            return list(o.items())
        if name == 'keys':
            return list(o.keys())
        if name == 'values':
            return list(o.values())
        if name in ('setdefault', 'pop') and not is_sym(args[0]):
            try:
                return getattr(o, name)(*args)
            except KeyError:
                raise PyRaise(KeyError)
        if name == 'update':
            for a in args:
                o.update(a)
            o.update(kwargs)
            return None
        if name == 'copy':
            return dict(o)
    if isinstance(o, (str, bytes)) and name == 'join':
        x = iterate(ip, args[0])
        if isinstance(x, (list, tuple)):
            if not is_sym(x):
                return native(o.join, [list(x)], {})
            if all(isinstance(y, (SB, str, bytes)) for y in x):
                items, sep = [], list(sb_items(o))
                for i, y in enumerate(x):
                    if i:
                        items += sep
                    items += list(sb_items(y))
                return sb_norm(items, isinstance(o, str))
            r = None
            for i, y in enumerate(x):
                r = y if r is None else binop(ip, 'Add', binop(ip, 'Add', r, o) if o else r, y)
            return r
        return opaque(ip, 'str.join', [o] + args, kwargs, kind='str')
    if isinstance(o, (set,)) and is_sym(args):
        if name == 'add':
            raise Unsupported('symbolic add to native set')
        return call_method(ip, to_S(ip, o), name, args, kwargs)
    if isinstance(o, (str, bytes)) and is_sym(args):
        if name in STRM:
            return STRM[name](ip, U(ctx.toU(o), 'str' if isinstance(o, str) else 'bytes'), args, kwargs)
        if name == 'format':
            parts = _format_parts(o, args, kwargs) if isinstance(o, str) else None
            if parts is not None:
                return fstring(ip, parts)
            return U(ctx.fresh('fmt', US), 'str')
    if not is_sym(args) and not is_sym(list(kwargs.values())) and not is_sym(o):
        f = getattr(o, name, None)
        if f is None:
            raise PyRaise(AttributeError)
        if isinstance(f, types.MethodType):
            if in_repo(f.__func__):
                return call(ip, f.__func__, [f.__self__] + args, kwargs)
        return native(f, args, kwargs)
    if isinstance(o, type):
        return call(ip, getattr(o, name), args, kwargs)
    f = getattr(type(o), name, None) if not is_sym(o) else None
    if isinstance(f, types.FunctionType) and in_repo(f):
        return call(ip, f, [o] + args, kwargs)
    if isinstance(f, classmethod):
        return call(ip, f.__func__, [type(o)] + args, kwargs)
    return opaque(ip, f'{type(o).__name__}.{name}', [o] + args, kwargs)


def _format_parts(o, args, kwargs):
    """pieces of str.format with plain fields"""
    import string
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(o):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if '{' in (spec or '') or any(c in field for c in '.['):
                return None
            if field == '':
                v, auto = args[auto], auto + 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kwargs[field]
            parts.append((v, ord(conv) if conv else -1, spec or None))
    except (ValueError, IndexError, KeyError):
        return None
    return parts


def l_method(ip, l, name, args, kwargs):
    ctx = ip.ctx
    if isinstance(l, OL):
        if name in ('union', 'intersection', 'difference'):
            r = l
            for a in args:
                r = os_op(ip, {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name], r, a)
            return r
        if name in ('add', 'append'):
            xt = ctx.term(args[0], l.ek)
            if ctx.branch(contains(ip, args[0], l)):
                return None
            list_append(ip, l, args[0])
            return None
        if name == 'update':
            for a in args:
                r = os_op(ip, 'BitOr', l, a)
                l.n, l.a = r.n, r.a
            return None
        if name in ('issubset', 'issuperset'):
            return wrapc(compare(ip, 'LtE' if name == 'issubset' else 'GtE', l, os_make(ip, args)))
        if name not in ('index', 'copy', '__len__'):
            raise Unsupported('ordered set ' + name)
    if name == 'append':
        list_append(ip, l, args[0])
        return None
    if name in ('appendleft',) or (name == 'insert' and args[0] == 0):
        x = args[-1]
        a = ctx.fresh('appl', z3.ArraySort(INT, sort_of(l.ek)))
        k = ctx.fresh('k', INT)
        n = zi(l.n)
        old = l.a
        ctx.assume(a[0] == ctx.term(x, l.ek))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 1, k <= n), a[k] == old[k - 1]), patterns=[a[k]]))
        for h in ip.unit.list_hooks:
            h(ip, 'appendleft', l, old, n, a, x)
        l.a, l.n = a, z3.simplify(n + 1)
        return None
    if name == 'extend':
        r = l_concat(ip, l, to_L(ip, args[0], l.ek))
        l.a, l.n = r.a, r.n
        return None
    if name == 'copy':
        return l.copy()
    if name == 'clear':
        l.n = z3.IntVal(0)
        return None
    if name == 'pop':
        n = zi(l.n)
        if not ctx.branch(n > 0):
            raise PyRaise(IndexError)
        if not args or args[0] == -1:
            v = lget(ip, l, n - 1)
            l.n = n - 1
            return v
        if args[0] == 0:
            v = lget(ip, l, z3.IntVal(0))
            r = slice_L(ip, l, slice(1, None))
            l.n, l.a = r.n, r.a
            return v
    if name == 'index':
        xt = ctx.term(args[0], l.ek)
        k, j = ctx.fresh('ix', INT), ctx.fresh('k', INT)
        if not ctx.branch(contains(ip, args[0], l)):
            raise PyRaise(ValueError)
        ctx.assume(z3.And(k >= 0, k < zi(l.n), l.a[k] == xt))
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), l.a[j] != xt)))
        ctx.ghost.setdefault('index', []).append((l.a, k))
        return I(k)
    if name in ('union', 'intersection', 'difference'):
        return s_method(ip, to_S(ip, l), name, args, kwargs)
    if name in ('__len__',):
        return I(zi(l.n))
    return opaque(ip, 'list.' + name, [l] + args, kwargs)


def s_method(ip, s, name, args, kwargs):
    ctx = ip.ctx
    if name == 'add':
        s_add(ip, s, args[0])
        return None
    if name == 'update':
        for a in args:
            r = set_op(ip, 'BitOr', s, a)
            s.a = r.a
        return None
    if name in ('discard', 'remove'):
        xt = ctx.term(args[0], s.ek)
        was = z3.Select(s.a, xt)
        if name == 'remove' and not ctx.branch(was):
            raise PyRaise(KeyError)
        c0 = card(ip, s)
        s2 = S(z3.Store(s.a, xt, z3.BoolVal(False)), s.ek)
        ctx.assume(card(ip, s2) == c0 - z3.If(was, 1, 0))
        s.a = s2.a
        return None
    if name in ('union', 'intersection', 'difference'):
        op = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name]
        r = s
        for a in args:
            r = set_op(ip, op, r, a)
        return r
    if name == 'issubset':
        return B(z3.IsSubset(s.a, to_S(ip, args[0], s.ek).a))
    if name == 'issuperset':
        return B(z3.IsSubset(to_S(ip, args[0], s.ek).a, s.a))
    if name == 'isdisjoint':
        r = set_op(ip, 'BitAnd', s, args[0])
        return B(r.a == z3.EmptySet(sort_of(s.ek)))
    if name == 'copy':
        return s.copy()
    raise Unsupported('set.' + name)


def d_method(ip, d, name, args, kwargs):
    ctx = ip.ctx
    if name == 'get':
        kt = ctx.term(args[0], d.kk)
        default = args[1] if len(args) > 1 else kwargs.get('default')
        has = z3.Select(d.has, kt)
        if ctx.quiet and default is not None:
            return ite(ip, has, ctx.from_term(d.vk, z3.Select(d.val, kt)), default)
        if ctx.quiet:
            return U(z3.If(has, ctx.toU(ctx.from_term(d.vk, z3.Select(d.val, kt))), ctx.injt(None)))
        if ctx.branch(has):
            return ctx.from_term(d.vk, z3.Select(d.val, kt))
        return default
    if name == 'pop':
        kt = ctx.term(args[0], d.kk)
        if ctx.branch(z3.Select(d.has, kt)):
            v = ctx.from_term(d.vk, z3.Select(d.val, kt))
            delitem(ip, d, args[0])
            return v
        if len(args) > 1:
            return args[1]
        raise PyRaise(KeyError)
    if name == 'keys':
        return S(d.has, d.kk)
    if name == 'items':
        ks = s_list(ip, S(d.has, d.kk))
        val = d.val
        return It(ks.n, lambda i: (ctx.from_term(d.kk, ks.a[i]), ctx.from_term(d.vk, z3.Select(val, ks.a[i]))))
    if name == 'values':
        ks = s_list(ip, S(d.has, d.kk))
        val = d.val
        return It(ks.n, lambda i: ctx.from_term(d.vk, z3.Select(val, ks.a[i])))
    if name == 'copy':
        return d.copy()
    if name == 'clear':
        d.has = z3.K(sort_of(d.kk), z3.BoolVal(False))
        return None
    if name == 'setdefault':
        kt = ctx.term(args[0], d.kk)
        if ctx.branch(z3.Select(d.has, kt)):
            return ctx.from_term(d.vk, z3.Select(d.val, kt))
        setitem(ip, d, args[0], args[1])
        return args[1]
    h = ip.unit.models.get(('dmeth', name))
    if h:
        return h(ip, d, args, kwargs)
    raise Unsupported('dict.' + name)


def sb_method(ip, s, name, args, kwargs):
    if name == 'decode':
        if s.isstr:
            raise PyRaise(AttributeError)
        # ascii only in this model: bytes >= 0x80 are not valid single byte utf-8
        for x in s.items:
            c = (x < 128) if isinstance(x, int) else (z3.Extract(7, 7, x) == 0)
            if not ip.ctx.branch(c):
                raise PyRaise(UnicodeDecodeError)
        return sb_norm(s.items, True)
    if name == 'encode':
        if not s.isstr:
            raise PyRaise(AttributeError)
        return sb_norm(s.items, False)
    if name in ('startswith', 'endswith'):
        p = sb_items(args[0])
        if len(p) > len(s.items):
            return False
        it = s.items[:len(p)] if name == 'startswith' else s.items[len(s.items) - len(p):]
        return wrapc(and_([ch_eq(x, y) for x, y in zip(it, p)]))
    if name in ('rsplit', 'split', 'rpartition', 'partition', 'find', 'strip', 'lstrip', 'rstrip', 'rfind', 'index'):
        raise Unsupported('SB.' + name)
    raise Unsupported('SB.' + name)


def _strm(name, ty):
    def f(ip, o, args, kwargs):
        return uf_call(ip, 'str.' + name, [o] + args, {}, ty)
    return f


def _encode(ip, o, args, kwargs):
    if o.ty == 'bytes':
        raise PyRaise(AttributeError)
    t = o.t
    if z3.is_app(t) and t.decl().name() == 'dec' and t.num_args() == 1:
        return U(t.arg(0), 'bytes')
    f = z3.Function('enc', US, US)
    g = z3.Function('dec', US, US)
    ip.ctx.assume(g(f(t)) == t)
    ip.ctx.assume(f(t) != ip.ctx.injt(None))
    ip.ctx.assume(lenF(f(t)) >= 0)
    ip.ctx.assume(truthyF(f(t)) == truthyF(t))
    return U(f(t), 'bytes')


def _decode(ip, o, args, kwargs):
    if o.ty == 'str':
        raise PyRaise(AttributeError)
    t = o.t
    if z3.is_app(t) and t.decl().name() == 'enc' and t.num_args() == 1:
        return U(t.arg(0), 'str')
    f = z3.Function('enc', US, US)
    g = z3.Function('dec', US, US)
    ip.ctx.assume(f(g(t)) == t)
    ip.ctx.assume(truthyF(g(t)) == truthyF(t))
    return U(g(t), 'str')


STRM = {'encode': _encode, 'decode': _decode, 'startswith': _strm('startswith', 'bool'), 'endswith': _strm('endswith', 'bool'),
        'lower': _strm('lower', 'str'), 'upper': _strm('upper', 'str'), 'strip': _strm('strip', 'str'), 'split': _strm('split', 'list:str'),
        'rsplit': _strm('rsplit', 'list:str'), 'isnumeric': _strm('isnumeric', 'bool'), 'replace': _strm('replace', 'str'),
        'lstrip': _strm('lstrip', 'str'), 'rstrip': _strm('rstrip', 'str'), 'find': _strm('find', 'int'), 'count': _strm('count', 'nat')}


# ------------------------------------------------------------------ builtin function models
def b_len(ip, a, k):
    v = a[0]
    if isinstance(v, (L, It)):
        n = z3.simplify(zi(v.n))
        return n.as_long() if z3.is_int_value(n) else I(n)
    if isinstance(v, S):
        return I(card(ip, v))
    if isinstance(v, D):
        return I(card(ip, S(v.has, v.kk)))
    if isinstance(v, SB):
        return len(v.items)
    if isinstance(v, U):
        if v.ty in ('str', 'bytes'):
            ip.ctx.assume(lenF(v.t) >= 0)
            ip.ctx.assume((lenF(v.t) == 0) == z3.Not(truthyF(v.t)))
            return I(lenF(v.t))
        h = ip.unit.models.get(('len', v.ty))
        if h:
            return h(ip, v)
        return I(zi(u_list(ip, v).n))
    if isinstance(v, HObj):
        h = ip.unit.models.get(('len', v.cls))
        if h:
            return h(ip, v)
        f = getattr(v.cls, '__len__', None)
        if isinstance(f, types.FunctionType):
            return ip.call(f, [v], {})
    if v is None or isinstance(v, (int, I)):
        raise PyRaise(TypeError)
    return len(v)


def b_isinstance(ip, a, k):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    flat = []
    for x in cs:
        flat.extend(getattr(x, '__args__', (x,)) if isinstance(x, types.UnionType) else (x,))
    cs = flat

    def has(*ts):
        return any(x in ts for x in cs)
    names = {getattr(x, '__name__', str(x)) for x in cs}
    seq = names & {'Sequence', 'Iterable', 'Sized', 'Collection', 'NonStringIterable', 'NonStringSequence'}
    if isinstance(v, (I, BV)):
        return has(int)
    if isinstance(v, B):
        return has(bool, int)
    if isinstance(v, R):
        return bool(names & {'Fraction', 'float'})
    if isinstance(v, L):
        return bool(seq) or (has(tuple) if v.tup else has(list))
    if isinstance(v, S):
        return has(set) or bool(names & {'Iterable', 'Set', 'OrderedSet'})
    if isinstance(v, D):
        return has(dict) or bool(names & {'Mapping', 'Iterable', 'SortedDict'})
    if isinstance(v, SB):
        if v.isstr:
            return has(str) or bool(names & {'Sequence', 'Iterable'})
        return (has(bytearray) if v.mut else has(bytes)) or bool(names & {'Sequence', 'Iterable'})
    if isinstance(v, HObj):
        return any(isinstance(x, type) and issubclass(v.cls, x) for x in cs)
    if isinstance(v, Exc):
        return any(isinstance(x, type) and issubclass(v.cls, x) for x in cs)
    if isinstance(v, (Fn, Meth)):
        return bool(names & {'function', 'Callable'})
    if isinstance(v, U):
        if v.ty in ('str', 'bytes'):
            return has(str if v.ty == 'str' else bytes) or bool(names & {'Sequence', 'Iterable'})
        if v.ty:
            if any(getattr(x, '__name__', None) == v.ty for x in cs):
                return True
            h = ip.unit.class_named(v.ty)
            if h is not None:
                return any(isinstance(x, type) and issubclass(h, x) for x in cs)
        fs = []
        for x in cs:
            f = z3.Function('isa_' + getattr(x, '__name__', str(x)), US, BOOL)
            fs.append(f(v.t))
        for f in fs:
            ip.ctx.assume(z3.Implies(f, v.t != ip.ctx.injt(None)))
        return B(z3.Or(*fs)) if len(fs) > 1 else B(fs[0])
    try:
        return isinstance(v, tuple(cs))
    except TypeError:
        return False


def b_list(ip, a, k):
    if not a:
        return []
    v = a[0]
    s = iterate(ip, v)
    if isinstance(s, It):
        r = to_L(ip, v if isinstance(v, (L, S)) else s)
        return L(r.n, r.a, r.ek, False, r.ecls)
    return list(s)


def b_tuple(ip, a, k):
    r = b_list(ip, a, k)
    if isinstance(r, L):
        r.tup = True
        return r
    return tuple(r)


def b_set(ip, a, k):
    return make_set(ip, a[0]) if a else set()


def b_range(ip, a, k):
    if not is_sym(a):
        return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3 and a[2] != 1:
        raise Unsupported('range step')
    lt, ht = ip.ctx.int_t(lo), ip.ctx.int_t(hi)
    n = z3.simplify(z3.If(ht > lt, ht - lt, z3.IntVal(0)))
    return It(n, lambda i: I(z3.simplify(lt + i)))


def b_enumerate(ip, a, k):
    s = iterate(ip, a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(s, It):
        return It(s.n, lambda i: (I(i + ip.ctx.int_t(start)), s.get(i)))
    return list(enumerate(s, start)) if not is_sym(start) else [(binop(ip, 'Add', start, i), x) for i, x in enumerate(s)]


def b_zip(ip, a, k):
    ss = [iterate(ip, x) for x in a]
    if not any(isinstance(s, It) for s in ss):
        return list(zip(*ss))
    its = []
    for s in ss:
        if not isinstance(s, It):
            l = to_L(ip, list(s))
            its.append(It(l.n, lambda i, l=l: lget(ip, l, i)))
        else:
            its.append(s)
    n = zi(its[0].n)
    for s in its[1:]:
        n = z3.If(zi(s.n) < n, zi(s.n), n)
    return It(z3.simplify(n), lambda i: tuple(s.get(i) for s in its))


def b_reversed(ip, a, k):
    s = iterate(ip, a[0])
    if isinstance(s, It):
        n = zi(s.n)
        return It(s.n, lambda i: s.get(z3.simplify(n - 1 - i)))
    return list(reversed(s))


def b_int(ip, a, k):
    v = a[0] if a else 0
    if isinstance(v, (I, BV)) and len(a) == 1:
        return v
    if isinstance(v, B):
        return I(ip.ctx.int_t(v))
    if isinstance(v, R):
        return I(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if is_sym(v):
        base = a[1] if len(a) > 1 else k.get('base', 10)
        h = ip.unit.models.get('int()')
        if h:
            return h(ip, v, base)
        ok = z3.Function(f'isint{base}', US, BOOL)
        val = z3.Function(f'intval{base}', US, INT)
        u = ip.ctx.toU(v)
        if isinstance(v, U) and v.ty not in ('str', 'bytes') and len(a) == 1:
            return I(uI(v.t))
        if not ip.ctx.quiet and not ip.ctx.branch(ok(u)):
            raise PyRaise(ValueError)
        return I(val(u))
    return native(int, a, k)


def b_str(ip, a, k):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, U) and v.ty == 'str':
        return v
    if isinstance(v, SB):
        if v.isstr:
            return v
        if len(a) > 1:
            return sb_method(ip, v, 'decode', [], {})
    if is_sym(v):
        f = z3.Function('str()', US, US)
        return U(f(ip.ctx.toU(v)), 'str')
    return native(str, a, k)


def b_bytes(ip, a, k):
    if not a:
        return b''
    v = a[0]
    if isinstance(v, SB):
        if v.isstr and len(a) < 2 and 'encoding' not in k:
            raise PyRaise(TypeError)
        return SB(list(v.items), False)
    if isinstance(v, U):
        if v.ty == 'bytes':
            return v
        if v.ty == 'str':
            return _encode(ip, v, [], {})
        f = z3.Function('bytes()', US, US)
        return U(f(v.t), 'bytes')
    if isinstance(v, list) and is_sym(v):
        return sb_norm([x if isinstance(x, int) else (z3.simplify(z3.Extract(7, 0, zext(x.t, 8))) if isinstance(x, BV) else x) for x in v])
    if is_sym(v):
        raise Unsupported('bytes of symbolic')
    return native(bytes, a, k)


def b_bytearray(ip, a, k):
    if not a:
        return SB([], False, True)
    v = a[0]
    if isinstance(v, SB):
        return SB(list(v.items), False, True)
    if isinstance(v, U):
        return v
    return native(bytearray, a, k)


def b_bool(ip, a, k):
    return wrapc(truth(ip, a[0])) if a else False


def b_min(ip, a, k, mx=False):
    if len(a) == 1:
        s = iterate(ip, a[0])
        if isinstance(s, It):
            r = ip.ctx.mk('int', 'minmax')
            return r
        a = list(s)
    if not is_sym(a) and not k:
        return native(max if mx else min, [a], {})
    if 'key' in k:
        raise Unsupported('min key')
    t = ip.ctx.int_t(a[0])
    for x in a[1:]:
        xt = ip.ctx.int_t(x)
        t = z3.If(xt > t, xt, t) if mx else z3.If(xt < t, xt, t)
    return I(t)


def b_max(ip, a, k):
    return b_min(ip, a, k, True)


def b_sum(ip, a, k):
    s = iterate(ip, a[0])
    if isinstance(s, It):
        h = ip.unit.models.get('sum')
        if h:
            return h(ip, s)
        raise Unsupported('sum symbolic')
    r = a[1] if len(a) > 1 else 0
    for x in s:
        r = binop(ip, 'Add', r, x)
    return r


def b_any(ip, a, k, all_=False):
    s = iterate(ip, a[0])
    if isinstance(s, It):
        j = ip.ctx.fresh('qa', INT)
        t = zb(truth(ip, s.get(j)))
        rng = z3.And(j >= 0, j < zi(s.n))
        return B(z3.ForAll([j], z3.Implies(rng, t)) if all_ else z3.Exists([j], z3.And(rng, t)))
    cs = [truth(ip, x) for x in s]
    return wrapc(and_(cs) if all_ else or_(cs))


def b_all(ip, a, k):
    return b_any(ip, a, k, True)


def b_hasattr(ip, a, k):
    o, n = a
    if isinstance(o, SB):
        return hasattr('' if o.isstr else b'', n)
    if isinstance(o, U):
        if o.ty in ('str', 'bytes'):
            return hasattr('' if o.ty == 'str' else b'', n)
        c = ip.unit.class_named(o.ty) if o.ty else None
        if c is not None:
            return hasattr(c, n)
        f = z3.Function('hasattr_' + n, US, BOOL)
        return B(f(o.t))
    if isinstance(o, HObj):
        return n in o.fields or n in o.schema or hasattr(o.cls, n)
    if isinstance(o, (I, BV)):
        return hasattr(0, n)
    if isinstance(o, L):
        return hasattr((), n) if o.tup else hasattr([], n)
    if isinstance(o, (S, D)):
        return hasattr(set() if isinstance(o, S) else {}, n)
    if isinstance(o, V):
        return False
    return hasattr(o, n)


def b_getattr(ip, a, k):
    try:
        return getattr_(ip, a[0], a[1])
    except PyRaise:
        if len(a) > 2:
            return a[2]
        raise


def b_sorted(ip, a, k):
    s = iterate(ip, a[0])
    if isinstance(s, It) or is_sym(list(s)):
        return sorted_sym(ip, a[0], k)
    return native(sorted, [list(s)], k)


def sorted_sym(ip, v, kw):
    """sorted() of a symbolic collection: a permutation; ascending when it holds ints and no key is given"""
    ctx = ip.ctx
    if isinstance(v, D):
        v = S(v.has, v.kk)
    if isinstance(v, S):
        v = s_list(ip, v)
    l = to_L(ip, v)
    n = zi(l.n)
    srt = sort_of(l.ek)
    b = ctx.fresh('sorted', z3.ArraySort(INT, srt))
    ctx.n += 1
    p, q = z3.Function(f'perm!{ctx.n}', INT, INT), z3.Function(f'pinv!{ctx.n}', INT, INT)
    k, j = ctx.fresh('k', INT), ctx.fresh('j', INT)
    rng_ = lambda x: z3.And(x >= 0, x < n)
    ctx.assume(z3.ForAll([k], z3.Implies(rng_(k), z3.And(rng_(p(k)), q(p(k)) == k, b[k] == l.a[p(k)])), patterns=[b[k]]))
    ctx.assume(z3.ForAll([k], z3.Implies(rng_(k), z3.And(rng_(q(k)), p(q(k)) == k, b[q(k)] == l.a[k])), patterns=[l.a[k]]))
    if l.ek in ('int', 'nat') and not kw.get('key'):
        o = (lambda x, y: x >= y) if kw.get('reverse') is True else (lambda x, y: x <= y)
        if kw.get('reverse') in (None, False, True):
            ctx.assume(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j, j < n), o(b[k], b[j]))))
    return L(n, b, l.ek, False, l.ecls)


def b_map(ip, a, k):
    s = iterate(ip, a[1])
    if isinstance(s, It):
        return It(s.n, lambda i: ip.call(a[0], [s.get(i)], {}))
    return [ip.call(a[0], [x], {}) for x in s]


def b_filter(ip, a, k):
    s = iterate(ip, a[1])
    if isinstance(s, It):
        raise Unsupported('filter symbolic')
    return [x for x in s if ip.ctx.branch(truth(ip, ip.call(a[0], [x], {}) if a[0] is not None else x))]


def b_abs(ip, a, k):
    if is_sym(a[0]):
        t = ip.ctx.int_t(a[0])
        return I(z3.If(t < 0, -t, t))
    return abs(a[0])


def b_iter(ip, a, k):
    return a[0]


def b_next(ip, a, k):
    s = iterate(ip, a[0])
    if isinstance(s, It):
        if ip.ctx.branch(zi(s.n) > 0):
            return s.get(z3.IntVal(0))
    elif s:
        return s[0]
    if len(a) > 1:
        return a[1]
    raise PyRaise(StopIteration)


def b_ord(ip, a, k):
    v = a[0]
    if isinstance(v, SB) and len(v.items) == 1:
        return v.items[0] if isinstance(v.items[0], int) else BV(v.items[0])
    return native(ord, a, k)


def b_from_bytes(ip, a, k):
    v = a[0]
    if isinstance(v, (SB, bytes, bytearray)):
        order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
        if order != 'big':
            v = SB(list(reversed(list(sb_items(v)))))
        return int_from_bytes(v)
    if isinstance(v, U):
        f = z3.Function('int.from_bytes', US, INT)
        ip.ctx.assume(f(v.t) >= 0)
        return I(f(v.t))
    return native(int.from_bytes, a, k)


def b_callable(ip, a, k):
    return callable(a[0]) or isinstance(a[0], (Fn, Meth))


def b_divmod(ip, a, k):
    return (binop(ip, 'FloorDiv', a[0], a[1]), binop(ip, 'Mod', a[0], a[1]))


def b_type(ip, a, k):
    v = a[0]
    if isinstance(v, HObj):
        return v.cls
    if not isinstance(v, V):
        return type(v)
    if isinstance(v, SB):
        return str if v.isstr else bytes
    if isinstance(v, (I, BV)):
        return int
    if isinstance(v, B):
        return bool
    if isinstance(v, L):
        return tuple if v.tup else list
    if isinstance(v, S):
        return set
    if isinstance(v, D):
        return dict
    if isinstance(v, U):
        if v.ty in ('str', 'bytes'):
            return str if v.ty == 'str' else bytes
        return U(z3.Function('typeof', US, US)(v.t))
    raise Unsupported('type()')


def b_id(ip, a, k):
    return id(a[0])


def b_dict(ip, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        elif isinstance(a[0], D):
            return a[0].copy()
        else:
            for kk, v in concrete_iter(ip, a[0]):
                d[kk] = v
    d.update(k)
    return d


def b_encode64(ip, a, k):
    v = a[0]
    if isinstance(v, SB):
        return sb_b64encode(ip, v)
    if isinstance(v, U):
        return uf_call(ip, 'encodeB64', [v], {}, 'bytes')
    return native(_b64.urlsafe_b64encode, a, k)


def b_decode64(ip, a, k):
    v = a[0]
    if isinstance(v, SB):
        return sb_b64decode(ip, v)
    if isinstance(v, U):
        return uf_call(ip, 'decodeB64', [v], {}, 'bytes')
    return native(_b64.urlsafe_b64decode, a, k)


def b_fraction(ip, a, k):
    if not is_sym(a):
        return native(Fraction, a, k)
    if len(a) == 1:
        if isinstance(a[0], (R, I)):
            return R(ip.ctx.real_t(a[0]))
        return opaque(ip, 'Fraction', a, k, kind='real')
    raise Unsupported('Fraction')


def b_ceil(ip, a, k, up=True):
    v = a[0]
    if isinstance(v, R):
        return I(-z3.ToInt(-v.t) if up else z3.ToInt(v.t))
    if isinstance(v, (I, BV)):
        return v
    if is_sym(v):
        raise Unsupported('ceil')
    return native(math.ceil if up else math.floor, a, k)


def b_floor(ip, a, k):
    return b_ceil(ip, a, k, False)


BUILTINS = {
    math.ceil: b_ceil, math.floor: b_floor,
    len: b_len, isinstance: b_isinstance, list: b_list, tuple: b_tuple, set: b_set, frozenset: b_set, range: b_range,
    enumerate: b_enumerate, zip: b_zip, reversed: b_reversed, int: b_int, str: b_str, bytes: b_bytes, bytearray: b_bytearray,
    memoryview: b_bytes, bool: b_bool, min: b_min, max: b_max, sum: b_sum, any: b_any, all: b_all, hasattr: b_hasattr,
    getattr: b_getattr, sorted: b_sorted, map: b_map, filter: b_filter, abs: b_abs, iter: b_iter, next: b_next, ord: b_ord,
    int.from_bytes: b_from_bytes, callable: b_callable, divmod: b_divmod, type: b_type, dict: b_dict, id: b_id,
    _b64.urlsafe_b64encode: b_encode64, _b64.urlsafe_b64decode: b_decode64, Fraction: b_fraction,
}
