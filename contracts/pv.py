"""Helpers shared by proof units."""
import types
import z3
from vc.engine import *
from vc import ops
from vc.unit import Unit, load_classes

J, K, M = z3.Int('j?'), z3.Int('k?'), z3.Int('m?')
X, Y = z3.Const('x?', US), z3.Const('y?', US)


def sel(l, k):
    return z3.Select(l.a, k)


def rng(k, n, lo=0):
    return z3.And(k >= lo, k < n)


def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    return z3.ForAll(list(vs), body, patterns=pats) if pats else z3.ForAll(list(vs), body)


def body_of(fn, suffix='$body'):
    """the same code object under another qualified name, so that a contract attached to fn applies to its recursive calls only"""
    g = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__ + suffix, fn.__defaults__, fn.__closure__)
    g.__kwdefaults__ = fn.__kwdefaults__
    g.__qualname__ = fn.__qualname__ + suffix
    g.__module__ = fn.__module__
    return g


def has(d, k):
    return z3.Select(d.has, k)


def val(d, k):
    return z3.Select(d.val, k)


def ret(out):
    return out[0] == 'return'


def bt(ip, v):
    """z3 Bool of a Python truth value"""
    t = ops.truth(ip, v)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def record(ip, args, kw, cls):
    """construction of a plain dataclass: its fields are what is given, or the defaults"""
    import dataclasses
    fs = dataclasses.fields(cls)
    o = HObj(cls, cls.__name__, {})
    vals = dict(zip([f.name for f in fs], args))
    vals.update(kw)
    for f in fs:
        if f.name not in vals:
            if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING:
                raise PyRaise(TypeError)
            vals[f.name] = f.default if f.default is not dataclasses.MISSING else f.default_factory()
        o.fields[f.name] = vals[f.name]
    return o
