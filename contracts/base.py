"""Shared parts of the contract modules: executable-contract groups, case encoding, trusted base."""
import base64
from fractions import Fraction

COMMON_ASSUMPTIONS = [
    'the VC generator in /verif/vc implements the semantics of the Python subset it accepts (cross-checked against CPython by the executable contracts)',
    'ints are mathematical integers; floats, where they occur, are treated as exact rationals',
    'logging, printing and the arguments of raised exceptions have no effect',
    'the third party packages are replaced by the pure Python stand-ins in /verif/shims when the executable contracts run',
]
TRUSTED = ['z3 5.3.2', 'cvc5 1.1.2', 'CPython ast module', '/verif/vc (VC generator)', '/verif/shims (stand-ins for lmdb, pysodium, blake3, cbor2, '
           'msgpack, hio, ... used by the executable contracts only)', 'collision resistance of digests and unforgeability of signatures']


class Skip(Exception):
    """case outside the precondition"""


class Bad(Exception):
    """executable contract violated"""


class Group:
    """executable contract on the real code: gen(rng) -> case, check(case) -> None | message"""

    def __init__(self, name, gen, check, n=300, functions=(), bound='', fixed=None, nontrivial=None, chunks=2):
        self.name = name
        self.gen = gen
        self.check = check
        self.n = n
        self.functions = list(functions)
        self.bound = bound or f'{n} generated cases per quick run, 12 times that in the thorough run'
        self._fixed = fixed or []
        self.nontrivial = nontrivial or (lambda c: True)
        self.chunks = chunks

    def fixed(self):
        f = self._fixed
        return list(f() if callable(f) else f)


def encode(o):
    if isinstance(o, bytes):
        return {'__b': o.hex()}
    if isinstance(o, tuple):
        return {'__t': [encode(x) for x in o]}
    if isinstance(o, list):
        return [encode(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return {'__s': [encode(x) for x in sorted(o, key=repr)]}
    if isinstance(o, Fraction):
        return {'__f': [o.numerator, o.denominator]}
    if isinstance(o, dict):
        return {'__d': [[encode(k), encode(v)] for k, v in o.items()]}
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    return {'__r': repr(o)}


def decode(o):
    if isinstance(o, list):
        return [decode(x) for x in o]
    if isinstance(o, dict):
        if '__b' in o:
            return bytes.fromhex(o['__b'])
        if '__t' in o:
            return tuple(decode(x) for x in o['__t'])
        if '__s' in o:
            return set(decode(x) for x in o['__s'])
        if '__f' in o:
            return Fraction(*o['__f'])
        if '__d' in o:
            return {decode(k): decode(v) for k, v in o['__d']}
        return o
    return o


def need(c, msg):
    if not c:
        raise Bad(msg)


def raises(exc, f, *a, **k):
    """True when f raises exc (subclass); False when it returns"""
    try:
        f(*a, **k)
    except exc:
        return True
    return False
