"""Stand-in for http_sfv: RFC 8941 dictionaries of items and inner lists (no dates or display strings)."""
import base64
import re

_KEY = re.compile(rb'[a-z*][a-z0-9_.*-]*')
_TOK = re.compile(rb"[A-Za-z*][A-Za-z0-9!#$%&'*+.^_`|~:/-]*")
_NUM = re.compile(rb'-?[0-9]+(\.[0-9]+)?')
_BIN = re.compile(rb':([A-Za-z0-9+/=]*):')


class Token(str):
    pass


def _serkey(k):
    if not _KEY.fullmatch(k.encode('ascii')):
        raise ValueError(f'bad key {k!r}')
    return k


def _serbare(v):
    if isinstance(v, bool):
        return '?1' if v else '?0'
    if isinstance(v, int):
        if not -999999999999999 <= v <= 999999999999999:
            raise ValueError('integer out of range')
        return str(v)
    if isinstance(v, float):
        return repr(round(v, 3))
    if isinstance(v, Token):
        if not _TOK.fullmatch(v.encode('ascii')):
            raise ValueError(f'bad token {v!r}')
        return str(v)
    if isinstance(v, str):
        if any(ord(c) < 32 or ord(c) > 126 for c in v):
            raise ValueError('string contains disallowed characters')
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, bytes):
        return ':' + base64.b64encode(v).decode() + ':'
    raise ValueError(f"can't serialise {v!r}")


class Params(dict):
    def __str__(self):
        return ''.join(';' + _serkey(k) + ('' if v is True else '=' + _serbare(v)) for k, v in self.items())


class Item:
    def __init__(self, value=None):
        self.value = value
        self.params = Params()

    def __str__(self):
        return _serbare(self.value) + str(self.params)


class InnerList(list):
    def __init__(self, vals=()):
        super().__init__(v if isinstance(v, Item) else Item(v) for v in vals)
        self.params = Params()

    def __str__(self):
        return '(' + ' '.join(str(v) for v in self) + ')' + str(self.params)


class _P:
    def __init__(self, b):
        self.b = b
        self.i = 0

    def peek(self):
        return self.b[self.i:self.i + 1]

    def eat(self, c):
        if self.peek() != c:
            raise ValueError(f'expected {c!r} at {self.i}')
        self.i += 1

    def sp(self, chars=b' '):
        while self.peek() and self.peek() in chars:
            self.i += 1

    def rx(self, r, what):
        m = r.match(self.b, self.i)
        if not m:
            raise ValueError(f'expected {what} at {self.i}')
        self.i = m.end()
        return m

    def bare(self):
        c = self.peek()
        if c == b'"':
            self.i += 1
            out = b''
            while True:
                c = self.peek()
                self.i += 1
                if not c:
                    raise ValueError('unterminated string')
                if c == b'\\':
                    c = self.peek()
                    self.i += 1
                    if c not in (b'"', b'\\'):
                        raise ValueError('bad escape')
                    out += c
                elif c == b'"':
                    return out.decode('ascii')
                elif c[0] < 32 or c[0] > 126:
                    raise ValueError('bad character in string')
                else:
                    out += c
        if c == b'?':
            self.i += 1
            c = self.peek()
            self.i += 1
            if c not in (b'0', b'1'):
                raise ValueError('bad boolean')
            return c == b'1'
        if c == b':':
            return base64.b64decode(self.rx(_BIN, 'bytes').group(1))
        if c == b'-' or c.isdigit():
            s = self.rx(_NUM, 'number').group()
            if len(s.strip(b'-').split(b'.')[0]) > (12 if b'.' in s else 15):
                raise ValueError('number too long')
            return float(s) if b'.' in s else int(s)
        return Token(self.rx(_TOK, 'token').group().decode())

    def params(self):
        out = Params()
        while self.peek() == b';':
            self.i += 1
            self.sp()
            k = self.rx(_KEY, 'key').group().decode()
            v = True
            if self.peek() == b'=':
                self.i += 1
                v = self.bare()
            out.pop(k, None)
            out[k] = v
        return out

    def item(self):
        it = Item(self.bare())
        it.params = self.params()
        return it

    def member(self):
        if self.peek() != b'(':
            return self.item()
        self.i += 1
        out = InnerList()
        while True:
            self.sp()
            if self.peek() == b')':
                self.i += 1
                out.params = self.params()
                return out
            out.append(self.item())
            if self.peek() not in (b' ', b')'):
                raise ValueError('bad inner list')


class Dictionary(dict):
    def __setitem__(self, k, v):
        if not isinstance(v, (Item, InnerList)):
            v = InnerList(v) if isinstance(v, (list, tuple)) else Item(v)
        super().__setitem__(k, v)

    def parse(self, data):
        p = _P(bytes(data))
        p.sp()
        while p.i < len(p.b):
            k = p.rx(_KEY, 'key').group().decode()
            if p.peek() == b'=':
                p.i += 1
                v = p.member()
            else:
                v = Item(True)
                v.params = p.params()
            self.pop(k, None)
            self[k] = v
            p.sp(b' \t')
            if p.i >= len(p.b):
                return
            p.eat(b',')
            p.sp(b' \t')
            if p.i >= len(p.b):
                raise ValueError('trailing comma')

    def __str__(self):
        if not self:
            raise ValueError('no contents')
        return ', '.join(_serkey(k) + (str(v.params) if isinstance(v, Item) and v.value is True else '=' + str(v)) for k, v in self.items())
