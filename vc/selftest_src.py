"""Small functions the VC generator is tried on (see selftest.py)."""


class Box:
    def __init__(self):
        self.n = 0
        self.dirty = False
        self.d = {}

    def bump(self):
        self.n += 1
        self.dirty = True


def heap_loop(box, xs):
    for x in xs:
        box.bump()
    return box.n


def alias_loop(d, xs):
    e = d
    for x in xs:
        e[x] = x
    return len(xs)


def nested(box, xs, ys):
    for x in xs:
        for y in ys:
            box.dirty = True
    return box.dirty


def maxi(xs):
    m = xs[0]
    for x in xs:
        if x > m:
            m = x
    return m


def count_while(n):
    i = 0
    while i < n:
        i += 1
    return i


def dedup(xs):
    seen = set()
    out = []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def clamp(a, lo, hi):
    if a < lo:
        return lo
    if a > hi:
        return hi
    return a


def swallow(f, x):
    try:
        return f(x)
    except ValueError:
        return None


def gen(xs, k):
    for x in xs:
        if x >= k:
            yield x


def all_ge(xs, k):
    return all(x >= k for x in xs)



def heads(xss):
    return [list(reversed(xs))[0] for xs in xss]
