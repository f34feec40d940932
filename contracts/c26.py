"""C26: HTTP signature headers round trip."""
import json
from types import SimpleNamespace
from .base import *
from . import kel
from .kel import b64, dig

F = 'src/keri/end/ending.py:'
FN = [F + x for x in ('signature', 'designature', 'normalize')]
FI = [F + x for x in ('siginput', 'desiginput', 'normalize')]
FV = ['src/keri/app/httping.py:SignatureValidationComponent.' + x for x in ('validate', 'process_request')] + [F + 'designature']
RESERVED = ('indexed', 'signer', 'ordinal', 'digest', 'kind')


def sig(rng):
    return bytes(rng.getrandbits(8) for _ in range(64))


def marker(m):
    from keri.core import coring, indexing
    from keri.core.coring import Verfer
    if m[0] == 's':
        return indexing.Siger(raw=m[2], index=m[1], code='A' if m[1] < 64 else '2A')
    return coring.Cigar(raw=m[2], code='0B', verfer=Verfer(qb64=kel.key(m[1]) if m[1] is not None else kel.key(0)))


def tag(rng, odd):
    if odd and rng.random() < .25:
        return rng.choice(list(RESERVED) + ['a b', 'a;b', 'a,b', 'a=b', 'a"b', '"a"', ' a', 'a\n', ''])
    return rng.choice(['wit0', 'wit1', 'sig0', '0', '1', '2', 'x', 'Indexed', 'kind2', 'é', kel.key(1), '?1'])


def field(rng, good, odd):
    if odd and rng.random() < .1:
        return rng.choice(['a b', 'a;b', 'a,b', '"', 'a"', 'x;indexed="?0"', 'x,y=z', ' a'])
    return rng.choice(good)


def signage(rng, odd):
    ix = rng.random() < .5
    n = rng.randint(1, 4) if rng.random() < .95 else 0
    mk = []
    for i in range(n):
        k = rng.random() < .05 if odd else False
        if ix ^ k:
            mk.append(('s', rng.choice([i, i, i, rng.randint(0, 90)]) if odd else i, sig(rng)))
        else:
            mk.append(('c', rng.choice([i, i, i, 0]) if odd else i, sig(rng)))
    tags = None
    if rng.random() < .4:
        tags = [tag(rng, odd) for _ in mk]
    return dict(markers=mk, tags=tags, indexed=rng.choice([None, ix, ix]) if n else ix,
                signer=field(rng, [None, None, '', dig('s'), 'group', 'a=b=='], odd),
                ordinal=field(rng, [None, None, '', '0', '1f'], odd),
                digest=field(rng, [None, None, dig('d')], odd),
                kind=field(rng, [None, None, 'CESR', 'CESR', 'JSON'], odd))


def gen(rng):
    odd = rng.random() < .5
    return [signage(rng, odd) for _ in range(rng.randint(1, 3))]


def lawful(s):
    """whether the header can carry this group so that it parses back to itself"""
    def ok(v, eq=True):
        return not any(c in ';,"' or c.isspace() or (eq and c == '=') for c in v)
    ix = s['indexed'] if s['indexed'] is not None else s['markers'][0][0] == 's'
    if any((m[0] == 's') != ix for m in s['markers']):
        return False
    labels = labels_of(s)
    return (all(ok(t) and t for t in labels) and len(set(labels)) == len(labels) and not set(labels) & set(RESERVED)
            and all(ok(s[k], False) for k in ('signer', 'ordinal', 'digest', 'kind') if s[k]))


def labels_of(s):
    if s['tags']:
        return list(dict.fromkeys(s['tags']))
    return [str(m[1]) if m[0] == 's' else kel.key(m[1]) for m in s['markers']]


def build(ending, s):
    mk = [marker(m) for m in s['markers']]
    if s['tags']:
        mk = dict(zip(s['tags'], mk))
    return ending.Signage(markers=mk, indexed=s['indexed'], signer=s['signer'], ordinal=s['ordinal'], digest=s['digest'], kind=s['kind'])


def check(case):
    from keri.end import ending
    try:
        hd = ending.signature([build(ending, s) for s in case])
    except Exception as e:
        need(not all(lawful(s) for s in case), f'building {case} fails: {e!r}')
        return None
    try:
        back = ending.designature(hd['Signature'])
    except Exception as e:
        raise Bad(f'the header {hd} does not parse: {e!r}')
    same(case, back, hd)
    # headers may be merged and spaced by servers
    back = ending.designature(', '.join(ending.signature([build(ending, s)])['Signature'].replace(';', '; ') for s in case))
    same(case, back, hd)
    return None


def same(case, back, hd):
    from keri.core import coring, indexing
    need(len(back) == len(case), f'{len(case)} groups parse back as {len(back)}: {hd}')
    for s, g in zip(case, back):
        ix = s['indexed'] if s['indexed'] is not None else s['markers'][0][0] == 's'
        mk = s['markers']
        if s['tags']:
            mk = list(dict(zip(s['tags'], mk)).values())
        need(g.indexed is ix, f'indexed {ix} parses back as {g.indexed}: {hd}')
        for k in ('signer', 'ordinal', 'digest'):
            need(getattr(g, k) == (s[k] or None), f'{k} {s[k]!r} parses back as {getattr(g, k)!r}: {hd}')
        need(g.kind == (s['kind'] or 'CESR'), f'kind {s["kind"]!r} parses back as {g.kind!r}: {hd}')
        need(list(g.markers) == labels_of(s), f'labels {labels_of(s)} parse back as {list(g.markers)}: {hd}')
        for m, x in zip(mk, g.markers.values()):
            want = marker(m).qb64
            if g.kind != 'CESR':
                need(x == want, f'{want} parses back as {x!r}')
                continue
            need(isinstance(x, indexing.Siger if ix else coring.Cigar), f'{want} parses back as {type(x)}: {hd}')
            need(x.qb64 == want and x.raw == m[2] and (not ix or x.index == m[1]), f'{want} parses back as {x.qb64}: {hd}')


# ------------------------------------------------------------ malformed
def gen_mal(rng):
    s = sig(rng)
    g = ['indexed="?1"', 'signer="%s"' % dig('s'), 'ordinal="1"', 'kind="CESR"', '0="%s"' % marker_b(0, s)]
    k = rng.randrange(12)
    if k == 0:
        g.pop(0)
    elif k == 1:
        g.append(g[rng.randrange(len(g))])
    elif k == 2:
        g.append('junk')
    elif k == 3:
        g[0] = 'indexed="%s"' % rng.choice(['?2', '', 'maybe', '1?', '??1', '?01'])
    elif k == 4:
        v = marker_b(0, s)
        g[4] = '0="%s"' % rng.choice([v[:-1], v + 'A', '', 'A' + v, v[:-4], v.replace(v[5], '!'), '#' + v[1:]])
    elif k == 5:
        g.append('')
    elif k == 6:
        g = ['']
    elif k == 7:
        g.append('="x"')
    elif k == 8:
        g.append('0="%s"' % marker_b(0, sig(rng)))
    elif k == 9:
        g.append('signer="%s"' % dig('t'))
    elif k == 10:
        i = rng.randrange(5)
        g[i] = rng.choice([g[i][:-1], g[i].replace('="', '='), g[i] + '"', g[i][:-2] + '"x"'])
    else:
        g[0] = 'indexed="?0"'
    body = ';'.join(g)
    if rng.random() < .4:
        ok = 'indexed="?1";0="%s"' % marker_b(0, s)
        body = rng.choice([ok + ',' + body, body + ',' + ok])
    elif rng.random() < .1:
        body = 'indexed="?1";0="%s"' % marker_b(0, s) + rng.choice([',', ',,', ';', ',;'])
    return body


def marker_b(index, raw):
    from keri.core import indexing
    return indexing.Siger(raw=raw, index=index).qb64


def check_mal(case):
    from keri.end import ending
    try:
        got = ending.designature(case)
    except Exception:
        return None
    raise Bad(f'the malformed header {case!r} is read as {got}')


# ------------------------------------------------------------ signature input
def gen_in(rng):
    from_ = ['Signify-Resource', '@method', '@path', 'Signify-Timestamp', 'content-type', 'absent', '@other', 'X"Y']
    odd = rng.random() < .3
    w = (lambda: rng.choice(['a"b', 'a\\b', 'a b', 'é', 'a\nb', 'x;y="z"', ''])) if odd else (lambda: rng.choice(['ed25519', 'ab;c', dig('k'), 'a,b']))
    p = {k: w() for k in ('nonce', 'alg', 'keyid', 'context') if rng.random() < .5}
    if rng.random() < .5:
        p['expires'] = rng.choice([1700000000, '2026-01-01T00:00:00.000000+00:00', 0])
    return dict(name=rng.choice(['sig0', 'sig1', 'a', 'a.b-c_d*']) if not odd else rng.choice(['sig0', 'Sig0', '0sig', 'a b', 'é', '']),
                method=rng.choice(['GET', 'POST']), path=rng.choice(['/', '/signify', '/a b?c="d"']),
                fields=[rng.choice(from_) for _ in range(rng.randint(0, 5))], params=p, n=rng.randint(1, 2),
                headers={'signify-resource': ' ' * rng.randint(0, 2) + dig('r'), 'signify-timestamp': '2026', 'content-type': 'application/json '})


def check_in(case):
    from keri.end import ending
    from keri.help import helping
    from keri.core import signing, coring
    import datetime
    now = datetime.datetime(2026, 1, 2, 3, 4, 5, 600000, tzinfo=datetime.timezone.utc)
    old = helping.nowUTC
    helping.nowUTC = lambda: now
    try:
        signers = [signing.Signer(raw=kel.seed(i)) for i in range(case['n'])]
        try:
            hd, cig = ending.siginput(case['name'], case['method'], case['path'], case['headers'], case['fields'], signers=signers, **case['params'])
        except Exception as e:
            import re
            ok = re.fullmatch('[a-z*][a-z0-9_.*-]*', case['name']) and all(
                not isinstance(v, str) or all(32 <= ord(c) <= 126 for c in v) for v in case['params'].values())
            need(not ok, f'building fails: {e!r}')
            return None
    finally:
        helping.nowUTC = old
    fields = [f if f.startswith('@') else f.lower() for f in case['fields'] if f in ('@method', '@path') or (not f.startswith('@') and f.lower() in case['headers'])]
    got = ending.desiginput(hd['Signature-Input'].encode())
    need(len(got) == 1, f'{hd} parses as {got}')
    g = got[0]
    need(g.name == case['name'] and g.fields == fields and g.created == int(now.timestamp()), f'{hd} parses as {g}, not {case["name"]} {fields}')
    for k in ('expires', 'nonce', 'alg', 'keyid', 'context'):
        need(getattr(g, k) == case['params'].get(k), f'{k} {case["params"].get(k)!r} parses back as {getattr(g, k)!r}')
    # the signature is over the base a verifier builds from the parsed input
    lines = []
    for f in g.fields:
        lines.append(f'"{f}": ' + (case['method'] if f == '@method' else case['path'] if f == '@path' else case['headers'][f].strip()))
    vals = ['(' + ' '.join(g.fields) + ')', f'created={g.created}'] + [
        f'{k}={getattr(g, k)}' for k in ('expires', 'nonce', 'keyid', 'context', 'alg') if getattr(g, k) is not None]
    lines.append('"@signature-params: ' + ';'.join(vals) + '"')
    need(coring.Verfer(qb64=kel.key(0)).verify(cig.raw, '\n'.join(lines).encode()), f'the signature is not over the base of {hd}')
    two = ending.desiginput((hd['Signature-Input'] + ', zz=("@path");created=1;alg="x"').encode())
    need(two[0] == g and two[1] == ending.Inputage(name='zz', fields=['@path'], created=1, keyid=None, alg='x', expires=None, nonce=None, context=None), f'merged inputs parse as {two}')
    return None


def gen_inmal(rng):
    ok = 'sig0=("@method" "@path");created=1609459200;alg="ed25519"'
    return rng.choice([ok.replace(';created=1609459200', ''), ok[:-1], ok + ',', ok + ' x', ok.replace('sig0', 'Sig0'), ok.replace('sig0', ''),
                       ok.replace('(', ''), ok.replace(')', ''), ok.replace('@method', '@me\u00e9'), ok.replace('"@path"', '"@path'), 'sig0=("@path")',
                       'sig0', 'sig0=5;created=1', '=', ok.replace('created=', 'created'), ok + ';created=', ok + ',sig1=("a")', ok.replace('" "', '""'),
                       ok.replace('created=1609459200', 'created="x', 1)])


def check_inmal(case):
    from keri.end import ending
    try:
        got = ending.desiginput(case.encode())
    except Exception:
        return None
    raise Bad(f'the malformed header {case!r} is read as {got}')


# ------------------------------------------------------------ validation of a signed request
def gen_val(rng):
    n = rng.randint(1, 3)
    body = {'a': rng.randint(0, 9), 'b': 'x'}
    by = [rng.choice([i, i, i, i, 7]) for i in range(n)]
    over = [rng.random() < .9 for _ in range(n)]
    return dict(n=n, body=body, by=by, over=over, drop=rng.choice([None, None, None, rng.randrange(n)]), swap=rng.random() < .1,
                known=rng.random() < .9, odd=rng.choice([None] * 6 + ['none', 'junk', 'empty', 'json', 'cigars']))


def check_val(case):
    from keri.app import httping
    from keri.core import coring, indexing
    import pysodium
    ser = json.dumps(case['body']).encode()
    mk = {}
    good = case['known'] and case['odd'] is None and not (case['swap'] and case['n'] > 1)
    for i in range(case['n']):
        if i == case['drop']:
            good = False
            continue
        raw = kel.sign(case['by'][i], ser if case['over'][i] else ser + b' ')
        good = good and case['by'][i] == i and case['over'][i]
        mk[str(i)] = indexing.Siger(raw=raw, index=i).qb64 if case['odd'] != 'cigars' else coring.Cigar(raw=raw, code='0B').qb64
    if case['swap'] and case['n'] > 1 and len(mk) > 1:
        k = list(mk)
        mk[k[0]], mk[k[1]] = mk[k[1]], mk[k[0]]
    if case['odd'] == 'cigars':
        good = None
    hd = 'indexed="?%d";signer="x"' % (case['odd'] != 'cigars') + ''.join(f';{k}="{v}"' for k, v in mk.items())
    if case['odd'] == 'none':
        hd = None
    elif case['odd'] == 'junk':
        hd = 'junk'
    elif case['odd'] == 'empty':
        hd = ''
    elif case['odd'] == 'json':
        hd += ';kind="JSON"'
    kever = SimpleNamespace(verfers=[coring.Verfer(qb64=kel.key(i)) for i in range(case['n'])])
    pre = dig('p')
    comp = httping.SignatureValidationComponent(hby=SimpleNamespace(kevers={pre: kever} if case['known'] else {}), pre=pre)
    resp = SimpleNamespace(complete=False, status='200')
    req = SimpleNamespace(headers={'SIGNATURE': hd} if hd is not None else {}, media=case['body'])
    try:
        comp.process_request(req, resp)
        went = not resp.complete
    except Exception as e:
        went = False
        need(not good, f'a request signed by every current key fails with {e!r}')
    if good is not None:
        need(went == bool(good), f'a request signed as {case} is {"let through" if went else "refused"}')
    return None


def units():
    return []


GROUPS = [
    Group('headers', gen, check, 1500, FN, 'up to 3 groups of up to 4 signatures, tags and fields including ones the header cannot carry'),
    Group('malformed', gen_mal, check_mal, 800, FN, 'headers with one fault'),
    Group('inputs', gen_in, check_in, 800, FI, 'up to 5 fields and all optional parameters'),
    Group('malformed-inputs', gen_inmal, check_inmal, 150, FI, '19 kinds of fault'),
    Group('requests', gen_val, check_val, 600, FV, 'requests signed for identifiers of up to 3 keys'),
]
ASSUMPTIONS = ['http_sfv (RFC 8941) and falcon are replaced by stand-ins when the executable contracts run',
               'an absent signer, ordinal, digest or kind and an empty one are the same; spaces are not significant in a Signature header']
RULE = 'what a built header parses back to is what it was built from, or building refuses it; malformed headers are refused'
