"""C25: the specification example checker and tagger."""
import contextlib
import copy
import importlib.util
import io
import json
import os
import tempfile
from .base import *

REPO = os.environ.get('VERIF_REPO', '/repo')
_M = {}


def mod(name):
    if name not in _M:
        sp = importlib.util.spec_from_file_location(name, f'{REPO}/tools/{name}.py')
        m = importlib.util.module_from_spec(sp)
        import sys
        sys.modules[name] = m
        sp.loader.exec_module(m)
        _M[name] = m
    return _M[name]


def run(m, argv):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = m.main(argv)
        except SystemExit as e:
            code = e.code
        except Exception as e:          # an interpreter exits with status 1
            code = 1
            err.write(f'{type(e).__name__}: {e}')
    return code, out.getvalue(), err.getvalue()


# ---- values
def gen_val(rng, d=0, js=True):
    k = rng.random()
    if d > 3 or k < .5:
        return rng.choice([0, 1, -1, 7, 2.5, 1.0, True, False, None, '', 'a', 'b', 'é', '0', 'E' + 'x' * 4, 10 ** 20])
    if k < .78:
        return {rng.choice(['v', 'd', 'i', 'a', 'e', 'r', '', 'd.i', 'kk']): gen_val(rng, d + 1, js) for _ in range(rng.randint(0, 4))}
    return [gen_val(rng, d + 1, js) for _ in range(rng.randint(0, 4))]


def gen_dict(rng):
    v = gen_val(rng)
    while not isinstance(v, dict):
        v = {rng.choice('vdia'): gen_val(rng, 1) for _ in range(rng.randint(0, 4))}
    return v


def paths(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))


def at(v, p):
    for k in p:
        v = v[k]
    return v


def mutate(rng, v, py):
    v = copy.deepcopy(v)
    p = rng.choice(list(paths(v)))
    cur = at(v, p)
    opts = ['leaf', 'type', 'none']
    if isinstance(cur, dict):
        opts += ['addkey', 'delkey', 'rekey'] * 2
    if isinstance(cur, list):
        opts += ['append', 'droplast', 'swap', 'tuple'] * 2
    if isinstance(cur, (int, float)):
        opts += ['num'] * 3
    o = rng.choice(opts)
    if o == 'leaf':
        new = gen_val(rng, 4)
    elif o == 'type':
        new = str(cur) if not isinstance(cur, str) else [cur]
    elif o == 'none':
        new = None
    elif o == 'addkey':
        new = dict(cur)
        new[rng.choice(['zz', 'v', 'n.w']) if not py or rng.random() < .7 else rng.choice([1, (1, 2), True])] = rng.choice([None, 1, ''])
    elif o == 'delkey':
        new = dict(cur)
        if new:
            new.pop(rng.choice(list(new)))
    elif o == 'rekey':
        new = {}
        for i, (k, x) in enumerate(cur.items()):
            new[k if i else 'rk'] = x
    elif o == 'append':
        new = list(cur) + [rng.choice([None, 0, cur[-1] if cur else 1])]
    elif o == 'droplast':
        new = cur[:-1]
    elif o == 'swap':
        new = list(cur)
        if len(new) > 1:
            new[0], new[-1] = new[-1], new[0]
    elif o == 'tuple':
        new = tuple(cur) if py else list(cur)
    else:
        new = rng.choice([float(cur) if abs(cur) < 1e9 else cur, bool(cur), cur + 1, -cur, cur])
    if not p:
        return new
    at(v, p[:-1])[p[-1]] = new
    return v


# a document is a list of pieces: ('prose', text) | ('ex', name|None, lang, body, style)
def render(pieces):
    out = []
    for p in pieces:
        if p[0] == 'prose':
            out.append(p[1] + '\n')
            continue
        _, name, lang, body, st = p
        s = ''
        if name is not None:
            s += ['<!-- example: %s -->', '<!--example:%s-->', '<!--  example:   %s   -->', '  <!-- example: %s -->  ', '<!-- EXAMPLE: %s -->'][st[0]] % name + '\n' + '\n' * st[1]
        fence = lang if st[2] < 2 else lang.upper()
        s += '```' + ('' if st[2] == 0 else ' ') + fence + '\n' + body + '\n' + ('' if st[3] == 0 else '  ') + '```\n' + '\n' * st[4]
        out.append(s)
    return ''.join(out)


def body(rng, lang, v):
    if lang == 'json':
        return json.dumps(v, indent=rng.choice([None, 1, 4]), sort_keys=rng.random() < .3, ensure_ascii=rng.random() < .5)
    return repr(v)


def style(rng, tag=False):
    return (rng.choice([0, 0, 1, 2, 3]) if tag else rng.randrange(5), rng.randint(0, 2), rng.randrange(3), rng.randrange(2), rng.randint(0, 2))


PROSE = ['# Title', 'text with `code` and 1 < 2', '<!-- a comment -->', '', '```\nplain {"a":1}\n```', '```yaml\na: 1\n```', 'see <!-- note: x --> here', '* item']
BAD = {'json': ['{', "{'a': 1}", '{"a": 1,}', '', '{"a": tru}', '[1 2]'], 'python': ['{', '{"a": x}', 'f()', '{"a": true}', '', '{[]: 1}', '1 +']}


def name_(rng, i):
    return f'ex{"ABCDEFGH"[i]}{rng.choice(["Compact", "_expanded", " with space", "-1.2"])}q'


def gen_check(rng):
    n = rng.randint(0, 5)
    names = [name_(rng, i) for i in range(n)]
    man = {x: (gen_dict(rng) if rng.random() < .9 else gen_val(rng)) for x in names}
    ex = []
    for x in names:
        if rng.random() < .1:
            continue
        lang = rng.choice(['json', 'python'])
        v = man[x]
        if rng.random() < .3:
            v = mutate(rng, v, lang == 'python')
        ex.append((x, lang, v))
    rng.shuffle(ex)
    if rng.random() < .12:
        ex.append(('exZextra', 'json', gen_dict(rng)))
    if ex and rng.random() < .12:
        x, lang, v = rng.choice(ex)
        ex.insert(rng.randint(0, len(ex)), (x, lang, v if rng.random() < .5 else gen_dict(rng)))
    pieces = []
    for x, lang, v in ex:
        if rng.random() < .5:
            pieces.append(('prose', rng.choice(PROSE)))
        if rng.random() < .07:
            pieces.append(('ex', x, lang, rng.choice(BAD[lang]), style(rng)))
        else:
            if lang == 'json' and has_py(v):
                lang = 'python'
            pieces.append(('ex', x, lang, body(rng, lang, v), style(rng)))
        if rng.random() < .2:
            pieces.append(('ex', None, 'json', '{"untagged": 1}', style(rng)))
    return man, pieces, rng.random() < .2


def has_py(v):
    if isinstance(v, tuple):
        return True
    if isinstance(v, dict):
        return any(not isinstance(k, str) or has_py(x) for k, x in v.items())
    return isinstance(v, list) and any(has_py(x) for x in v)


def parse(lang, b):
    import ast
    return json.loads(b) if lang == 'json' else ast.literal_eval(b)


def problems(man, pieces):
    """names that must be reported, by independent evaluation of the pieces"""
    bad = set()
    seen = {}
    for p in pieces:
        if p[0] != 'ex' or p[1] is None:
            continue
        _, name, lang, b, _ = p
        try:
            v = parse(lang, b)
        except Exception:
            bad.add(name)
            continue
        if name in seen:
            bad.add(name)
            continue
        seen[name] = v
    for x in man:
        if x not in seen or not (seen[x] == man[x]):
            bad.add(x)
    return bad | (set(seen) - set(man))


def check_check(c):
    man, pieces, crlf = c
    m = mod('check_spec_examples')
    bad = problems(man, pieces)
    text = render(pieces)
    d = tempfile.mkdtemp()
    try:
        with open(d + '/m.json', 'w') as f:
            json.dump(man, f)
        with open(d + '/s.md', 'w', encoding='utf-8', newline='') as f:
            f.write(text.replace('\n', '\r\n') if crlf else text)
        code, out, err = run(m, ['--manifest', d + '/m.json', '--spec', d + '/s.md'])
    finally:
        import shutil
        shutil.rmtree(d)
    if not bad:
        need(code == 0, f'exit status {code} although every example agrees: {out[:400]} {err[:300]}')
    else:
        need(code not in (0, None), f'success reported although {sorted(bad)} disagree')
        for x in bad:
            need(x in out + err, f'{x} disagrees but is not named in the report: {out[:600]} {err[:300]}')
        for x in set(man) - bad:
            need(x not in out + err, f'{x} agrees but is reported: {out[:600]}')
    return None


def gen_args(rng):
    return rng.choice(['nomanifest', 'nospec', 'badjson', 'listmanifest', 'empty'])


def check_args(k):
    m = mod('check_spec_examples')
    d = tempfile.mkdtemp()
    try:
        with open(d + '/m.json', 'w') as f:
            f.write({'badjson': '{', 'listmanifest': '[]'}.get(k, '{}'))
        with open(d + '/s.md', 'w') as f:
            f.write('x\n')
        if k == 'nomanifest':
            os.remove(d + '/m.json')
        if k == 'nospec':
            os.remove(d + '/s.md')
        code, out, err = run(m, ['--manifest', d + '/m.json', '--spec', d + '/s.md'])
    finally:
        import shutil
        shutil.rmtree(d)
    need((code == 0) == (k == 'empty'), f'{k}: exit status {code}')


# ---- tagger
def gen_tag(rng):
    n = rng.randint(1, 5)
    names = [name_(rng, i) for i in range(n)]
    man = {x: (gen_dict(rng) if rng.random() < .9 else gen_val(rng)) for x in names}
    if n > 1 and rng.random() < .2:
        man[names[1]] = copy.deepcopy(man[names[0]])
    pieces = []
    for _ in range(rng.randint(0, 7)):
        k = rng.random()
        if k < .3:
            pieces.append(('prose', rng.choice(PROSE)))
            continue
        x = rng.choice(names)
        lang = rng.choice(['json', 'python'])
        v = man[x] if rng.random() < .8 else mutate(rng, man[x], lang == 'python')
        if lang == 'json' and has_py(v):
            lang = 'python'
        b = body(rng, lang, v) if rng.random() < .93 else rng.choice(BAD[lang])
        pieces.append(('ex', x if rng.random() < .25 else None, lang, b, style(rng, True)))
    return man, pieces, rng.random() < .15


def want_tags(man, pieces):
    """for each untagged example, the name it must be tagged with or None"""
    used = {p[1] for p in pieces if p[0] == 'ex' and p[1] is not None}
    out = {}
    for i, p in enumerate(pieces):
        if p[0] != 'ex' or p[1] is not None:
            continue
        try:
            v = parse(p[2], p[3])
        except Exception:
            continue
        if not isinstance(v, dict):
            continue
        ms = [x for x, y in man.items() if isinstance(y, dict) and y == v]
        if len(ms) == 1 and ms[0] not in used:
            used.add(ms[0])
            out[i] = ms[0]
    return out


def check_tag(c):
    man, pieces, dry = c
    m = mod('tag_spec_examples')
    text = render(pieces)
    want = want_tags(man, pieces)
    exp = ''.join((f'<!-- example: {want[i]} -->\n' if i in want else '') + render([p]) for i, p in enumerate(pieces))
    d = tempfile.mkdtemp()
    try:
        with open(d + '/m.json', 'w') as f:
            json.dump(man, f)
        with open(d + '/s.md', 'w', encoding='utf-8') as f:
            f.write(text)
        argv = ['--manifest', d + '/m.json', '--spec', d + '/s.md']
        code, out, err = run(m, argv + (['--dry-run'] if dry else []))
        with open(d + '/s.md', encoding='utf-8') as f:
            got = f.read()
        need(code == 0, f'exit status {code} {err[:300]}')
        if dry:
            need(got == text, 'a dry run changed the document')
        else:
            need(got == exp, f'document became {got!r} instead of {exp!r}')
            code, out2, err = run(m, argv)
            with open(d + '/s.md', encoding='utf-8') as f:
                again = f.read()
            need(again == got, f'second run changed the document again: {again!r}')
        for x in want.values():
            need(x in out, f'{x} tagged but not listed')
    finally:
        import shutil
        shutil.rmtree(d)
    nt, tagged, warn = m.tag(man, text)
    need(nt == exp and sorted(tagged) == sorted(want.values()), f'tag() gave {nt!r}, {tagged}')


T = 'tools/check_spec_examples.py:'
G = 'tools/tag_spec_examples.py:'
GROUPS = [
    Group('checker', gen_check, check_check, n=6000, functions=[T + x for x in ('_load_block_body', 'parse_spec_blocks', '_diff_paths', 'compare', 'main')],
          nontrivial=lambda c: bool(c[1]), chunks=4, bound='manifests of up to 5 blocks nested 4 deep, documents assembled from tagged, untagged and prose pieces'),
    Group('checker_inputs', gen_args, check_args, n=20, functions=[T + 'main'], chunks=1),
    Group('tagger', gen_tag, check_tag, n=4000, functions=[G + x for x in ('find_blocks', 'already_tagged', 'tag', 'main')], nontrivial=lambda c: bool(c[1]), chunks=4),
]
ASSUMPTIONS = ['block names are non-empty, do not start with "-" and do not contain ">"; documents for the tagger have Unix line ends']


def units():
    from .pv import J, X, sel, rng, forall, body_of, has, val, Unit, ops, bt, z3, US, BOOL, L, D, U, B
    m = mod('check_spec_examples')
    VE = z3.Function('value_equal', US, US, BOOL)
    out = []
    st = {}

    def diffs(ip, args, kw, f):
        """contract of _diff_paths: yields nothing exactly when the two values are equal"""
        l = ip.ctx.mk('list:U', 'diffs')
        ip.ctx.assume((ops.zi(l.n) == 0) == VE(ip.ctx.term(args[0], 'U'), ip.ctx.term(args[1], 'U')))
        return l

    def s_cmp(ip):
        st['m'], st['s'] = ip.ctx.mk('dict:U:U', 'manifest'), ip.ctx.mk('dict:U:U', 'spec')
        return m.compare, [st['m'], st['s']], {}

    def line_names(lv):
        return []

    def inv_cmp(lv):
        r, mm = lv.var('report'), lv.var('mismatches')
        o = []
        if mm is not None and 'mismatches' in lv.names and lv.seq is not None:
            t = lv.ctx.int_t(mm)
            e = lambda k: VE(val(st['m'], sel_(lv, k)), val(st['s'], sel_(lv, k)))
            o.append(('mism', z3.And(t >= 0, (t == 0) == forall(J, z3.Implies(rng(J, lv.i), e(J))))))
        return o

    def sel_(lv, k):
        return lv.ctx.term(lv.elem(k), 'U')

    def p_cmp(ip, o):
        ok = bt(ip, o[1][0])
        mm, ss = st['m'], st['s']
        allsame = forall(X, z3.And(has(mm, X) == has(ss, X), z3.Implies(has(mm, X), VE(val(mm, X), val(ss, X)))))
        ip.ctx.prove('ok_only_if_equal', z3.Implies(ok, allsame))
        ip.ctx.prove('ok_if_equal', z3.Implies(allsame, ok))
    out.append(Unit('compare', [T + 'compare'], s_cmp, p_cmp, models={'check_spec_examples:_diff_paths': diffs}, invariants={'*': inv_cmp},
                    cover=['return'], groups=['checker']))

    # _diff_paths, structural recursion: one unit per shape of the two values; recursive calls by contract
    def shape(k, ip, nm):
        if k == 'dict':
            return ip.ctx.mk('dict:U:U', nm)
        if k == 'list':
            return ip.ctx.mk('list:U', nm)
        if k == 'int':
            return ip.ctx.mk('int', nm)
        return ip.ctx.mk('str', nm)

    def spec_eq(ip, a, b):
        if isinstance(a, D) and isinstance(b, D):
            return forall(X, z3.And(has(a, X) == has(b, X), z3.Implies(has(a, X), VE(val(a, X), val(b, X)))))
        if isinstance(a, L) and isinstance(b, L):
            return z3.And(a.n == b.n, forall(J, z3.Implies(rng(J, a.n), VE(sel(a, J), sel(b, J)))))
        if type(a) is not type(b):
            return z3.BoolVal(False)
        return a.t == b.t

    def mkdiff(ka, kb):
        s2 = {}

        def setup(ip):
            s2['a'], s2['b'] = shape(ka, ip, 'expected'), shape(kb, ip, 'actual')
            return body_of(m._diff_paths), [s2['a'], s2['b'], ip.ctx.mk('str', 'path')], {}

        def inv(lv):
            y = lv.var('$yield')
            if not isinstance(y, L):
                return []
            a, b = s2['a'], s2['b']
            o = [('?grow', ops.zi(y.n) >= (ops.zi(lv.pre['$yield'].n) if isinstance(lv.pre.get('$yield'), L) else 0))]
            if isinstance(lv.pre.get('$yield'), L):
                y0 = ops.zi(lv.pre['$yield'].n)
                if ka == 'list':
                    e = VE(sel(a, J), sel(b, J))
                    o.append(('?elems', (ops.zi(y.n) == y0) == forall(J, z3.Implies(rng(J, lv.i), e))))
                if ka == 'dict':
                    q = lambda k: lv.ctx.term(lv.elem(k), 'U')
                    o.append(('?vals', (ops.zi(y.n) == y0) == forall(J, z3.Implies(rng(J, lv.i), VE(val(a, q(J)), val(b, q(J)))))))
                    o.append(('?keys', ops.zi(y.n) == y0 + lv.i))
            return o

        def post(ip, o):
            y = o[1]
            n = ops.zi(y.n) if isinstance(y, L) else z3.IntVal(len(y))
            ip.ctx.prove('no_difference_iff_equal', (n == 0) == spec_eq(ip, s2['a'], s2['b']))
        return Unit(f'diff_{ka}_{kb}', [T + '_diff_paths'], setup, post, models={'check_spec_examples:_diff_paths': diffs}, invariants={'*': inv},
                    elem_kinds={'$yield': 'U'}, cover=['return'], groups=['checker'])
    for ka, kb in (('dict', 'dict'), ('list', 'list'), ('str', 'str'), ('int', 'int'), ('dict', 'list'), ('list', 'dict'), ('str', 'int'), ('int', 'str'),
                   ('dict', 'str'), ('str', 'list'), ('list', 'int'), ('int', 'dict')):
        out.append(mkdiff(ka, kb))
    return out
