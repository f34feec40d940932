#!/usr/bin/env python3-vt
"""
run.py PROPERTY            decide one property on /repo's current working tree
run.py PROPERTY --replay F re-run the failing case recorded in F
run.py PROPERTY --unit N   run only the proof units whose name contains N, verbosely
run.py PROPERTY --group N  run only the concrete groups whose name contains N

Exit 0: every obligation was discharged (or, where the verifier could not process a function any
more, its labelled bounded stand-in passed) and no executable contract failed.
Exit 1: a line VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'shims'))
sys.dont_write_bytecode = True
TIER = os.environ.get('VERIF_TIER', 'quick')
os.environ.setdefault('VERIF_TIER', TIER)
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':
    # solver runs must not depend on the order of hashed names
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = min(8, os.cpu_count() or 4)
sys.setrecursionlimit(6000)


class Job:
    def __init__(self, fn, limit, tag):
        self.fn, self.limit, self.tag = fn, limit, tag


def run_jobs(jobs, nproc=NPROC, deadline=None):
    """fork one process per job; yields (tag, result) with result None when it died or ran out of time"""
    pend = list(jobs)
    live = {}
    while pend or live:
        while pend and len(live) < nproc:
            j = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get('VERIF_DEBUG'):
                        os.dup2(dn, 2)
                    try:
                        res = j.fn()
                    except BaseException as e:   # reported by the parent
                        res = dict(crash=f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:])
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [pid, j, time.time(), b'']
        if not live:
            break
        rs, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for r in list(live):
            pid, j, t0, buf = live[r]
            if r in rs:
                d = os.read(r, 1 << 20)
                if d:
                    live[r][3] = buf + d
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    yield j.tag, pickle.loads(buf)
                except Exception:
                    yield j.tag, None
            elif now - t0 > j.limit or (deadline and now > deadline):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                yield j.tag, None


# ------------------------------------------------------------------ concrete stage
def in_repo_tb(e):
    """did the real code raise this (innermost frame that is either ours or the repository's)?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + '/'):
            last = 'repo'
        elif fn.startswith(HERE + '/contracts'):
            last = 'harness'
        tb = tb.tb_next
    return last == 'repo'


class Hang(BaseException):
    pass


CASE_CPU = 60           # seconds of processor time one case may take; on the unchanged tree none takes more than a few


def hang(*_):
    raise Hang()


def run_case(g, case):
    """None, ('fail', msg) or ('harness', msg)"""
    from contracts.base import Skip, Bad
    old = signal.signal(signal.SIGPROF, hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU, 5)
    try:
        return run_case_(g, case, Skip, Bad)
    except Hang:
        return ('fail', f'the case does not finish within {CASE_CPU} s of processor time')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_case_(g, case, Skip, Bad):
    try:
        m = g.check(case)
        return None if m is None else ('fail', str(m))
    except Skip:
        return ('skip', '')
    except Bad as e:
        return ('fail', str(e))
    except RecursionError as e:
        return ('harness', f'recursion {e}')
    except Exception as e:
        if in_repo_tb(e):
            return ('fail', f'unexpected {type(e).__name__}: {e} :: ' + traceback.format_exc()[-900:])
        return ('harness', f'{type(e).__name__}: {e} :: ' + traceback.format_exc()[-900:])


def group_job(g, n, seed, limit, fixed):
    def f():
        t0 = time.time()
        rng = random.Random(seed)
        seen = set()
        ev = 0
        skips = 0
        slow = 0
        samples = []
        harness = []
        if fixed:
            for case in g.fixed():
                ev += 1
                r = run_case(g, case)
                if r and r[0] == 'fail':
                    return dict(ev=ev, fail=(case, r[1]), distinct=len(seen), samples=samples, harness=harness, skips=skips)
                if r and r[0] == 'harness':
                    harness.append(r[1])
                if r and r[0] == 'skip':
                    skips += 1
                    continue
                seen.add(hashlib.blake2b(repr(case).encode(), digest_size=8).digest())
        for k in range(n):
            if time.time() - t0 > limit:
                break
            try:
                case = g.gen(rng)
            except Exception as e:
                if in_repo_tb(e):
                    return dict(ev=ev, fail=(None, f'generating a case raised {type(e).__name__}: {e} ' + traceback.format_exc()[-900:]),
                                distinct=len(seen), samples=samples, harness=harness, skips=skips)
                harness.append('gen: ' + traceback.format_exc()[-900:])
                break
            ev += 1
            c0 = time.process_time()
            r = run_case(g, case)
            slow = max(slow, time.process_time() - c0)
            if r is not None:
                if r[0] == 'fail':
                    return dict(ev=ev, fail=(case, r[1]), distinct=len(seen), samples=samples, harness=harness, skips=skips)
                if r[0] == 'harness':
                    harness.append(r[1])
                    if len(harness) > 5:
                        break
                skips += r[0] == 'skip'
                continue
            if g.nontrivial(case):
                seen.add(hashlib.blake2b(repr(case).encode(), digest_size=8).digest())
            if len(samples) < 2:
                samples.append(repr(case)[:400])
        return dict(ev=ev, fail=None, distinct=len(seen), samples=samples, harness=harness, skips=skips, hashes=seen, slow=slow)
    return f


# how much of the concrete stage a quick run repeats, so that it takes some 10 to 30 seconds on 8 cores
QUICK = dict(C01=3, C02=3, C03=3, C04=3, C05=3, C06=2, C07=4, C08=6, C09=8, C10=15, C11=4, C12=4, C13=12, C14=4, C16=6, C17=8, C18=12, C22=8, C23=4, C25=2, C26=12, C27=3,
             C28=6)


def concrete(groups, seed, scale, limit):
    """run groups in parallel chunks; returns dict name -> summary"""
    jobs = []
    for g in groups:
        n = max(1, int(g.n * scale))
        chunks = max(1, min(NPROC, g.chunks if scale <= 1 else NPROC))
        for c in range(chunks):
            s = int.from_bytes(hashlib.blake2b(f'{seed}/{g.name}/{c}/{scale}'.encode(), digest_size=6).digest(), 'big')
            jobs.append(Job(group_job(g, (n + chunks - 1) // chunks, s, limit, c == 0), limit * 2 + 200, (g.name, c)))
    out = {g.name: dict(ev=0, distinct=set(), samples=[], harness=[], fails=[], skips=0, timeouts=0) for g in groups}
    for (name, c), r in run_jobs(jobs):
        o = out[name]
        if r is None:
            o['timeouts'] += 1
            continue
        if 'crash' in r:
            o['harness'].append(r['crash'])
            continue
        o['ev'] += r['ev']
        o['slow'] = max(o.get('slow', 0), r.get('slow', 0))
        o['distinct'] |= r.get('hashes', set())
        o['samples'] += r['samples']
        o['harness'] += r['harness']
        o['skips'] += r['skips']
        if r['fail']:
            o['fails'].append(r['fail'])
    return out


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--unit')
    ap.add_argument('--group')
    ap.add_argument('--noproof', action='store_true')
    ap.add_argument('--lock', action='store_true', help='development: record what the units of this property were proved on')
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_')
    os.environ['TMPDIR'] = scratch
    os.environ['HOME'] = scratch
    tempfile.tempdir = scratch
    code = 2
    try:
        code = go(a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def known():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                # finding: property=C01 group=<name> match=<text that the failure message must contain> :: description
                head, _, desc = ln.partition('::')
                kv = dict(x.split('=', 1) for x in head.split()[1:])
                out.append((kv['property'], kv.get('group'), kv['match'], desc.strip()))
    return out


def go(a, t0, scratch):
    import shimboot
    shimboot.boot()
    prop = a.prop
    mod = importlib.import_module('contracts.' + prop.lower())
    from contracts import base
    groups = list(getattr(mod, 'GROUPS', []))
    if a.replay:
        d = json.load(open(a.replay))
        if 'case' not in d:
            print('no concrete case in this file; failed obligation:', d.get('obligation'))
            return 1
        g = next(x for x in groups if x.name == d['group'])
        r = run_case(g, base.decode(d['case']))
        print('replay:', r)
        return 1 if r and r[0] == 'fail' else 0
    units = list(mod.units()) if hasattr(mod, 'units') else []
    if a.unit is not None:
        units = [u for u in units if a.unit in u.name]
        groups = []
    if a.group is not None:
        groups = [g for g in groups if a.group in g.name]
        units = []
    if a.noproof:
        units = []
    quick = TIER != 'thorough'
    # 1. proof stage
    tp = time.time()
    results = {}

    def unit_job(u):
        def f():
            r = u.run()
            r['obs'] = [(o.name, o.status, o.secs, o.backend, str(o.model)[:3000] if o.model else None, o.path, o.info) for o in r['obs']]
            return r
        return f
    jobs = [Job(unit_job(u), u.budget * 1.3 + 30, u.name) for u in sorted(units, key=lambda u: -getattr(u, 'cost', 1))]
    for name, r in run_jobs(jobs, deadline=tp + (400 if quick else 5400)):
        if r is None:
            r = dict(unit=name, obs=[], error='no result (time or memory)', paths=0, secs=0, inlined=[], opaque=[], dropped=[], target=[],
                     invariants=[], outcomes={})
        elif 'crash' in r:
            r = dict(unit=name, obs=[], error='engine: ' + r['crash'], paths=0, secs=0, inlined=[], opaque=[], dropped=[], target=[],
                     invariants=[], outcomes={})
        results[name] = r
    # 2. concrete stage
    proof_s = time.time() - tp
    tc = time.time()
    scale = QUICK.get(prop, 1) * (1 if quick else 12)
    limit = 40 if quick else 900
    con = concrete(groups, SEED, scale, limit) if groups else {}
    con_s = time.time() - tc
    ts = time.time()
    # a second chance, with more solver effort, for units with obligations the solver neither proved nor refuted
    again = [u for u in units if not results[u.name]['error'] and any(o[1] == 'unknown' for o in results[u.name]['obs'])
             and not any(o[1] == 'refuted' for o in results[u.name]['obs'])]
    # (needless where a run of the code has already shown a violation, or another obligation has been refuted)
    decided = any(o['fails'] for o in con.values()) or any(o[1] == 'refuted' for r in results.values() for o in r['obs'])
    if again and not decided:
        def more(u):
            def f():
                from vc import engine
                engine.SCALE = 4
                u.budget *= 2
                return unit_job(u)()
            return f
        for name, r in run_jobs([Job(more(u), u.budget * 2.6 + 30, u.name) for u in again], nproc=4, deadline=ts + (180 if quick else 7000)):
            if r is not None and 'crash' not in r and not r['error']:
                results[name] = r
    proof_s += time.time() - ts
    tc = time.time()
    lockp = os.path.join(HERE, 'contracts', 'proved.json')
    lock = json.load(open(lockp)) if os.path.exists(lockp) else {}
    if a.lock:
        for u in units:
            r = results[u.name]
            if not r['error'] and all(o[1] == 'proved' for o in r['obs']):
                lock[prop + ':' + u.name] = r['mods']
        for k in [k for k in lock if k.startswith(prop + ':') and k.split(':', 1)[1] not in results]:
            del lock[k]
        with open(lockp, 'w') as f:
            json.dump(lock, f, indent=1, sort_keys=True)
            f.write('\n')
    # the solver giving up on exactly the code it accepted before says nothing about the code: undecided, not violated
    for u in units:
        r = results[u.name]
        bad = [o for o in r['obs'] if o[1] not in ('proved', 'vacuous')]
        if bad and all(o[1] == 'unknown' for o in bad) and r.get('mods') and lock.get(prop + ':' + u.name) == r['mods']:
            r['obs'] = [o for o in r['obs'] if o[1] != 'unknown']
            r['error'] = 'solver gave up on unchanged code: ' + ','.join(sorted({o[0] for o in bad}))[:200]
    nob = ndis = 0
    failed = []      # (unit, name, status, info)
    broken = []      # units the verifier could not finish
    backs = {}
    solver_s = 0
    for u in units:
        r = results[u.name]
        bad = {}
        for (nm, st, secs, be, model, path, info) in r['obs']:
            if st == 'vacuous':
                continue
            nob += 1
            solver_s += secs
            if st == 'proved':
                ndis += 1
                backs[be] = backs.get(be, 0) + 1
            else:
                bad.setdefault(nm, []).append((st, model, path, info))
        vac = [o[0] for o in r['obs'] if o[1] == 'vacuous']
        if vac and not r['error']:
            r['error'] = 'vacuous: ' + ','.join(vac)
        for nm, l in bad.items():
            failed.append((u, nm, l, r))
        if r['error'] and not bad:
            broken.append((u, r))
        if a.unit is not None or os.environ.get('VERIF_V'):
            print(f"unit {u.name}: obligations {len(r['obs'])} paths {r['paths']} {r['secs']:.1f}s err={r['error']} outcomes={r['outcomes']} "
                  f"opaque={r['opaque']} dropped={len(r['dropped'])}")
            for nm, l in bad.items():
                print('   FAILED', nm, len(l), l[0][0], 'path', l[0][2], l[0][3], '\n      ', (l[0][1] or '')[:1500 if a.unit else 200])
    # 3. more search where the proof did not go through
    extra_names = set()
    if (failed or broken) and a.unit is None:
        for u, *_ in failed + broken:
            extra_names |= set(getattr(u, 'groups', None) or [g.name for g in groups])
        if not any(o['fails'] for o in con.values()):
            con2 = concrete([g for g in groups if g.name in extra_names], SEED + 7919, scale * 8, 120 if quick else 900)
            for k, o in con2.items():
                for f in ('ev', 'skips', 'timeouts'):
                    con[k][f] += o[f]
                con[k]['distinct'] |= o['distinct']
                con[k]['fails'] += o['fails']
                con[k]['harness'] += o['harness']
    con_s += time.time() - tc
    # 4. verdict
    kf = known()
    viol = []
    kprinted = set()
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for g in groups:
        o = con[g.name]
        for case, msg in o['fails'][:3]:
            k = next((x for x in kf if x[0] == prop and x[1] in (None, g.name) and x[2] in msg), None)
            if k:
                if k not in kprinted:
                    kprinted.add(k)
                    print(f'KNOWN-FINDING: property={prop} {k[3]}')
                continue
            rel = f'evidence/replay/{prop}-{g.name}.json'
            with open(os.path.join(HERE, rel), 'w') as f:
                json.dump(dict(property=prop, group=g.name, case=base.encode(case), case_repr=repr(case)[:4000], message=msg,
                               failed_obligations=[f'{u.name}:{nm}' for u, nm, _, _ in failed],
                               how=f'cd /verif && python3-vt run.py {prop} --replay {rel}'), f, indent=1)
            viol.append((rel, '', f'{g.name}: {msg}'))
            break
    for x in getattr(mod, 'KNOWN', []):
        pass
    if failed and not viol:
        u, nm, l, r = failed[0]
        rel = f'evidence/replay/{prop}-obligation.json'
        with open(os.path.join(HERE, rel), 'w') as f:
            json.dump(dict(property=prop, obligation=f'{u.name}:{nm}', functions=r.get('target'), unit_error=r['error'],
                           failed=[dict(unit=u2.name, obligation=n2, status=l2[0][0], verifier_output=l2[0][1], path=l2[0][2], info=str(l2[0][3]))
                                   for u2, n2, l2, _ in failed]), f, indent=1)
        viol.append((rel, ' no-failing-input-found', f'obligation {u.name}:{nm} is {l[0][0]}'))
    harness_bad = {k: o['harness'] for k, o in con.items() if o['harness']}
    for k, h in harness_bad.items():
        print(f'note: group {k}: {len(h)} cases could not be run by the harness: {h[0][:600]}')
    for u, r in broken:
        print(f"note: unit {u.name} not decided by the verifier ({r['error'][:300]}); bounded stand-in used, not counted as proved")
    level = 'proof' if units else 'exploration'
    targets = sorted({t for u in units for t in (u.target if isinstance(u.target, (list, tuple)) else [u.target])})
    bset = {u.name for u, _ in broken}
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + base.COMMON_ASSUMPTIONS,
              coverage=dict(
                  obligations=nob, discharged=ndis, checker_cmd='python3-vt run.py ' + prop,
                  trusted_base=base.TRUSTED,
                  functions_under_contract=targets,
                  functions_inlined=sorted({x for r in results.values() for x in r['inlined']}),
                  opaque_calls=sorted({x for r in results.values() for x in r['opaque']}),
                  back_ends=backs, solver_s=round(solver_s, 2), proof_wall_s=round(proof_s, 2), paths=sum(r['paths'] for r in results.values()),
                  units=[dict(unit=u.name, functions=u.target, obligations=len(results[u.name]['obs']), paths=results[u.name]['paths'],
                              decided=u.name not in bset, reason=results[u.name]['error'], notes=u.notes,
                              outcomes={str(k): v for k, v in results[u.name]['outcomes'].items()}) for u in units],
                  undecided_units=sorted(bset),
                  evaluations=sum(o['ev'] for o in con.values()),
                  distinct_nontrivial=sum(len(o['distinct']) for o in con.values()),
                  rule=getattr(mod, 'RULE', 'executable contracts evaluated on the real functions; a case is non-trivial when the contract\'s '
                                            'precondition holds and the group\'s own filter accepts it; distinct by its printed form'),
                  samples=[dict(group=k, case=s) for k, o in con.items() for s in o['samples'][:1]],
                  bounded_stand_ins=[dict(group=g.name, functions=g.functions, bound=g.bound, evaluations=con[g.name]['ev'],
                                          distinct=len(con[g.name]['distinct']), skipped=con[g.name]['skips'],
                                          harness_errors=len(con[g.name]['harness']), slowest_case_s=round(con[g.name].get('slow', 0), 2), timeouts=con[g.name]['timeouts']) for g in groups],
                  concrete_wall_s=round(con_s, 2)))
    if a.unit is None and a.group is None and not a.noproof:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print(f'{prop}: obligations {nob} discharged {ndis} units {len(units)} undecided {len(broken)} failed {len(failed)}; '
          f'contract runs {ev["coverage"]["evaluations"]} distinct {ev["coverage"]["distinct_nontrivial"]}; '
          f'proof {proof_s:.1f}s concrete {con_s:.1f}s')
    for rel, suf, msg in viol:
        print('  ' + msg[:1500])
        print(f'VIOLATION property={prop} replay={rel}{suf}')
    if viol:
        return 1
    if not ndis and not ev['coverage']['distinct_nontrivial']:
        print('nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    main()
