"""Decide one property: verify every contract of the property against /repo's current source.

usage: check.py PROPERTY [quick|thorough]      (seed: VERIF_SEED, default 1)"""
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pkgutil
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VC_EVIDENCE') or os.path.join(HERE, 'evidence')


def load():
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module('contracts.' + m)


# ---------------------------------------------------------------------- worker side
def worker(conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        try:
            r = do_job(job)
        except MemoryError:
            r = {'err': 'out of memory', 'obls': [], 'time': 0.0}
        except Exception as x:
            r = {'err': 'verifier error: %s\n%s' % (x, traceback.format_exc()[-2000:]), 'obls': [], 'time': 0.0}
        conn.send(r)


def do_job(job):
    from vc.contract import REGISTRY
    kind, cid = job[0], job[1]
    c = REGISTRY[cid]
    t0 = time.time()
    if kind == 'verify':
        _, _, idx, scale, limit = job
        case = c.cases()[idx]
        obls, err, e, vals = c.verify_case(case, scale=scale, deadline=time.process_time() + limit)
        out = {'obls': [(o.name, o.status, o.backend, o.time, o.detail) for o in obls], 'err': err, 'case': repr(case), 'via': case.via,
               'label': case.label, 'time': time.time() - t0, 'solver': e.stats['solver_s'], 'checks': e.stats['checks'], 'paths': e.stats['paths'],
               'inlined': sorted(map(str, e.stats['inlined'])), 'trusted': sorted(e.stats['trusted'])}
        hits = []
        for o in obls:
            if o.status != 'proved' and o.model is not None and vals is not None and len(hits) < 3:
                h = replay_model(c, case, o, e)
                if h is not None:
                    hits.append(h)
                    break
        out['hits'] = hits
        return out
    if kind == 'fuzz':
        _, _, n, seed, limit = job
        return fuzz(c, n, seed, limit)
    if kind == 'bounded':
        _, _, tier, seed, limit = job
        return dict(c.run(tier, seed, limit), time=time.time() - t0)
    raise ValueError(kind)


def replay_model(c, case, o, e):
    """the verifier's counterexample, run against the real code"""
    from vc.ptypes import GenEnv, ModelConc
    from vc import sym
    if c.nofuzz:
        return None
    try:
        vals = {}
        prev = sym.CUR[0]
        # parameters are rebuilt on the path of the failed obligation: names are deterministic
        e.start_path(o.path)
        sym.CUR[0] = e
        try:
            mc = ModelConc(o.model)
            env = GenEnv(random.Random(0))
            for n, mk in case.makers:
                v = mk(e, n)
                try:
                    vals[n] = mc.conc(v)
                except ValueError as x:
                    if str(x) != 'callback':
                        return None
                    vals[n] = None
        finally:
            sym.CUR[0] = prev
        cb = [n for n in vals if vals[n] is None and hasattr(c.params[n], 'adapt') and type(c.params[n]).__name__ in ('Fn', 'LtFn')]
        for trial in range(60 if cb else 1):
            env = GenEnv(random.Random(trial))
            for nm in 'ABCDEFGHZ':
                env.wild[nm] = 'int'
            v2 = dict(vals)
            for n in cb:
                v2[n] = c.params[n].gen(env)
            r = c.concrete(case.via, v2, env)
            if r is not None and not r[0]:
                return {'contract': c.id, 'via': case.via, 'source': 'counterexample of the verifier, replayed against the real code',
                        'inputs': {k: safe_repr(x) for k, x in v2.items()}, 'expected': safe_repr(r[1]), 'got': safe_repr(r[2])}
    except Exception:
        return None
    return None


def safe_repr(x):
    try:
        s = repr(x)
    except Exception:
        s = '<%s>' % type(x).__name__
    return s if len(s) < 2000 else s[:2000] + '...'


def fuzz(c, n, seed, limit):
    t0 = time.time()
    done = skipped = 0
    distinct = set()
    samples = []
    for i in range(n):
        if time.time() - t0 > limit:
            break
        s = '%d/%s/%d' % (seed, c.id, i)
        for via in c.vias():
            rng = random.Random(s)
            try:
                vals, env = c.gen(rng)
                r = c.concrete(via, vals, env)
            except Exception as x:
                return {'done': done, 'skipped': skipped, 'distinct': len(distinct), 'err': 'harness error %r\n%s' % (x, traceback.format_exc()[-1500:]),
                        'hits': [], 'samples': samples, 'time': time.time() - t0}
            if r is None:
                skipped += 1
                continue
            done += 1
            rv = safe_repr(vals)
            if len(distinct) < 100000:
                distinct.add(hash(rv))
            if len(samples) < 2:
                samples.append({'contract': c.id, 'via': via, 'inputs': rv[:300], 'result': safe_repr(r[2])[:200]})
            if not r[0]:
                return {'done': done, 'skipped': skipped, 'distinct': len(distinct), 'samples': samples, 'time': time.time() - t0, 'hits': [
                    {'contract': c.id, 'via': via, 'source': 'contract executed on the real code', 'trial_seed': s,
                     'inputs': {k: safe_repr(x) for k, x in vals.items()}, 'expected': safe_repr(r[1]), 'got': safe_repr(r[2])}]}
    return {'done': done, 'skipped': skipped, 'distinct': len(distinct), 'hits': [], 'samples': samples, 'time': time.time() - t0}


# ---------------------------------------------------------------------- scheduler
def run_jobs(jobs, nproc, on_done, hard):
    """jobs: list of (job, hard_limit_s)"""
    ctx = multiprocessing.get_context('fork')
    todo = list(jobs)[::-1]
    live = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return p, a
    idle = []
    try:
        while todo or live:
            while todo and len(live) < nproc:
                if time.time() > hard:
                    while todo:
                        on_done(todo.pop()[0], {'err': 'overall time budget exhausted', 'obls': [], 'time': 0.0, 'hits': []})
                    break
                p, a = idle.pop() if idle else spawn()
                job, lim = todo.pop()
                a.send(job)
                live[a] = (p, job, time.time() + lim)
            if not live:
                break
            ready = multiprocessing.connection.wait(list(live), timeout=1.0)
            for a in ready:
                p, job, lim = live.pop(a)
                try:
                    r = a.recv()
                    idle.append((p, a))
                except (EOFError, OSError):
                    r = {'err': 'the verifier process died', 'obls': [], 'time': 0.0, 'hits': []}
                    p.join(1)
                on_done(job, r)
            now = time.time()
            for a in list(live):
                p, job, lim = live[a]
                if now > lim:
                    del live[a]
                    p.kill()
                    p.join(5)
                    on_done(job, {'err': 'hard time limit', 'obls': [], 'time': 0.0, 'hits': []})
    finally:
        for p, a in idle:
            try:
                a.send(None)
            except Exception:
                pass
        for p, a in idle:
            p.join(0.5)
            if p.is_alive():
                p.kill()
        for a, (p, _, _) in live.items():
            p.kill()


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    overall = t0 + (560 if tier == 'quick' else 3000)
    fails = []          # (obligation, detail, hit or None)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'violations': 0}
    units, fz, bnd = {}, {}, {}
    try:
        load()
        from vc.contract import REGISTRY
        cs = [c for c in REGISTRY.values() if c.prop == prop]
    except Exception as x:
        fails.append(('loading the contracts against /repo', '%r\n%s' % (x, traceback.format_exc()[-3000:]), None))
        cs = []
        REGISTRY = {}
    jobs = []
    nproc = min(8, os.cpu_count() or 8)
    scale0 = 1.0 if tier == 'quick' else 2.0
    order = {}
    for c in cs:
        if c.bounded:
            jobs.append((('bounded', c.id, tier, seed, c.budget), c.budget * 2 + 60))
            continue
        try:
            ncases = len(c.cases())
        except Exception as x:
            fails.append((c.id + ':the contracted function exists', '%r\n%s' % (x, traceback.format_exc()[-2000:]), None))
            continue
        for i in range(ncases):
            jobs.append((('verify', c.id, i, scale0, c.budget * scale0), c.budget * scale0 * 2.5 + 60))
        if not c.nofuzz:
            n = c.nfuzz if tier == 'quick' else c.nfuzz * 20
            jobs.append((('fuzz', c.id, n, seed, 20 if tier == 'quick' else 120), 200))
    jobs.sort(key=lambda j: -(REGISTRY[j[0][1]].budget))

    def on_done(job, r):
        if job[0] == 'verify':
            units[job[1:3]] = r
        elif job[0] == 'fuzz':
            fz[job[1]] = r
        else:
            bnd[job[1]] = r
    run_jobs(jobs, nproc, on_done, overall)

    def bad(r):
        return r.get('err') or any(o[1] != 'proved' for o in r['obls'])
    # failures may be solver time-outs: retry with more time (definite counterexamples are not retried)
    retry = [k for k, r in units.items() if bad(r) and not r.get('hits')
             and not any(o[1] == 'refuted' for o in r['obls']) and not (r.get('err') or '').startswith('outside')]
    refuted = [k for k, r in units.items() if bad(r) and k not in retry]
    if retry:
        lim = max(30.0, min(240.0, overall - time.time() - 60))
        run_jobs([(('verify', k[0], k[1], 4.0, lim), lim * 1.5 + 60) for k in retry], max(2, nproc // 2), on_done, overall + 200)
    # failing inputs for what still fails
    need = sorted({k[0] for k, r in units.items() if bad(r) and not r.get('hits')} - {k for k, r in fz.items() if r.get('hits')})
    need = [k for k in need if not REGISTRY[k].nofuzz]
    extra = {}
    if need:
        def on_extra(job, r):
            if r.get('hits'):
                extra[job[1]] = r['hits']
        run_jobs([(('fuzz', k, 6000, seed * 7919 + 11 + j, 40), 90) for k in need for j in (0, 1)], nproc, on_extra, overall + 200)
    for k, r in sorted(units.items(), key=repr):
        if not bad(r):
            continue
        names = [o for o in r['obls'] if o[1] != 'proved']
        hit = (r.get('hits') or extra.get(k[0]) or (fz.get(k[0]) or {}).get('hits') or [None])[0]
        if names:
            for o in names[:5]:
                fails.append((o[0], 'obligation %s by %s; goal: %s' % (o[1], o[2], o[4]), hit))
        if r.get('err'):
            fails.append(('%s:%s' % (k[0], r.get('case', k[1])), r['err'], hit))
    for k, r in sorted(fz.items()):
        if r.get('hits'):
            if not any(f[2] is r['hits'][0] for f in fails):
                fails.append((k + ':contract on the real code', 'the contract fails when executed', r['hits'][0]))
        elif r.get('err'):
            fails.append((k + ':contract on the real code', r['err'], None))
    for k, r in sorted(bnd.items()):
        for h in r.get('hits') or []:
            fails.append((k + ':bounded check', h.get('what', ''), h))
        if r.get('err'):
            fails.append((k + ':bounded check', r['err'], None))
    # ---------------------------------------------------------------- evidence
    nobl = sum(len(r['obls']) for r in units.values())
    disch = sum(1 for r in units.values() for o in r['obls'] if o[1] == 'proved')
    backends = {}
    for r in units.values():
        for o in r['obls']:
            if o[1] == 'proved':
                backends[o[2]] = backends.get(o[2], 0) + 1
    if not fails and nobl == 0 and not bnd:
        fails.append((prop + ':obligations were generated', 'no obligation was generated', None))
    trusted = sorted({t for r in units.values() for t in r.get('trusted', ())})
    inl = sorted({t for r in units.values() for t in r.get('inlined', ())})
    base = ['vc: the verifier\'s semantics of Python (interp.py, pymodels.py) and its loop rule', 'z3 %s, cvc5' % z3version(),
            'CPython/PyPy agree with those semantics on the subset used']
    notes = sorted({n for c in cs for n in c.notes})
    assumptions = ['floating point is treated as mathematical reals in the proofs (the same contracts are also executed on the real code with tolerance)'
                   ] + trusted + notes
    cov = {'obligations': nobl, 'discharged': disch, 'checker_cmd': 'bash /verif/check.sh %s %s' % (prop, tier), 'trusted_base': base,
           'discharged_by': backends, 'solver_s': round(sum(r.get('solver', 0) for r in units.values()), 2),
           'solver_calls': sum(r.get('checks', 0) for r in units.values()), 'paths': sum(r.get('paths', 0) for r in units.values()),
           'contracts': len([c for c in cs if not c.bounded]), 'functions_under_contract': sorted({safe(c) for c in cs}),
           'callees_verified_inline': inl,
           'contract_executions_on_real_code': sum(r.get('done', 0) for r in fz.values()),
           'evaluations': max(1, sum(r.get('done', 0) for r in fz.values()) + sum(r.get('done', 0) for r in bnd.values())),
           'distinct_nontrivial': max(1, sum(r.get('distinct', 0) for r in fz.values()) + sum(r.get('distinct', 0) for r in bnd.values())),
           'rule': 'one evaluation = one run of a contracted function on generated inputs, judged by its contract (supplementary to the proofs)',
           'samples': [s for r in fz.values() for s in r.get('samples', ())][:6],
           'bounded': {k: {x: r.get(x) for x in ('bound', 'done', 'distinct')} for k, r in bnd.items()}}
    ev.update({'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fails)})
    lvl = level(prop)
    if lvl:
        ev['level'] = lvl
    known_lines = []
    try:
        from contracts.findings import report
        known_lines = report(prop)
    except ImportError:
        pass
    if known_lines:
        ev['known_findings'] = known_lines
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k, r in sorted(units.items(), key=repr):
        st = 'ok' if not bad(r) else 'FAILED'
        if os.environ.get('VC_VERBOSE') or st != 'ok':
            print('%-60s %-7s %3d obligations %6.1fs' % (r.get('case') and k[0] + ':' + r['case'] or k, st, len(r['obls']), r['time']))
    print('%s: %d obligations, %d discharged, %d contract executions, %.1fs' % (prop, nobl, disch, cov['contract_executions_on_real_code'], time.time() - t0))
    for l in known_lines:
        print('KNOWN-FINDING: property=%s %s' % (prop, l))
    if fails:
        path = os.path.join(EVID, 'replay-%s.json' % prop)
        fails.sort(key=lambda f: f[2] is None)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'failures': [{'obligation': o, 'verifier_output': d, 'failing_input': h} for o, d, h in fails]}, f, indent=1)
        for o, d, h in fails[:10]:
            print('FAILED %s' % o)
            print('   ' + str(d)[:400].replace('\n', '\n   '))
            if h:
                print('   failing input: %s' % json.dumps(h)[:900])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if fails[0][2] else ' no-failing-input-found'))
        return 1
    return 0


def safe(c):
    try:
        return ', '.join(c.targets()) or c.id
    except Exception:
        return c.id


def level(prop):
    try:
        with open(os.path.join(HERE, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop:
                    return c['level']
    except Exception:
        pass


def z3version():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    code = 1
    try:
        code = main(sys.argv[1:])
    except BaseException as x:
        p = sys.argv[1]
        path = os.path.join(EVID, 'replay-%s.json' % p)
        with open(path, 'w') as f:
            json.dump({'property': p, 'failures': [{'obligation': 'the verifier runs', 'verifier_output': traceback.format_exc()}]}, f)
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (p, path))
    sys.stdout.flush()
    os._exit(code)
