#!/usr/bin/env python3-vt
"""Decides one property: verifies every function under contract that the property depends on (closed over the
contracts the verified functions rely on), proves the lemmas, then runs the bounded drivers against the
compiled code.  Exit 0: held.  Exit 1 and a VIOLATION line: broken."""
import sys, os, json, time, threading, tempfile, shutil, importlib, re, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
VERIF = os.path.dirname(HERE)
import cbuild

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1


# seconds after which undecided obligations count as not discharged (typical: 20-120 s)
LIMIT = 450 if TIER == 'quick' else 5400


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ deductive part
def worker(inq, outq, specs, files, ghosts, inline, lemmas, procs):
    import verify, solve, spec as sp
    while True:
        i = inq.get()
        if i is None:
            break
        t0 = time.time()
        if isinstance(i, str):
            L = lemmas[i]
            sol = solve.Solver(procs)
            r = verify.prove_lemma(L, sol)
            sol.close()
            outq.put((i, r.asdict()))
            continue
        s = specs[i]
        r = None
        for attempt in (1, 4):
            solve.SCALE = attempt
            sol = solve.Solver(procs)
            reg = sp.Registry(specs, ghosts, root=s, inline=inline)
            r = verify.verify(s, reg, files, sol)
            sol.close()
            if not r.failed and not r.error:
                break
            if r.error and not r.error.startswith('internal'):
                break
        d = r.asdict()
        d['attempts'] = attempt
        d['bv'] = bool(s.bv)
        d['wall'] = time.time() - t0
        outq.put((i, d))


def deductive(prop, nproc=8):
    import verify, front
    specs, files, ghosts, inline, lemmas = prop['specs'], prop['files'], prop['ghosts'], prop['inline'], prop['lemmas']
    import concurrent.futures as cf
    errs = []

    def load(f):
        try:
            verify.tu(f)
        except front.ExtractError as e:
            errs.append(str(e))
    # clang runs in parallel; the JSON is sliced here
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(load, files))
    log('loaded %d translation units' % len(files))
    ctx = mp.get_context('fork')
    import solve
    solve.SLOTS = ctx.BoundedSemaphore(8)
    inq, outq = ctx.Queue(), ctx.Queue()
    results = {}
    byname = {s.name: i for i, s in enumerate(specs)}
    want, pending = [], set()

    def ask(i):
        if i in pending or i in results:
            return
        if not isinstance(i, str) and specs[i].assumed:
            return
        pending.add(i)
        inq.put(i)
    for n in prop['roots']:
        ask(byname[n])
    for n in lemmas:
        ask(n)
    ps = [ctx.Process(target=worker, args=(inq, outq, specs, files, ghosts, inline, lemmas, 6)) for _ in range(nproc)]
    for p in ps:
        p.start()
    import queue
    while pending:
        if time.time() - T0 > LIMIT:
            for k in list(pending):
                nm = k if isinstance(k, str) else specs[k].name
                results[k] = {'name': nm, 'error': 'not decided within the time budget of %d s' % LIMIT, 'obligations': 1, 'discharged': 0, 'failed': [], 'backends': {}, 'solver_time': 0, 'file': '', 'contracted': [], 'wall': 0, 'loops': [], 'models': [], 'assump': [], 'inlined': []}
            pending.clear()
            for p in ps:
                p.terminate()
            os.system('pkill -P %s 2>/dev/null' % ','.join(str(p.pid) for p in ps))
            break
        try:
            i, d = outq.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                for k in list(pending):
                    nm = k if isinstance(k, str) else specs[k].name
                    results[k] = {'name': nm, 'error': 'internal: verifier process died', 'obligations': 0, 'discharged': 0, 'failed': [], 'backends': {}, 'solver_time': 0, 'file': '', 'contracted': [], 'wall': 0, 'loops': [], 'models': [], 'assump': [], 'inlined': []}
                pending.clear()
            continue
        pending.discard(i)
        results[i] = d
        for n in d.get('contracted', []):
            if n in byname:
                ask(byname[n])
    for p in ps:
        inq.put(None)
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.terminate()
    return errs, [results[k] for k in sorted(results, key=str)]


# ------------------------------------------------------------------ bounded drivers
def drivers(prop, out):
    """runs the bounded drivers; fills out: cases, fails, notes"""
    out.update(cases=0, nontrivial=0, fails=[], notes=[], runs=[], findings=[], samples=[])
    tmp = tempfile.mkdtemp(prefix='dv_' + prop['id'] + '_')
    try:
        ds = prop['drivers']
        exes, err = cbuild.build(tmp, sorted(set(d[0] for d in ds)))
        out['build_s'] = time.time() - T0
        if err:
            out['notes'].append('driver not built: ' + err)
            return
        for (d, ranks, qargs, targs) in ds:
            for n in ranks:
                budget, cases, extra = (targs if TIER == 'thorough' else qargs)
                cwd = tempfile.mkdtemp(prefix='run_', dir=tmp)
                seeds = [SEED] if TIER == 'quick' else [SEED + k for k in range(4)]
                for sd in seeds:
                    if out['fails'] and (TIER == 'quick' or len(out['fails']) > 4):
                        break
                    for attempt in (0, 1):
                        rc, o = cbuild.run(exes[d], n, [sd, cases, budget] + list(extra), budget + (60 if TIER == 'quick' else 120), cwd)
                        last = ''
                        if os.path.exists(cwd + '/last_case.txt'):
                            last = open(cwd + '/last_case.txt', errors='replace').read().strip()
                        m = re.search(r'DONE \S+ cases (\d+) nontrivial (\d+)', o)
                        fails = [l for l in o.splitlines() if l.startswith('FAIL ')]
                        if fails or (m and rc == 0) or last:
                            break
                    else:
                        out['notes'].append('driver %s on %d ranks did not start (rc %s): %s' % (d, n, rc, o[-400:]))
                        continue
                    if m:
                        out['cases'] += int(m.group(1))
                        out['nontrivial'] += int(m.group(2))
                        if last and len(out['samples']) < 3:
                            out['samples'].append(last[:600])
                    out['findings'] += [l[8:].strip() for l in o.splitlines() if l.startswith('FINDING ')]
                    if fails:
                        out['fails'].append((d, n, fails[0], o[-4000:]))
                    elif rc == 'timeout':
                        out['fails'].append((d, n, 'no progress (hang) in: ' + last, o[-4000:]))
                    elif rc != 0:
                        s = re.search(r'(ERROR: AddressSanitizer[^\n]*|Assertion[^\n]*failed[^\n]*|terminate called[^\n]*\n[^\n]*|APF FAILED[^\n]*)', o)
                        out['fails'].append((d, n, 'abnormal end (%s, exit %s) in: %s' % (s.group(1) if s else 'crash', rc, last), o[-6000:]))
                    out['runs'].append({'driver': d, 'ranks': n, 'seed': sd, 'cases': int(m.group(1)) if m else None, 'rc': rc})
    except Exception as e:
        out['notes'].append('driver error: %s' % traceback.format_exc()[-800:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known(pid):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    only_driver = '--driver-only' in sys.argv
    only_proof = '--proof-only' in sys.argv
    import props.catalog as cat
    prop = cat.get(pid)
    dout = {}
    th = None
    if not only_proof and prop['drivers']:
        th = threading.Thread(target=lambda: None)
    errs, res = [], []
    if not only_driver:
        errs, res = deductive(prop)
    ob = sum(r['obligations'] for r in res)
    di = sum(r['discharged'] for r in res)
    log('deductive part: %d functions/lemmas, %d/%d obligations discharged' % (len(res), di, ob))
    bad = []
    for e in errs:
        bad.append(('extraction', e, None))
    for r in res:
        if r['error']:
            bad.append((r['name'], r['error'], None))
        for f in r['failed']:
            bad.append((r['name'], '%s [%s]' % (f[0], f[1]), f[2]))
    for b in bad:
        log('NOT DISCHARGED', b[0], ':', b[1][:300])
    if th is not None:
        drivers(prop, dout)
        log('bounded drivers: %d cases, %d failures %s' % (dout.get('cases', 0), len(dout.get('fails', [])), '; '.join(dout.get('notes', []))[:500]))
    kn = known(pid)
    viol = []
    seenk = set()
    for d, n, f, o in dout.get('fails', []):
        viol.append((d, n, f, o))
    for k in dout.get('findings', []):
        key = k.split()[0]
        hit = [w for kk, w in kn if kk == key]
        if hit:
            if key not in seenk:
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
            seenk.add(key)
        else:
            viol.append(('driver', 0, 'FINDING ' + k, ''))
    backends = {}
    for r in res:
        for b, c in r['backends'].items():
            backends[b] = backends.get(b, 0) + c
    fn_under = [{'function': r['name'], 'file': r['file'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'solver_s': round(r['solver_time'], 2)} for r in res]
    models = sorted(set(m for r in res for m in r['models']))
    assump = sorted(set(m for r in res for m in r['assump']))
    assumed = sorted(set(n for r in res for n in r['contracted'] if n in set(s.name for s in prop['specs'] if s.assumed)))
    ev = {
        'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': prop['level'],
        'coverage': {
            'obligations': ob, 'discharged': di,
            'checker_cmd': 'python3-vt dv/check.py %s (clang 18 AST of /repo -> symbolic execution with contracts -> z3 4.x / cvc5)' % pid,
            'trusted_base': ['clang 18 front end (AST)', 'dv symbolic executor and loop-invariant checker', 'z3', 'cvc5'] + ['model: ' + m for m in models] + ['assumed contract: ' + a for a in assumed],
            'functions_under_contract': fn_under, 'backends': backends, 'solver_s': round(sum(r['solver_time'] for r in res), 2),
            'inlined_helpers': sorted(set(x for r in res for x in r['inlined'])),
            'loop_invariants_kept': sum(len(l['kept']) for r in res for l in r['loops'] if isinstance(l, dict)),
            'vacuity': {r['name']: r.get('vacuity') for r in res if r.get('vacuity')},
            'loops_checked_reachable': sum(r.get('covered', 0) for r in res),
            'undischarged': [[b[0], b[1][:300]] for b in bad],
            'explanation': prop['note'],
            'bounded_standins': {'what': prop['bounded'], 'label': 'bounded: random cases against an independent reference model; never counted as proved',
                                 'runs': dout.get('runs', []), 'notes': dout.get('notes', [])},
            'evaluations': dout.get('cases', 0), 'distinct_nontrivial': dout.get('nontrivial', 0),
            'rule': 'random cases of the bounded drivers (seeded by VERIF_SEED); non-trivial: as counted by each driver (several vertices, edge types, ranks or a non-empty plan)',
            'samples': dout.get('samples', []),
        },
        'assumptions': ASSUME + ['executor: ' + a for a in assump] + prop.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2), 'violations': 0,
    }
    code = 0
    if bad or viol:
        code = 1
        ev['violations'] = len(viol) or len(bad)
        rp = '%s/evidence/%s.replay.txt' % (VERIF, pid)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(rp, 'w') as fo:
            fo.write('property %s: %s\n\n' % (pid, prop['title']))
            if bad:
                fo.write('FAILED OBLIGATIONS (function, obligation [solver verdict], model if any)\n')
                for b in bad:
                    fo.write('* %s: %s\n' % (b[0], b[1]))
                    if b[2]:
                        fo.write('    counterexample to induction / model: %s\n' % b[2][:2500])
            for d, n, f, o in viol:
                fo.write('\nFAILING INPUT on the compiled code, driver %s, %d ranks (replay: dv/check.py %s --driver-only with VERIF_SEED=%d)\n%s\n%s\n' % (d, n, pid, SEED, f, o))
            if not viol:
                fo.write('\nno failing input found by the bounded drivers (%d cases)\n' % dout.get('cases', 0))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if viol else ' no-failing-input-found'), flush=True)
    ev['wall_s'] = round(time.time() - T0, 2)
    if not (only_driver or only_proof):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1, default=str)
    log('exit', code)
    return code


ASSUME = [
    'signed machine integers are treated as mathematical integers (int arithmetic does not overflow); narrowing conversions keep the value only if provably in range',
    'double is treated as the real numbers',
    'distinct reference/record parameters do not alias each other unless the contract says so',
    'library containers (std::vector, maps, sets, iterators) and libc functions behave as modelled; iteration order of hash containers is arbitrary but fixed',
    '64-bit little-endian target; termination is not proved (drivers bound it by timeouts)',
]

if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        rp = '%s/evidence/%s.replay.txt' % (VERIF, pid)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        open(rp, 'w').write('the verifier could not process the current source:\n' + traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp), flush=True)
        sys.exit(1)
