#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current working tree.
   1. the deductive verifier (verifier/worker.py) re-extracts the functions under contract from /repo and discharges their obligations;
   2. a concrete driver built from /repo's sources runs beside it: it supplies failing inputs for obligations that fail, and is the labelled
      bounded stand-in for functions outside the verifier's reach."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, importlib, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE); sys.path.insert(0, HERE)
REPO = os.environ.get('REPO', '/repo')
from tools import harness as H
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'

def run_unit(pid, unit, secs, scale=1):
    cmd = [PY, os.path.join(HERE, 'verifier', 'worker.py'), pid, unit, str(secs)]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 60, env=dict(os.environ, VSCALE=str(scale)))
        for l in r.stdout.splitlines():
            if l.startswith('RESULT '): return json.loads(l[7:])
        why = 'worker failed: ' + (r.stderr or r.stdout)[-600:]
    except subprocess.TimeoutExpired: why = 'time budget of %d s exhausted' % secs
    return dict(unit=unit, results=[dict(function=unit, file='', status='unsupported', reason=why, obligations=[], loops=0, inlined=[], library=[], secs=round(time.time() - t, 1))], stats=dict(queries=0, solver_s=0), secs=round(time.time() - t, 1))

def unit_names(pid):
    if not os.path.exists(os.path.join(HERE, 'specs', pid + '.py')): return []
    r = subprocess.run([PY, '-c', 'import importlib,json,sys; m=importlib.import_module("specs.%s"); print("U "+json.dumps([[u["name"], u.get("budget", 240), [c.fullname() for c in u["verify"]]] for u in m.UNITS]))' % pid], capture_output=True, text=True, cwd=HERE)
    for l in r.stdout.splitlines():
        if l.startswith('U '): return json.loads(l[2:])
    raise SystemExit('specification %s does not load: %s' % (pid, r.stderr[-800:]))

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time(); cfg = H.PROPS[pid]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='cglv_', dir='/tmp')
    try: return decide(pid, tier, seed, t0, cfg, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, seed, t0, cfg, scratch):
    units = unit_names(pid)
    hres = {}
    def hrun():
        try: hres['r'] = H.explore(pid, scratch, seed, 1 if tier == 'quick' else 8)
        except Exception as e: hres['r'] = dict(built=False, note='harness: %r' % (e,), evaluations=0, distinct=0, bad=None, samples=[])
    th = threading.Thread(target=hrun); th.start()
    results = []
    with cf.ThreadPoolExecutor(max_workers=6) as pool:
        futs = [pool.submit(run_unit, pid, u, b if tier == 'quick' else 2 * b) for u, b, fs in sorted(units, key=lambda x: -x[1])]
        for f in futs: results.append(f.result())
    th.join(); hr = hres['r']
    # a failed obligation: first look for a failing input; without one, what failed is tried once more (a loop invariant lost to a time limit makes a later obligation fail), alone on the machine and with longer limits
    bud = {u: b for u, b, fs in units}; extra = None
    def undecided(r): return any(not o['ok'] for f in r['results'] for o in f['obligations']) or any('time budget' in f['reason'] for f in r['results'])
    if not hr.get('bad') and hr.get('built') and any(not o['ok'] for r in results for f in r['results'] for o in f['obligations']): extra = H.explore(pid, scratch, seed + 1000, 5, stop=150)
    for i, r in enumerate(results):
        left = 640 - (time.time() - t0)
        if not hr.get('bad') and not (extra or {}).get('bad') and undecided(r) and left > 60: results[i] = run_unit(pid, r['unit'], int(min(left, 2 * bud.get(r['unit'], 240))), 4)
    funcs = []; obls = []; failed = []; unsup = []; stats = {}
    for r in results:
        for k, v in r['stats'].items(): stats[k] = round(stats.get(k, 0) + v, 3)
        for f in r['results']:
            for o in f['obligations']:
                obls.append(o)
                if not o['ok']: failed.append((r['unit'], f['function'], f['file'], o))
            if f['status'] != 'ok': unsup.append((f['function'], f['reason']))
            funcs.append(dict(function=f['function'], file=f['file'], status='bounded stand-in: ' + f['reason'][:300] if f['status'] != 'ok' else 'proved' if all(o['ok'] for o in f['obligations']) else 'obligation failed',
                              obligations=len(f['obligations']), discharged=sum(o['ok'] for o in f['obligations']), loops_with_invariants=f['loops'], inlined=f['inlined'], seconds=f['secs']))
    viol = None
    if hr.get('bad'): viol = dict(kind='input', text=hr['bad'])
    elif (extra or {}).get('bad'): viol = dict(kind='input', text=extra['bad'])
    if not viol and failed: viol = dict(kind='obligation', text='')
    known = []
    nviol = 0
    rp = os.path.join('evidence', pid + '.replay.txt')
    if os.path.exists(rp): os.remove(rp)
    if viol:
        nviol = 1
        with open(os.path.join(HERE, rp), 'w') as fh:
            if viol['kind'] == 'input':
                fh.write(viol['text'].rstrip('\n') + '\n')
                if failed: 
                    fh.write('# ---- failed obligations of the proof\n')
                    for u, fn, fl, o in failed[:20]: fh.write('# %s (%s): %s [%s]\n' % (fn, fl, o['name'], o['how']))
                fh.write('# replay: python3 /verif/tools/harness.py --replay %s <this file>\n' % pid)
            else:
                fh.write('# property %s: proof obligations not discharged; no failing input found by the concrete driver\n' % pid)
                for u, fn, fl, o in failed[:40]: fh.write('obligation: %s\n  function: %s (%s)\n  where: %s\n  verifier: %s\n  %s\n' % (o['name'], fn, fl, o['where'], o['how'], o['detail']))
    nob, ndis = len(obls), sum(o['ok'] for o in obls)
    level = 'proof' if nob else 'exploration'
    backs = {}
    for o in obls:
        k = (o['how'] or '?').split(' ')[0]; backs[k] = backs.get(k, 0) + 1
    cov = dict(evaluations=hr.get('evaluations', 0) + (extra or {}).get('evaluations', 0), distinct_nontrivial=hr.get('distinct', 0), rule=cfg['rule'], samples=hr.get('samples', [])[:3])
    cov['bounded_driver'] = dict(note=hr.get('note', ''), role='supplies failing inputs; bounded stand-in for the functions listed as such', bound=cfg.get('bound', ''))
    if nob:
        cov.update(obligations=nob, discharged=ndis, checker_cmd='%s verifier/worker.py %s <unit> <seconds>' % (PY, pid), trusted_base=H.TRUSTED + cfg.get('trusted', []),
                   functions_under_contract=funcs, obligations_by_backend=backs, solver_seconds=stats.get('solver_s', 0), solver_queries=stats.get('queries', 0),
                   library_contracts_assumed=sorted({l for r in results for f in r['results'] for l in f['library']}))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=H.ASSUME + cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
    print('%s: %d functions under contract, %d obligations, %d discharged, %d functions by bounded stand-in; driver: %s; %.1f s' % (pid, len(funcs), nob, ndis, len(unsup), hr.get('note', ''), time.time() - t0))
    for fn, why in unsup: print('  bounded stand-in: %s (%s)' % (fn, why[:200]))
    for u, fn, fl, o in failed[:12]: print('  failed obligation: %s [%s] %s' % (o['name'], o['how'], fn))
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if viol['kind'] == 'input' else ' no-failing-input-found'))
        return 1
    if not nob and not hr.get('built'):
        print('no answer: ' + hr.get('note', '')); return 2
    return 0
if __name__ == '__main__': sys.exit(main())
