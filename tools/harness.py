"""Builds the concrete drivers from /repo's current sources in a scratch directory and runs them."""
import os, sys, subprocess, time, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
NPROC = 8
TRUSTED = ['clang 18 front end (AST of the real translation unit)', 'verifier/*.py (symbolic execution, sum axioms)', 'z3 5.3 / cvc5 1.4', 'assumed contracts of CoinUtils/Osi/libstdc++ in verifier/models.py']
ASSUME = ['double arithmetic treated as real arithmetic; int arithmetic as mathematical integers, except where an obligation states a bound',
          'no NaN in problem data; library calls behave as in verifier/models.py', 'pointers received as separate parameters do not alias unless the contract says so']
CF = ['-O1', '-g', '-DNDEBUG', '-DHAVE_CONFIG_H', '-DCGLLIB_BUILD', '-ffunction-sections', '-fdata-sections', '-w', '-I' + HERE + '/tools/config', '-I' + REPO + '/src/CglCommon', '-I/usr/include/coin']
D = {'SIMPLE': 'SimpleRounding', 'CLIQUE': 'Clique', 'ODDHOLE': 'OddHole', 'MIR': 'MixedIntegerRounding', 'REDSPLIT': 'RedSplit', 'ZEROHALF': 'ZeroHalf', 'KNAPSACK': 'KnapsackCover', 'ALLDIFF': 'AllDifferent', 'LAP': 'LiftAndProject', 'DUPROW': 'DuplicateRow', 'STORED': ''}
MIPRULE = 'small random MIPs (families per generator, histories of 8 calls on one generator object); non-trivial: the instance had an LP optimum and at least one generated cut was checked against every feasible integer point'
PROPS = {}
def prop(pid, gens=(), driver=None, count=40000, rule=MIPRULE, **k): PROPS[pid] = dict(gens=list(gens), driver=driver, count=count, rule=rule, **k)
B = 'at most 9 columns and 9 rows, integer boxes of at most 30000 points, per generator family in harness/drive.cpp'
prop('C01', ['SIMPLE'], count=48000, bound=B)
prop('C02', ['CLIQUE'], count=48000, bound=B)
prop('C03', ['ODDHOLE'], count=48000, bound=B)
prop('C04', ['MIR'], count=48000, bound=B)
prop('C05', ['REDSPLIT'], count=48000, bound=B)
prop('C06', ['ZEROHALF'], count=48000, bound=B)
prop('C07', ['KNAPSACK'], count=48000, bound=B)
prop('C08', ['ALLDIFF'], count=48000, bound=B)
prop('C14', ['LAP'], count=16000, bound=B)

def d12(scratch):
    import importlib.util
    sys.path.insert(0, HERE); from tools import gen12
    src = open(os.path.join(HERE, 'specs', 'C12.py')).read(); i = src.index('G0 ='); j = src.index('CP ='); ns = {}
    exec(src[i:j], ns)
    f = os.path.join(scratch, 'c12.cpp'); open(f, 'w').write(gen12.generate(ns['TABLE']))
    dirs = gen12.DIRS; only = []
    for s in sources([d for d in dirs if d not in ('GMI', 'RedSplit2', 'LandP')]): only.append(s)
    only += [os.path.join(REPO, 'src', x) for x in ('CglGMI/CglGMIParam.cpp', 'CglRedSplit2/CglRedSplit2Param.cpp', 'CglLandP/CglLandPValidator.cpp', 'CglLandP/CglLandPMessages.cpp')]
    return build(scratch, 'c12', dirs, f, only=only)
prop('C12', driver=d12, count=400000, rule='random histories of up to 12 setter calls with boundary values on every parameter class; every getter compared after each call', bound='histories of at most 12 calls, 32 boundary values')
def caser(src, dirs, files=(), defs=(), extra=()):
    def mk(scratch):
        only = sources([d for d in dirs if d not in ('GMI', 'RedSplit2', 'LandP')]) + [os.path.join(REPO, 'src', f) for f in files]
        return build(scratch, src[:-4], dirs, os.path.join(HERE, 'harness', src), defs, only=only, flags=extra)
    return mk
VAL = ['CglLandP/CglLandPValidator.cpp', 'CglLandP/CglLandPMessages.cpp']
prop('C10', driver=caser('stored.cpp', []), count=160000, rule='random histories of adding (all four overloads), saving, copying and generating on one cut store, compared with a plain list', bound='at most 6 columns, 14 operations')
prop('C11', driver=caser('probing.cpp', []), count=120000, rule='random implications over 0-1, integer and continuous columns; sorted and packed lists, fixColumns, generateCuts, the cuts of CglStored and the rows of analyze compared with the recorded list', bound='at most 14 columns, 260 implications, 3 applications')
def d13(scratch):
    src = open(os.path.join(HERE, 'specs', 'C12.py')).read(); i = src.index('G0 ='); j = src.index('CP ='); ns = {}; exec(src[i:j], ns)
    sys.path.insert(0, HERE); from tools import gen12
    o = ['template <class C, class B, class R, class T> void call(C &o, R (B::*f)(T), double v) { typedef typename std::decay<T>::type V; try { (o.*f)(static_cast<V>(v)); } catch (CoinError &) {} }']
    for cls, f, lst in ns['TABLE']:
        if cls in ('CglCutGenerator', 'Cgl012Cut', 'Validator', 'CglClique', 'CglStored'): continue
        l2 = [e for e in lst if e[0] not in ('setMode',)]
        o.append('static void rnd(%s &o, Rng &r) { typedef %s C; switch (r.in(0, %d)) { %s } }' % (cls, cls, len(l2) - 1, ' '.join('case %d: call(o, &C::%s, val(r)); break;' % (k, e[0]) for k, e in enumerate(l2))))
        o.append('static void shw(OS &o, %s &c) { %s }' % (cls, ' '.join('put(o, "%s", c.%s());' % (e[2], e[1][0] if isinstance(e[1], tuple) else e[1]) for e in lst if e[1])))
    o.append('static void shwset(CglZeroHalf &g, Rng &r) { rnd(g, r); if (r.chance(40)) g.setSepGraphSparseThreshold(r.pick({ 0, 3, 2500, 10 })); if (r.chance(40)) g.setRowMaxPairCount(r.in(1, 500)); if (r.chance(40)) g.setRowMaxFractionalCount(r.in(1, 30)); }')
    open(os.path.join(scratch, 'copies_tables.inc'), 'w').write('\n'.join(o) + '\n')
    dirs = gen12.DIRS + ['SimpleRounding']; only = sources([d for d in dirs if d not in ('GMI', 'RedSplit2', 'LandP')])
    only += [os.path.join(REPO, 'src', x) for x in ('CglGMI/CglGMIParam.cpp', 'CglRedSplit2/CglRedSplit2Param.cpp', 'CglLandP/CglLandPValidator.cpp', 'CglLandP/CglLandPMessages.cpp')]
    return build(scratch, 'copies', dirs, os.path.join(HERE, 'harness', 'copies.cpp'), only=only, extra_inc=['-I' + scratch], flags=['-fsanitize=address', '-fno-omit-frame-pointer', '-std=c++17'])
prop('C13', driver=d13, count=48000, rule='random configurations of 20 classes copied, cloned, assigned over another object or to themselves; one side changed and destroyed; getters, generateCpp text and cuts on small instances compared', bound='configurations of at most 6 changes, instances as in the other drivers')
prop('C15', ['SIMPLE', 'CLIQUE', 'ODDHOLE', 'MIR', 'REDSPLIT', 'ZEROHALF', 'KNAPSACK', 'ALLDIFF', 'LAP', 'DUPROW', 'STORED'], count=9600, defs=['-DFRAME'], bound=B, rule='small random MIPs per generator, 8 calls on one generator object; row and column cuts in the collection before; collection, model and solution compared before and after')
prop('C16', driver=caser('validator.cpp', ['LandP'], VAL), count=240000, rule='random cuts, boxes, limits, 1 to 4 calls on one validator; the accepted cut compared with the given one over the box', bound='at most 6 columns, 4 calls')
def sources(dirs):
    out = []
    for d in ['Common'] + list(dirs):
        p = os.path.join(REPO, 'src', 'Cgl' + d)
        out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith('.cpp') and 'Test' not in f]
    return out
def libs():
    r = subprocess.run(['pkg-config', '--libs', 'osi-clp'], capture_output=True, text=True)
    return r.stdout.split()
def build(scratch, name, dirs, driver, defs=(), only=None, extra_inc=(), flags=()):
    """compile the generator directories and link the driver; returns (exe, error)"""
    od = os.path.join(scratch, 'o_' + name); os.makedirs(od, exist_ok=True)
    inc = ['-I' + os.path.join(REPO, 'src', 'Cgl' + d) for d in dirs] + list(extra_inc)
    srcs = only if only is not None else sources(dirs)
    def comp(s):
        o = os.path.join(od, os.path.basename(s) + '.o')
        r = subprocess.run(['g++'] + CF + list(flags) + inc + ['-c', s, '-o', o], capture_output=True, text=True)
        return (o, None) if r.returncode == 0 else (None, os.path.basename(s) + ': ' + r.stderr[:400])
    with cf.ThreadPoolExecutor(max_workers=NPROC) as p: res = list(p.map(comp, srcs))
    objs = [o for o, e in res if o]; errs = [e for o, e in res if e]
    exe = os.path.join(scratch, name)
    r = subprocess.run(['g++'] + CF + list(flags) + inc + ['-I' + os.path.join(HERE, 'harness')] + list(defs) + [driver] + objs + ['-o', exe, '-Wl,--gc-sections'] + libs(), capture_output=True, text=True)
    if r.returncode: return None, '; '.join(errs) + ' link: ' + r.stderr[:600]
    return exe, None
_built = {}
def exe_for(pid, g, scratch):
    key = (pid, g)
    if key in _built: return _built[key]
    cfg = PROPS[pid]
    if cfg['driver']: r = cfg['driver'](scratch)
    else: r = build(scratch, 'drive_' + g, [D[g]] if D[g] else [], os.path.join(HERE, 'harness', 'drive.cpp'), ['-DG_' + g] + list(cfg.get('defs', ())))
    _built[key] = r
    return r
def shard(exe, g, seed, count, limit, cwd):
    cmd = [exe, g.lower(), str(seed), str(count)]
    tr = os.path.join(cwd, 'trace_%s_%d' % (g, seed))
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit, cwd=cwd, env=dict(os.environ, DRIVE_TRACE=tr), errors='replace')
    except subprocess.TimeoutExpired: return dict(out='', bad=None, timeout=True)
    if r.returncode == 0: return dict(out=r.stdout, bad=None)
    if r.returncode == 1: return dict(out=r.stdout, bad=r.stdout)
    t = open(tr).read() if os.path.exists(tr) else ''
    return dict(out='', bad='# generator %s crashed (exit %d) on the following instance (seed %d)\n%s' % (g, r.returncode, seed, t))
def explore(pid, scratch, seed, mult=1, stop=420):
    cfg = PROPS[pid]; t0 = time.time(); ev = cuts = 0; bad = None; samples = []; notes = []; built = True
    with cf.ThreadPoolExecutor(max_workers=4) as p: list(p.map(lambda g: exe_for(pid, g, scratch), cfg['gens'] or ['X']))
    for g in (cfg['gens'] or ['X']):
        exe, err = exe_for(pid, g, scratch)
        if not exe: built = False; notes.append('%s: driver does not build: %s' % (g, err)); continue
        per = cfg['count'] * mult // NPROC // 8 * 8
        with cf.ThreadPoolExecutor(max_workers=NPROC) as p:
            rs = list(p.map(lambda k: shard(exe, g, seed * 100 + k, per, max(20, stop - (time.time() - t0)), scratch), range(NPROC)))
        for r in rs:
            if r['bad'] and not bad: bad = r['bad']
            for l in r['out'].splitlines():
                w = l.split()
                if l.startswith('explored '): ev += int(w[1]); cuts += int(w[3])
                elif l.startswith('sample ') and len(samples) < 3: samples.append(l[7:])
            if r.get('timeout'): notes.append('a shard ran out of time')
    return dict(built=built, bad=bad, evaluations=ev, distinct=cuts, samples=samples, note='%d instances, %d cuts or cases checked%s' % (ev, cuts, ('; ' + '; '.join(notes)) if notes else ''))

if __name__ == '__main__':
    if len(sys.argv) > 3 and sys.argv[1] == '--replay':
        import tempfile
        pid, f = sys.argv[2], os.path.abspath(sys.argv[3])
        sc = tempfile.mkdtemp(prefix='cglr_', dir='/tmp')
        try:
            g = (PROPS[pid]['gens'] or ['X'])
            txt = open(f).read()
            for x in g:
                if len(g) > 1 and ('generator ' + x.lower()) not in txt: continue
                exe, err = exe_for(pid, x, sc)
                if not exe: print(err); sys.exit(2)
                r = subprocess.run([exe, x.lower(), '--replay', f]); sys.exit(r.returncode)
        finally: shutil.rmtree(sc, ignore_errors=True)
