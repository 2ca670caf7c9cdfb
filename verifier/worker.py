"""Verify one unit of a specification file in this process and print a JSON result.
   usage: worker.py SPEC UNIT SECONDS"""
import sys, os, json, time, traceback, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(20000)
import z3
from verifier import cast, engine, prove as P, spec, models
from verifier.cast import Unsupported

def run_contract(c, unit, tus, deadline):
    prob = unit.get('problem'); prob = prob() if prob else None
    m = models.Models(prob)
    if prob is not None: prob.models = m
    ex = engine.Engine(tus, m, dict(unit.get('contracts', {})), opts=unit.get('opts'))
    ex.deadline = deadline
    if prob is not None and hasattr(prob, 'attach'): prob.attach(ex)
    ex.ghosts.update(unit.get('ghosts', {})); ex.ghosts.update(c.ghosts)
    res = dict(function=c.fullname(), file=c.file, status='ok', reason='', obligations=[], loops=0, inlined=[], library=[])
    t = time.time()
    try: c.verify(ex)
    except Unsupported as e: res['status'] = 'unsupported'; res['reason'] = str(e)
    except engine.ThrowPath: res['status'] = 'unsupported'; res['reason'] = 'every path throws'
    except (spec.NA, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, z3.Z3Exception) as e:
        res['status'] = 'unsupported'; res['reason'] = 'internal: %r' % (e,)
        if os.environ.get('VTRACE'): traceback.print_exc()
    res['obligations'] = [dict(name=o.name, ok=o.ok, how=o.how, secs=round(o.secs, 3), where=o.where, detail=o.detail[:2000]) for o in ex.obls]
    res['loops'] = ex.loops; res['inlined'] = sorted(ex.inlined); res['library'] = sorted(m.used) + sorted(ex.assumed_calls)
    res['secs'] = round(time.time() - t, 2)
    return res

def main():
    sp, un, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
    mod = importlib.import_module('specs.' + sp)
    unit = [u for u in mod.UNITS if u['name'] == un][0]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    t0 = time.time(); out = []; deadline = t0 + secs
    try:
        tus = [cast.TU(f, unit.get('fetch', {}).get(f, ())) for f in unit['files']]
        for f in unit.get('classes', ()): 
            for tu in tus: tu.fetch(f)
    except Unsupported as e:
        print(json.dumps(dict(unit=un, results=[dict(function=un, file=unit['files'][0], status='unsupported', reason=str(e), obligations=[], loops=0, inlined=[], library=[], secs=0)], stats=P.stats))); return
    if 'run' in unit:
        try: out += unit['run'](unit, tus)
        except Unsupported as e: out.append(dict(function=un, file=unit['files'][0], status='unsupported', reason=str(e), obligations=[], loops=0, inlined=[], library=[], secs=0))
    for c in unit['verify']:
        if only and only not in c.fullname(): continue
        out.append(run_contract(c, unit, tus, deadline))
    print('RESULT ' + json.dumps(dict(unit=un, results=out, stats=P.stats, secs=round(time.time() - t0, 2))))
if __name__ == '__main__': main()
