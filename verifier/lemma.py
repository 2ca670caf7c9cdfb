"""Lemma units: stand-alone arithmetic lemmas discharged by z3 on every run."""
import time, z3
def unit(title, file, items):
    """items: list of (name, hypotheses, goals, case split or None)"""
    def run(u, tus):
        obs = []
        for name, hyp, goals, split in items():
            t = time.time(); ok = True; how = []
            for cs in (split or [z3.BoolVal(True)]):
                for g in goals:
                    s = z3.Solver(); s.set('timeout', 20000); s.add(hyp + [cs, z3.Not(g)]); v = s.check(); how.append(str(v)); ok = ok and v == z3.unsat
            obs.append(dict(name=name, ok=ok, how='z3', secs=round(time.time() - t, 3), where='lemma', detail='' if ok else str(how)))
        return [dict(function='lemma: ' + title, file=file, status='ok', reason='', obligations=obs, loops=0, inlined=[], library=[], secs=sum(o['secs'] for o in obs))]
    return run
