"""C10: the cut store keeps what it is given and returns exactly the stored cuts that are violated."""
import z3
from verifier.spec import Contract, View, evalf
from verifier.engine import *
from verifier.cast import Unsupported, TU, ty
from verifier.models import Models
from verifier import prove as P
F = 'src/CglCommon/CglStored.cpp'
FLD = [f for f, _, _ in Models.FIELDS['cut']]
KEEP = [f for f in FLD if f not in ('eff', 'glob')]      # what the property calls the cut: coefficients and bounds
def fp(p, f): return Ptr([(g, r, i, (q + '.' + f) if q else f) for g, r, i, q in p.alts])
def store(sc): return fp(sc.ex.frame.this, 'cuts_')
def rows(sc, st, o, f): return sc.ex.models.rowarr(sc.ex, st, o, f)
def nrow(sc, st, o): return sc.ex.models.get(sc.ex, st, o, 'nrow', 'int')
def prefix(ex, st, st0, o, n):
    """the first n rows of collection o are what they were in state st0"""
    k = P.fresh('k', Int); m = ex.models
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And([z3.Select(m.rowarr(ex, st, o, f), k) == z3.Select(m.rowarr(ex, st0, o, f), k) for f in FLD])))
def same(ex, st, o, k, cut, st0, n=None):
    """row k of o is the given cut (fields name -> value); arrays compared over the n entries"""
    m = ex.models; gs = []
    for f in KEEP:
        a, b = z3.Select(m.rowarr(ex, st, o, f), k), cut[f]
        if f in ('ind', 'el'):
            j = P.fresh('j', Int); gs.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cut['n']), z3.Select(a, j) == z3.Select(b, j))))
        else: gs.append(a == b)
    return z3.And(gs)
def par(sc, i):
    f = sc.ex.frame.func; p = TU.params(f)[i]; return sc.ex.frame.env[p['id']], ty(p)
def pval(sc, i):
    (lv, t), pt = par(sc, i); return sc.ex.read(sc.ex.entry, lv, t)
def stored_one(cutof):
    def post(sc):
        ex, st, o, st0 = sc.ex, sc.st, store(sc), sc.ex.entry
        n0 = nrow(sc, st0, o)
        return z3.And(nrow(sc, st, o) == n0 + 1, prefix(ex, st, st0, o, n0), same(ex, st, o, n0, cutof(sc), st0))
    post.__name__ = 'the store grows by exactly this cut, earlier cuts unchanged'
    return post
def frompointers(sc):
    ex = sc.ex; m = ex.models; n = pval(sc, 2)
    return dict(lb=pval(sc, 0), ub=pval(sc, 1), n=n, ind=m.slice(ex, sc.st, pval(sc, 3), 'int', n), el=m.slice(ex, sc.st, pval(sc, 4), 'double', n))
def fromvector(sc):
    ex = sc.ex; m = ex.models; (v, t), _ = par(sc, 2); st = ex.entry
    return dict(lb=pval(sc, 0), ub=pval(sc, 1), n=m.get(ex, st, v, 'n', 'int'), ind=m.geta(ex, st, v, 'ind', 'int'), el=m.geta(ex, st, v, 'el', 'double'))
def fromcut(sc):
    ex = sc.ex; m = ex.models; (v, t), _ = par(sc, 0); st = ex.entry
    return {f: (m.geta if ar else m.get)(ex, st, v, f, ft) for f, ft, ar in m.FIELDS['cut']}
def ptypes(*ts):
    def pred(f): return [strip(unref(ty(p))).split('::')[-1] for p in TU.params(f)] == list(ts)
    return pred
def rowsame(m, ex, st, a, i, st2, b, j):
    return z3.And([z3.Select(m.rowarr(ex, st, a, f), i) == z3.Select(m.rowarr(ex, st2, b, f), j) for f in KEEP])
# ---- adding a collection: invariant over the number of rows taken so far
def other(sc):
    (v, t), _ = par(sc, 0); return v
def addall(sc, n, st):
    ex, o, st0 = sc.ex, store(sc), sc.ex.entry; m = ex.models; n0 = nrow(sc, st0, o); k = P.fresh('k', Int)
    return z3.And(nrow(sc, st, o) == n0 + n, prefix(ex, st, st0, o, n0),
                  z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), rowsame(m, ex, st, o, n0 + k, st0, other(sc), k))))
def addinv(sc):
    return lambda i: addall(sc, i, sc.st)
def addpost(sc): return addall(sc, nrow(sc, sc.ex.entry, other(sc)), sc.st)
addpost.__name__ = 'the store grows by exactly the rows of the collection, in order'
# ---- generation: what is added is stored, and what is stored and violated is added
def vio(sc, k):
    ex, st0, o = sc.ex, sc.ex.entry, store(sc); g = lambda f: z3.Select(rows(sc, st0, o, f), k)
    return Models.VIO(g('n'), g('ind'), g('el'), g('lb'), g('ub'), sc.ex.ghosts['SOL'])
def gen(sc, n, st):
    ex, o, st0 = sc.ex, store(sc), sc.ex.entry; m = ex.models; (cs, t), _ = par(sc, 1)
    n0 = nrow(sc, st0, cs); n1 = nrow(sc, st, cs); a = P.fresh('a', Int); b = P.fresh('b', Int); c = P.fresh('c', Int); d = P.fresh('d', Int)
    req = ex.read(st0, fp(ex.frame.this, 'requiredViolation_'), 'double')
    only = z3.ForAll([a], z3.Implies(z3.And(a >= n0, a < n1), z3.Exists([b], z3.And(b >= 0, b < n, rowsame(m, ex, st, cs, a, st0, o, b)))))
    all_ = z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < n, vio(sc, c) > req), z3.Exists([d], z3.And(d >= n0, d < n1, rowsame(m, ex, st, cs, d, st0, o, c)))))
    return z3.And(n1 >= n0, prefix(ex, st, st0, cs, n0), only), all_
def geninv(which):
    def g(sc): return lambda i: gen(sc, i, sc.st)[which]
    g._scoped = True
    return g
addinv._scoped = True
def genpost(which, name):
    def post(sc): return gen(sc, nrow(sc, sc.ex.entry, store(sc)), sc.st)[which]
    post.__name__ = name; return post
class Si:
    """the solver interface as far as the store reads it: the solution"""
    def method(self, ex, st, cls, name, obj, args, e):
        if cls == 'OsiSolverInterface' and name == 'getColSolution':
            return ptr(ex.region(('SOL',), 'SOL', True, 'double'))
        return NotModelled
    def call(self, *a): return NotModelled
    def operator(self, *a): return NotModelled
    def attach(self, ex): ex.ghosts['SOL'] = z3.Const('SOL', P.AR)
def noprobe(ex, st, fr):
    lv = fp(fr.this, 'probingInfo_'); g, r, i, p = lv.alts[0]; st.store[ex.keyfor(r, p, 'CglTreeProbingInfo *')] = NULL
    st.assume(ex.models.get(ex, st, fp(fr.this, 'cuts_'), 'nrow', 'int') >= 0)
def nonneg(ex, st, fr): st.assume(ex.models.get(ex, st, fp(fr.this, 'cuts_'), 'nrow', 'int') >= 0)
A = [Contract('addCut', F, cls='CglStored', pred=ptypes('double', 'double', 'int', 'int *', 'double *'), setup=nonneg, requires=[lambda sc: pval2(sc, 2) >= 0], ensures=[stored_one(frompointers)]),
     Contract('addCut', F, cls='CglStored', pred=ptypes('double', 'double', 'CoinPackedVector'), setup=nonneg, ensures=[stored_one(fromvector)]),
     Contract('addCut', F, cls='CglStored', pred=ptypes('OsiRowCut'), setup=nonneg, ensures=[stored_one(fromcut)]),
     Contract('addCut', F, cls='CglStored', pred=ptypes('OsiCuts'), setup=nonneg, inv=['ADDED($i)', 'ADDED(numberRowCuts)'], ghosts={'ADDED': addinv}, ensures=[addpost]),
     Contract('generateCuts', F, cls='CglStored', setup=noprobe, inv=['SO($i)', 'ALL($i)'], ghosts={'SO': geninv(0), 'ALL': geninv(1)}, ensures=[genpost(0, 'only stored cuts are added, cuts already there are kept'), genpost(1, 'every stored cut violated by more than required is added')])]
def pval2(sc, i):
    p = TU.params(sc.ex.frame.func)[i]; lv, t = sc.ex.frame.env[p['id']]; return sc.ex.read(sc.st, lv, t)
# ---- saved solution and bounds
def fld(sc, f, st): return sc.ex.read(st, fp(sc.ex.frame.this, f), {'numberColumns_': 'int'}.get(f, 'double *'))
def block(sc, st, p, off, st0, q, n):
    """n elements at p+off in state st equal those at q in state st0"""
    a, b = sc.ex.only(p), sc.ex.only(q); k = P.fresh('k', Int)
    x, y = sc.ex.load(st, a[1], a[3], 'double'), sc.ex.load(st0, b[1], b[3], 'double')
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(x, a[2][-1] + off + k) == z3.Select(y, b[2][-1] + k)))
def saved(sc):
    ex, st, st0 = sc.ex, sc.st, sc.ex.entry; n = fld(sc, 'numberColumns_', st0); sol, bnd = fld(sc, 'bestSolution_', st), fld(sc, 'bounds_', st)
    arg = pval(sc, 1); nn = ex.tobool(arg)
    gs = [fld(sc, 'numberColumns_', st) == n, ex.tobool(sol) == nn, ex.tobool(bnd), block(sc, st, bnd, I(0), st0, pval(sc, 2), n), block(sc, st, bnd, n, st0, pval(sc, 3), n)]
    for p in (sol, bnd):
        for g, r, i, q in p.alts:
            if r is not None: gs.append(z3.Implies(g, z3.And(z3.BoolVal(r.fresh), z3.Not(st.store.get((r.id, '#freed'), FALSE)), r.size >= (n + 1 if p is sol else 2 * n))))
    s = [a for a in sol.alts if a[1] is not None]
    if s:
        p = Ptr([(TRUE,) + s[0][1:]])
        src = [a for a in arg.alts if a[1] is not None]
        gs.append(z3.Implies(nn, z3.And(block(sc, st, p, I(0), st0, Ptr([(TRUE,) + src[0][1:]]), n), ex.read(st, ex.padd(p, n), 'double') == pval(sc, 0))))
    return z3.And(gs)
saved.__name__ = 'solution, objective and bounds are kept exactly'
def nullsol(ex, st, fr):
    p = TU.params(fr.func)[1]; lv, t = fr.env[p['id']]; g, r, i, q = lv.alts[0]; v = ex.read(st, lv, t); b = z3.Const('nosolution', Bool)
    st.store[ex.keyfor(r, q, t)] = Ptr([(b, None, (I(0),), ''), (z3.Not(b),) + v.alts[0][1:]])
def own(ex, st, fr):
    for f in ('bestSolution_', 'bounds_'):
        g, r, i, q = fp(fr.this, f).alts[0]; b = z3.Const(f + 'null', Bool)
        st.store[ex.keyfor(r, q, 'double *')] = Ptr([(b, None, (I(0),), ''), (z3.Not(b), ex.region((r.id, f, '*'), f, True, 'double'), (I(0),), '')])
def best(sc):
    ex, st = sc.ex, sc.ex.entry; p = fld(sc, 'bestSolution_', st); n = fld(sc, 'numberColumns_', st)
    return z3.And(z3.Implies(ex.tobool(p), sc['result'] == ex.read(st, ex.padd(p, n), 'double')))
best.__name__ = 'the saved objective'
def ptrresult(f, off):
    def post(sc):
        ex, st = sc.ex, sc.ex.entry; p = fld(sc, f, st)
        return ex.ptrop('==', sc['result'], ex.padd(p, off(sc)), sc.st)
    post.__name__ = 'points at ' + f; return post
both = lambda *fs: (lambda ex, st, fr: [f(ex, st, fr) for f in fs])
SV = [Contract('saveStuff', F, cls='CglStored', setup=both(nullsol, own), requires=['this.numberColumns_ > 0'], ensures=[saved]),
      Contract('bestObjective', F, cls='CglStored', setup=own, ensures=[best], frame=True),
      Contract('bestSolution', F, cls='CglStored', setup=own, ensures=[ptrresult('bestSolution_', lambda sc: I(0))], frame=True),
      Contract('tightLower', F, cls='CglStored', ensures=[ptrresult('bounds_', lambda sc: I(0))], frame=True),
      Contract('tightUpper', F, cls='CglStored', ensures=[ptrresult('bounds_', lambda sc: fld(sc, 'numberColumns_', sc.ex.entry))], frame=True)]
UNITS = [dict(name='store', files=[F], classes=['CglStored'], verify=A + SV, problem=Si, budget=200)]
