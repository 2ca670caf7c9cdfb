"""C11: recorded implications.  Contracts of the probing store over an arbitrary 0-1 point X that satisfies what was recorded."""
import z3
from verifier.spec import Contract, View, evalf
from verifier.engine import *
from verifier.cast import TU, ty
from verifier.problem import Problem, S
from verifier import prove as P
F = 'src/CglCommon/CglTreeInfo.cpp'; G = 'src/CglCommon/CglStored.cpp'; CL = 'CglTreeProbingInfo'
TOP = 1 << 31
OK = z3.Function('RECORDED', Int, Int, Bool)        # any set of (fixing word, implied word) pairs that contains every recorded pair
def fp(p, f): return Ptr([(g, r, i, (q + '.' + f) if q else f) for g, r, i, q in p.alts])
class Pr(Problem):
    """a solver interface whose column bounds may be changed: every new bound must admit X"""
    def more(self, ex):
        for f in ('cl', 'cu'): ex.regions[('osi', f)].const = False
        ex.ghosts['RECORDED'] = OK
    def method(self, ex, st, cls, name, obj, args, e):
        if 'OsiSolverInterface' in cls and name in ('setColLower', 'setColUpper') and len(args) == 2:
            j = ex.conv(ex.ev(args[0], st), 'int'); v = ex.conv(ex.ev(args[1], st), 'double'); x = S(self.X, j); f = 'cl' if name == 'setColLower' else 'cu'
            ex.oblige(st, z3.And(j >= 0, j < self.nC, x >= v if f == 'cl' else x <= v), 'a bound set by %s admits every point that satisfies the recorded implications' % name)
            reg = ex.regions[('osi', f)]; ex.store(st, reg, '', 'double', z3.Store(ex.load(st, reg, '', 'double'), j, v)); return I(0)
        return super().method(ex, st, cls, name, obj, args, e)
def setup(at=None):
    """the arrays of the store, and X: 0-1 on the recorded columns, satisfying every listed implication"""
    def go(ex, st, fr):
        o = fr.this if at is None else ptr(ex.region(('probing',), 'probing', False, CL))
        if at is not None:
            g, r, i, p = fp(fr.this, at).alts[0]; st.store[ex.keyfor(r, p, CL + ' *')] = o
            st.store[ex.keyfor(ex.regions[('probing',)], 'numberEntries_', 'int')] = I(-2)
        reg = {}
        for f, t in (('fixEntry_', 'CliqueEntry'), ('toZero_', 'int'), ('toOne_', 'int'), ('integerVariable_', 'int'), ('backward_', 'int')):
            reg[f] = ex.region(('tp', f), f, True, t, ex.named(f + '.size', Int))
            g, r, i, p = fp(o, f).alts[0]; st.store[ex.keyfor(r, p, t + ' *')] = ptr(reg[f])
        pr = ex.models.problem; n01 = ex.read(st, fp(o, 'numberIntegers_'), 'int')
        fix = ex.load(st, reg['fixEntry_'], 'fixes', 'unsigned int'); tz, to, iv = [ex.load(st, reg[f], '', 'int') for f in ('toZero_', 'toOne_', 'integerVariable_')]
        v, j = z3.Int('v?'), z3.Int('j?'); inv = z3.And(v >= 0, v < n01); e = S(fix, j); s = e % TOP; one = e >= TOP; X = pr.X
        ex.ghosts.update(N01=n01, FIX=fix, TZ=tz, TO=to, IV=iv)
        st.assume(n01 >= 0)
        st.assume(z3.ForAll([v], z3.Implies(inv, z3.And(S(iv, v) >= 0, S(iv, v) < pr.nC, z3.Or(S(X, S(iv, v)) == 0, S(X, S(iv, v)) == 1))), patterns=[S(iv, v)]))
        b = lambda a: z3.Or(a == 0, a == 1)
        st.assume(z3.ForAll([v], z3.Implies(inv, z3.And(b(S(pr.cl, S(iv, v))), b(S(pr.cu, S(iv, v))))), patterns=[S(iv, v)]))
        st.assume(z3.ForAll([j], z3.And(e >= 0, e < 2 * TOP), patterns=[e]))
        if at is None:      # packed: only 0-1 columns are implied
            hold = S(X, S(iv, s)) == z3.If(one, R(1), R(0)); st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S(tz, n01)), s < n01), patterns=[e]))
        else: hold = z3.If(s < n01, S(X, S(iv, s)) == z3.If(one, R(1), R(0)), S(X, s - n01) == z3.If(one, S(pr.cu, s - n01), S(pr.cl, s - n01)))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < S(tz, n01)), s < n01 + pr.nC), patterns=[e]))
        for lo, hi, w in ((S(tz, v), S(to, v), 0), (S(to, v), S(tz, v + 1), 1)):
            st.assume(z3.ForAll([v, j], z3.Implies(z3.And(inv, j >= lo, j < hi, S(X, S(iv, v)) == w), hold), patterns=[z3.MultiPattern(S(iv, v), e)]))
        st.assume(S(tz, 0) == 0)
        st.assume(z3.ForAll([v], z3.Implies(inv, z3.And(S(tz, v) >= 0, S(tz, v) <= S(to, v), S(to, v) <= S(tz, v + 1), S(tz, v + 1) <= S(tz, n01))), patterns=[S(to, v)]))
        st.assume(z3.ForAll([v], z3.Implies(inv, z3.And(S(tz, v) >= 0, S(tz, v) <= S(to, v), S(to, v) <= S(tz, v + 1), S(tz, v + 1) <= S(tz, n01))), patterns=[S(tz, v)]))
    return go
def np(n): return lambda f: len(TU.params(f)) == n
# a column implied by an entry of the list has been fixed
def applied(sc):
    ex = sc.ex; g = ex.ghosts; fix, iv = g['FIX'], g['IV']
    cl, cu = [ex.load(sc.st, ex.regions[('osi', f)], '', 'double') for f in ('cl', 'cu')]
    def f(lo, hi):
        j = P.fresh('j', Int); k = S(iv, S(fix, j) % TOP)
        return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), z3.Not(z3.And(S(cl, k) == 0, S(cu, k) == 1))))
    return f
applied._scoped = True
def bounds(sc):
    """current bounds lie within the ones at entry and admit X"""
    ex = sc.ex; pr = ex.models.problem; j = P.fresh('j', Int)
    cl, cu = [ex.load(sc.st, ex.regions[('osi', f)], '', 'double') for f in ('cl', 'cu')]
    b = z3.And(S(cl, j) >= S(pr.cl, j), S(cu, j) <= S(pr.cu, j), z3.Or(S(cl, j) == S(pr.cl, j), z3.And(S(cl, j) == 1, S(pr.X, j) >= 1)), z3.Or(S(cu, j) == S(pr.cu, j), z3.And(S(cu, j) == 0, S(pr.X, j) <= 0)))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < pr.nC), b))
bounds._scoped = True
def marks(sc):
    """bit 0 of a mark: X is 1 there; bit 1: X is 0 there"""
    ex = sc.ex; g = ex.ghosts; X = ex.models.problem.X
    def f(v):
        out = []
        for c, r, idx, path in v._p.alts:
            if r is None: continue
            a = ex.load(sc.st, r, path, 'char'); q = P.fresh('q', Int); m = S(a, q); x = S(X, S(g['IV'], q))
            out.append(z3.Implies(c, idx[-1] == 0)); out.append(z3.Implies(c, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < g['N01']), z3.And(m >= 0, m <= 3, z3.Implies(z3.Or(m == 1, m == 3), x == 1), z3.Implies(m >= 2, x == 0))))))
        return z3.And(out) if out else TRUE
    return f
marks._scoped = True
GH = dict(MARKS=marks, APPLIED=applied, BOUNDS=bounds, TOP=TOP)
FIXINV = ['BOUNDS', '$i >= 0', '$i <= numberIntegers_', 'feasible', 'Implies(And(jColumn >= 0, jColumn < N01), APPLIED(TZ[jColumn], $i))', 'Implies(And(jColumn >= 0, jColumn < N01), APPLIED(TO[jColumn], $i))',
          'Implies(And(jColumn >= 0, jColumn < N01), And($i >= TZ[jColumn], $i <= TO[jColumn]))', 'Implies(And(jColumn >= 0, jColumn < N01), And($i >= TO[jColumn], $i <= TZ[jColumn + 1]))']
def fixed1(sc):
    ex = sc.ex; st0 = ex.entry; g = ex.ghosts; back = ex.load(st0, ex.regions[('tp', 'backward_')], '', 'int')
    c, v = evalf(ex, st0, 'arg0'), evalf(ex, st0, 'arg1'); jc = S(back, c); f = applied(sc)
    return z3.Implies(jc >= 0, z3.And(z3.Implies(v == 0, f(S(g['TZ'], jc), S(g['TO'], jc))), z3.Implies(v != 0, f(S(g['TO'], jc), S(g['TZ'], jc + 1)))))
fixed1.__name__ = 'every column implied by the fixing is fixed afterwards'
def boundspost(sc): return bounds(sc)
boundspost.__name__ = 'bounds only move where a recorded implication puts them'
FX1 = Contract('fixColumns', F, cls=CL, pred=np(3), setup=setup(), requires=['arg0 >= 0', 'arg0 < P_nC', 'Or(arg1 == 0, arg1 == 1)', 'Implies(this.backward_.arr[arg0] >= 0, And(this.backward_.arr[arg0] < N01, IV[this.backward_.arr[arg0]] == arg0, P_X[arg0] == ToReal(arg1)))'],
               inv=FIXINV, ensures=['result != -1', fixed1, boundspost], locs={'feasible': 'bool', 'jColumn': 'int'}, ghosts=GH, opts=dict(prune=True, houdini_ms=700))
def allinv(sc):
    ex = sc.ex; g = ex.ghosts; pr = ex.models.problem; f = applied(sc)
    def h(i):
        v = P.fresh('v', Int); j = P.fresh('j', Int); c = S(g['IV'], v); k = S(g['IV'], S(g['FIX'], j) % TOP)
        cl, cu = [ex.load(sc.st, ex.regions[('osi', b)], '', 'double') for b in ('cl', 'cu')]
        inl = z3.Or(z3.And(S(pr.cu, c) == 0, j >= S(g['TZ'], v), j < S(g['TO'], v)), z3.And(S(pr.cl, c) == 1, S(pr.cu, c) == 1, j >= S(g['TO'], v), j < S(g['TZ'], v + 1)))
        return z3.ForAll([v, j], z3.Implies(z3.And(v >= 0, v < i, inl), z3.Not(z3.And(S(cl, k) == 0, S(cu, k) == 1))), patterns=[z3.MultiPattern(c, S(g['FIX'], j))])
    return h
allinv._scoped = True
def fixedall(sc): return allinv(sc)(sc.ex.ghosts['N01'])
fixedall.__name__ = 'every column implied by a column fixed at entry is fixed afterwards'
FX2 = Contract('fixColumns', F, cls=CL, pred=np(1), setup=setup(), inv=FIXINV + ['DONE($i)', 'DONE(jColumn)'], ensures=['result != -1', boundspost, fixedall], locs={'feasible': 'bool', 'jColumn': 'int'}, ghosts=dict(GH, DONE=allinv), opts=dict(prune=True, houdini_ms=700))
GEN = Contract('generateCuts', F, cls=CL, setup=setup(), locs={'fixed': 'char *'}, ghosts=GH,
               inv=['$i >= 0', '$i <= N01', 'jColumn < N01', '$i >= TZ[jColumn]', '$i <= TO[jColumn]', '$i >= TO[jColumn]', '$i <= TZ[jColumn + 1]', '$v.n >= 0',
                    'forall(lambda q_: Implies(And(q_ >= 0, q_ < lbs.n), And(lbs.el[q_] == 1, P_X[lbs.ind[q_]] >= 1)))', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < ubs.n), And(ubs.el[q_] == 0, P_X[ubs.ind[q_]] <= 0)))',
                    'MARKS(fixed)', 'Implies(numberFixed > 0, fixed.nonnull)', 'numberFixed >= 0', 'Implies(fixed.nonnull, numberFixed > 0)'], opts=dict(lemmas=('termwise', 'absnl', 'unit'), prune=True, houdini_ms=700))
STO = Contract('generateCuts', G, cls='CglStored', setup=setup('probingInfo_'), requires=['forall(lambda q_: Implies(And(q_ >= 0, q_ < P_nC), And(P_cl[q_] <= P_X[q_], P_X[q_] <= P_cu[q_])))'], ghosts=GH, inv=['$i >= 0', '$i <= N01', '$i >= TZ[i]', '$i <= TO[i]', '$i >= TO[i]', '$i <= TZ[i + 1]'], opts=dict(lemmas=('termwise', 'absnl', 'unit'), prune=True, houdini_ms=700))
class PrS(Pr):
    """cuts that come from the store itself are the subject of C10"""
    def on_rowcut(self, ex, st, cs, c):
        if ex.only(c)[1].name.startswith('this'): return
        return super().on_rowcut(ex, st, cs, c)
UNITS = [dict(name='fix1', files=[F], classes=[CL], verify=[FX1], problem=Pr, budget=200), dict(name='fixall', files=[F], classes=[CL], verify=[FX2], problem=Pr, budget=200),
         dict(name='cuts', files=[F], classes=[CL], verify=[GEN], problem=Pr, budget=250), dict(name='stored', files=[G, F], classes=['CglStored', CL], verify=[STO], problem=PrS, budget=250)]
