"""C16: the cut validator.  X is any point within the variable bounds used by the call; the cut as given is sum el0*x >= lb0."""
import z3
from verifier.spec import Contract
from verifier.engine import *
from verifier.problem import Problem, S
from verifier import prove as P
F = 'src/CglLandP/CglLandPValidator.cpp'
NL, NU = z3.Bool('origLower_given'), z3.Bool('origUpper_given')
def nul(ex, st, fr):
    """the bound arrays may be given or not; X lies within the bounds that apply"""
    b = []
    for k, (n, si) in ((4, (NL, 'cl')), (5, (NU, 'cu'))):
        p = TU.params(fr.func)[k]; lv, t = fr.env[p['id']]; v = ex.read(st, lv, t)
        reg = v.alts[0][1]; g, r, i, q = lv.alts[0]
        st.store[ex.keyfor(r, q, t)] = Ptr([(n, reg, (I(0),), ''), (z3.Not(n), None, (I(0),), '')])
        b.append((n, ex.load(st, reg, '', 'double'), getattr(ex.models.problem, si)))
    X = ex.models.problem.X; j = P.fresh('j', Int)
    (nl, ol, sl), (nu, ou, su) = b
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ex.models.problem.nC), z3.And(z3.If(nl, S(ol, j), S(sl, j)) <= S(X, j), S(X, j) <= z3.If(nu, S(ou, j), S(su, j)))), patterns=[S(X, j)]))
from verifier.cast import TU
class Pr(Problem):
    def attach(self, ex):
        super().attach(ex)
        # X is not required to satisfy the rows, bounds and integrality the solver reports
        ex.global_facts[:] = [f for f in ex.global_facts if not any(d in str(f) for d in ('X', ))]
        P.extra[:] = []
        x, y = z3.Real('x?t'), z3.Real('y?t'); c = R('1e-20')     # arithmetic fact, in the form the solver can use
        ex.global_facts.append(z3.ForAll([x, y], z3.Implies(y > 0, z3.And(z3.Implies(x > c, P.mul_f(x, y) > c * y), z3.Implies(x < -c, P.mul_f(x, y) < -c * y), z3.Implies(x == 0, P.mul_f(x, y) == 0))), patterns=[P.mul_f(x, y)]))
REQ = ['arg0.ub > R("1e50")', 'arg0.n >= 0', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg0.n), And(arg0.ind[q_] >= 0, arg0.ind[q_] < P_nC)))',
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg0.n), Or(arg0.el[q_] == 0, absr(arg0.el[q_]) > R("1e-20"))))', 'this.maxRatio_ >= 1', 'arg3.EPS >= 0']
V = 'VIO(arg0.n, arg0.ind, arg0.el, arg0.lb, arg0.ub, arg1.arr)'
NR = 'this.numRejected_.a'
def ens(strict):
    return ["Implies(And(result == 0, ps(old('arg0.el'), old('arg0.ind'), P_X, 0, old('arg0.n')) >= old('arg0.lb')), ps(arg0.el, arg0.ind, P_X, 0, arg0.n) >= arg0.lb)",
       'Implies(result == 0, And(arg0.n >= 1, arg0.n <= MAXNZ, %s >= this.minViolation_))' % V,
       'Implies(result == 0, forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < arg0.n, b_ >= 0, b_ < arg0.n%s), absr(arg0.el[a_]) <= this.maxRatio_ * absr(arg0.el[b_]))))' % ('' if strict else ', arg0.el[b_] != 0'),
       'Implies(result == 1, %s < this.minViolation_)' % V,
       'And(result >= 0, result <= 5)', 'arg0.ub == old("arg0.ub")',
       "forall(lambda k_: Implies(And(k_ >= 0, k_ < 6), %s[k_] == old('%s')[k_] + If(And(k_ == result, result != 0), 1, 0)))" % (NR, NR)] + (
       ['Implies(result == 0, forall(lambda q_: Implies(And(q_ >= 0, q_ < arg0.n), absr(arg0.el[q_]) > arg3.EPS)))'] if strict else [])
def maxnz(sc):
    ex = sc.ex; v = ex.read(ex.entry, ex.fld(ex.frame.this, 'maxFillIn_'), 'double') * z3.ToReal(ex.models.problem.nC)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
maxnz._scoped = True
G = dict(VIO=lambda *a: Models.VIO(*a), MAXNZ=maxnz)
from verifier.models import Models
SAME = "forall(lambda k_: Implies(And(k_ >= 0, k_ < 6), %s[k_] == old('%s')[k_]))" % (NR, NR)
LOC = {'offset': 'int', 'rhs': 'double', 'smallest': 'double', 'biggest': 'double'}
INV = ['offset >= 0', 'offset <= $i',
       "Implies(ps(old('arg0.el'), old('arg0.ind'), P_X, 0, arg0.n) >= old('arg0.lb'), ps(arg0.el, arg0.ind, P_X, 0, $i - offset) + ps(old('arg0.el'), old('arg0.ind'), P_X, 0, arg0.n) - ps(old('arg0.el'), old('arg0.ind'), P_X, 0, $i) >= rhs)",
       "forall(lambda q_: Implies(And(q_ >= $i, q_ < arg0.n), And(arg0.el[q_] == old('arg0.el')[q_], arg0.ind[q_] == old('arg0.ind')[q_])))",
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i - offset), And(absr(arg0.el[q_]) > arg3.EPS, absr(arg0.el[q_]) >= smallest, absr(arg0.el[q_]) <= biggest)))',
       'Or($i == offset, biggest <= this.maxRatio_ * smallest)', SAME, 'biggest >= 0', 'smallest >= 0']
CL = Contract('cleanCut', F, cls='Validator', setup=nul, requires=REQ, modifies=['arg0.*', 'this.numRejected_.*'], ensures=ens(True), inv=INV, locs=LOC, ghosts=G, frame=False, opts=dict(lemmas=('termwise', 'absnl'), merge_scalars=0, prune=True))
# second method: scaled by t = rhsScale / biggest > 0, then small coefficients dropped at a bound
S0 = "ps(old('arg0.el'), old('arg0.ind'), P_X, 0, arg0.n) >= old('arg0.lb')"
BIG = ['offset >= 0', 'offset <= $i', 'smallest >= 0', 'biggest >= smallest', 'biggest > 0', 'toBeBiggest > 0',
       "forall(lambda q_: Implies(And(q_ >= $i, q_ < arg0.n), arg0.el[q_] == old('arg0.el')[q_]))", "forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), arg0.el[q_] == old('arg0.el')[q_] * toBeBiggest))"]
INV2 = BIG + [SAME, "forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), Or(arg0.el[q_] == 0, absr(arg0.el[q_]) > R('1e-20') * toBeBiggest)))",
        "Implies(ps(pre('arg0.el'), pre('arg0.ind'), P_X, 0, arg0.n) >= pre('rhs'), ps(arg0.el, arg0.ind, P_X, 0, $i - offset) + ps(pre('arg0.el'), pre('arg0.ind'), P_X, 0, arg0.n) - ps(pre('arg0.el'), pre('arg0.ind'), P_X, 0, $i) >= rhs)",
        "forall(lambda q_: Implies(And(q_ >= $i, q_ < arg0.n), And(arg0.el[q_] == pre('arg0.el')[q_], arg0.ind[q_] == pre('arg0.ind')[q_])))"]
E2 = ens(False); RQ2 = REQ + ['this.rhsScale_ > 0', 'arg0.lb != R("1e-10")']; L2 = dict(LOC, toBeBiggest='double', myTiny='double')
CL2 = Contract('cleanCut2', F, cls='Validator', setup=nul, requires=RQ2, modifies=['arg0.*', 'this.numRejected_.*'], ensures=E2[:2] + E2[3:], inv=INV2, locs=L2, ghosts=G, opts=dict(lemmas=('termwise', 'absnl', 'dv'), post_lemmas=('scalediv',), merge_scalars=0, prune=True, houdini_ms=2000))
UNITS = [dict(name='cleanCut', files=[F], classes=['Validator', 'CglParam'], verify=[CL], problem=Pr, budget=300),
         dict(name='cleanCut2', files=[F], classes=['Validator', 'CglParam'], verify=[CL2], problem=Pr, budget=300)]
