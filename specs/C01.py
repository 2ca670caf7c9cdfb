"""C01: simple rounding.  Each function's contract states what it guarantees for an arbitrary feasible point X."""
import z3
from verifier.spec import Contract
from verifier.engine import *
from verifier.problem import Problem, S
from verifier import prove as P
F = 'src/CglSimpleRounding/CglSimpleRounding.cpp'
DECI = z3.Function('DECI', Real, Int, Bool)      # v * 10^p is an integer
DECOK = z3.Function('DECOK', Real, Bool)         # v >= 0 is exact with respect to the scaling tolerance
POS = z3.Function('POS', Int, Int, Int)          # position of a column in a row
LIM = R(2147483647)
class Pr(Problem):
    exact = True
    def more(self, ex):
        g = ex.global_facts; v, w = z3.Real('v?'), z3.Real('w?'); p, q, r, k = z3.Int('p?'), z3.Int('q?'), z3.Int('r?'), z3.Int('k?')
        g.append(z3.ForAll([v, p, q], z3.Implies(z3.And(DECI(v, p), p >= 0, p <= q), DECI(v, q)), patterns=[z3.MultiPattern(DECI(v, p), DECI(v, q))]))
        g.append(z3.ForAll([r, k], z3.Implies(z3.And(r >= 0, r < self.nR, k >= 0, k < S(self.len, r)), POS(r, S(S(self.J, r), k)) == k), patterns=[S(S(self.J, r), k)]))
        self.eps = z3.Const('EPS', Real); g.append(z3.And(self.eps > 0, self.eps < 1))
        if self.exact:
            tol = self.eps * R('1e-4'); m = P.pow10(p); t = v * m; fr = t - z3.ToReal(z3.ToInt(t))
            g.append(z3.ForAll([v, p], z3.Implies(z3.And(DECOK(v), p >= 0, p <= 15, t <= LIM, z3.Or(fr < tol * m, 1 - fr < tol * m)), DECI(v, p)), patterns=[z3.MultiPattern(DECOK(v), P.pow10(p))]))
            g.append(z3.ForAll([v, p], z3.Implies(DECI(v, p), z3.IsInt(v * P.pow10(p))), patterns=[DECI(v, p)]))
        ex.ghosts.update(DECI=DECI, DECOK=DECOK, POS=POS, EPS=self.eps, SGN=lambda r, v: z3.If(S(self.sense, r) == ord('G'), -v, v))
class PrD(Pr): exact = False      # the meaning of DECOK is not needed
class PrG(Problem):
    def more(self, ex):
        v, p = z3.Real('v?'), z3.Int('p?')
        self.eps = z3.Const('EPS', Real); ex.global_facts.append(z3.And(self.eps > 0, self.eps < 1))
        y = v * P.pow10(p)
        ex.global_facts.append(z3.ForAll([v, p], z3.Implies(DECI(v, p), z3.And(z3.ToReal(z3.ToInt(y + R('1/2'))) == y)), patterns=[DECI(v, p)]))
        ex.ghosts.update(DECI=DECI, DECOK=DECOK, POS=POS, EPS=self.eps)
RAW = ['arg1 >= 0', 'arg1 < P_nR', 'arg2.n == P_len[arg1]', 'arg2.ind == P_J[arg1]', 'arg2.el == P_A[arg1]', 'this.epsilon_ == EPS', 'forall(lambda j_: Implies(And(j_ >= 0, j_ < P_nC), Not(arg5.arr[j_])))',
       # data: stored coefficients are not within the zero tolerance, and exact with respect to the scaling tolerance; a column fixed within the tolerance is fixed
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < P_len[arg1]), And(absr(P_A[arg1][q_]) > EPS, DECOK(absr(P_A[arg1][q_])))))',
       'forall(lambda j_: Implies(And(j_ >= 0, j_ < P_nC, P_isint[j_] != 0, P_cu[j_] - P_cl[j_] < EPS), And(P_cu[j_] == P_cl[j_], P_cl[j_] > -INF, P_cu[j_] < INF)))']
POST = ['Implies(result, And(arg3.n >= 1, sps(arg3.el, arg5, arg3.ind, P_X, 0, arg3.n) <= arg4))',
        'Implies(result, forall(lambda q_: Implies(And(q_ >= 0, q_ < arg3.n), And(arg3.el[q_] > 0, DECOK(arg3.el[q_]), arg3.ind[q_] >= 0, arg3.ind[q_] < P_nC, P_isint[arg3.ind[q_]] != 0))))',
        'Implies(result, forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < arg3.n), arg3.ind[a_] != arg3.ind[b_])))',
        'Implies(result, forall(lambda j_: Implies(And(j_ >= 0, j_ < P_nC, arg5.arr[j_]), z3.Exists([K], And(K >= 0, K < arg3.n, arg3.ind[K] == j_)))))',
        'Implies(Not(result), forall(lambda j_: Implies(And(j_ >= 0, j_ < P_nC), Not(arg5.arr[j_]))))',
        'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg3.n), And(arg3.ind[q_] >= 0, arg3.ind[q_] < P_nC)))']
INV = ['$v.n >= 0', '$v.n <= $i',
       'ps($v.el, $v.ind, P_X, 0, $v.n) + SGN(arg1, ROW(arg1) - ps(P_A[arg1], P_J[arg1], P_X, 0, $i)) <= arg4',
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < $v.n), And(absr($v.el[q_]) > EPS, DECOK(absr($v.el[q_])), $v.ind[q_] >= 0, $v.ind[q_] < P_nC, P_isint[$v.ind[q_]] != 0)))',
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < $v.n), And(POS(arg1, $v.ind[q_]) < $i, P_J[arg1][POS(arg1, $v.ind[q_])] == $v.ind[q_])))',
       'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < $v.n), $v.ind[a_] != $v.ind[b_]))',
       # signs
       'sps(arg3.el, arg5, arg3.ind, P_X, 0, arg3.n) <= arg4',
       'forall(lambda q_: Implies(And(q_ >= $i, q_ < arg3.n), Not(arg5.arr[arg3.ind[q_]])))',
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg3.n), DECOK(absr(arg3.el[q_]))))',
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg3.n), absr(arg3.el[q_]) > EPS))',
       'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), arg3.el[q_] > 0))',
       'forall(lambda j_: Implies(And(j_ >= 0, j_ < P_nC, arg5.arr[j_]), z3.Exists([K], And(K >= 0, K < $i, arg3.ind[K] == j_))))']
DER = Contract('deriveAnIntegerRow', F, cls='CglSimpleRounding', requires=RAW, modifies=['arg3.*', 'arg4', '*arg5'], ensures=POST, inv=INV, frame=True, opts=dict(lemmas=('termwise', 'absnl'), merge_scalars=0, prune=True))
GCD = Contract('gcd', F, cls='CglSimpleRounding', requires=['arg0 > 0', 'arg1 > 0'], ensures=['result > 0', "dvd(result, old('arg0'))", "dvd(result, old('arg1'))"], frame=True)
GCDV = Contract('gcdv', F, cls='CglSimpleRounding', requires=['arg0 >= 1', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg0), arg1.arr[q_] > 0))'],
                ensures=['result > 0', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg0), dvd(result, arg1.arr[q_])))'],
                locs={'retval': 'int'}, inv=['retval > 0', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), dvd(retval, arg1.arr[q_])))', '$i <= arg0'], frame=True)
POW = Contract('power10ToMakeDoubleAnInt', F, cls='CglSimpleRounding', requires=['arg2 == EPS * R("1e-4")', 'arg0 >= 0', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg0), And(arg1.arr[q_] > 0, DECOK(arg1.arr[q_]))))'],
               ensures=['result <= 15', 'Implies(result >= 0, forall(lambda q_: Implies(And(q_ >= 0, q_ < arg0), And(DECI(arg1.arr[q_], result), arg1.arr[q_] * pow10(result) <= R(2147483647)))))'],
               locs={'multiplier': 'double[16]', 'maxPower': 'int'}, inv=['$i <= arg0', 'Implies(And($i >= 0, $i < 16), multiplier.arr[$i] == pow10($i))', '$i <= 15', '$i <= 16', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), DECI(arg1.arr[q_], $i2)))', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), arg1.arr[q_] * pow10(maxPower) <= R(2147483647)))'], frame=True, opts=dict(lemmas=('absnl', 'p10'), prune=True))
GEN = Contract('generateCuts', F, cls='CglSimpleRounding', requires=['this.epsilon_ == EPS'] + [
       'forall(lambda r_, q_: Implies(And(r_ >= 0, r_ < P_nR, q_ >= 0, q_ < P_len[r_]), And(absr(P_A[r_][q_]) > EPS, DECOK(absr(P_A[r_][q_])))))', RAW[-1]],
       inv=['forall(lambda j_: Implies(And(j_ >= 0, j_ < $i), Not($b.arr[j_])))', 'forall(lambda j_: Implies(And(j_ >= 0, j_ < P_nC), Not($b.arr[j_])))',
            'forall(lambda j_: Implies(And(j_ >= 0, j_ < P_nC, $b.arr[j_]), z3.Exists([K], And(K >= $i, K < irow.n, irow.ind[K] == j_))))',
            '$i <= irow.n', 'cut.n == $i',
            'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), And(ToReal($I.arr[q_]) == irow.el[q_] * pow10(power), $I.arr[q_] > 0)))',
            'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), And(ToReal(gcd) * cut.el[q_] == ToReal($I.arr[q_]), IsInt(cut.el[q_]), cut.ind[q_] == irow.ind[q_])))',
            'forall(lambda q_: Implies(And(q_ >= 0, q_ < cut.n), And(ToReal(gcd) * cut.el[q_] == If(And(q_ < $i, $b.arr[cut.ind[q_]]), -ToReal(xInt.arr[q_]), ToReal(xInt.arr[q_])), IsInt(cut.el[q_]))))'],
       locs={'irow': 'CoinPackedVector', 'cut': 'CoinPackedVector', 'power': 'int<-power10ToMakeDoubleAnInt', 'gcd': 'int<-gcdv', 'xInt': 'int *'}, opts=dict(lemmas=('termwise', 'int', 'scale', 'prod', 'absnl'), auto_pairs=False, houdini_ms=800, prune=True))
CT = {'CglSimpleRounding::deriveAnIntegerRow': DER, 'CglSimpleRounding::gcdv': GCDV, 'CglSimpleRounding::power10ToMakeDoubleAnInt': POW, 'CglSimpleRounding::gcd': GCD}
U = dict(files=[F], classes=['CglSimpleRounding'], contracts=CT, problem=Pr, ghosts=dict(K=z3.Int('K?')))
UNITS = [dict(U, name='derive', verify=[DER], problem=PrD, budget=300), dict(U, name='gcd', verify=[GCD, GCDV], problem=PrD, budget=120), dict(U, name='pow', verify=[POW], budget=300), dict(U, name='generate', verify=[GEN], problem=PrG, budget=300)]
