"""C06: zero-half cuts.  Rows are combined (divided by their common divisor), odd coefficients are weakened with bounds, everything is halved and the
   right-hand side rounded down.  X is an arbitrary integer point satisfying the integer rows and bounds."""
import z3
from verifier.spec import Contract
from verifier.engine import *
from verifier.problem import Problem, S
from verifier import prove as P, lemma
F = 'src/CglZeroHalf/Cgl012cut.cpp'; C = 'Cgl012Cut'
QV = z3.Const('QV', P.AI); QR = z3.Const('QR', P.AI)      # entries and right-hand sides after the division by the row's common divisor
CN = P.SumKind('cntnz', [P.AI], lambda a, k: z3.If(S(a[0], k) != 0, z3.RealVal(1), z3.RealVal(0)), lambda a, k: z3.RealVal(1), (0,))
class Pr(Problem):
    def more(self, ex):
        j = z3.Int('j?z'); ex.global_facts.append(z3.ForAll([j], z3.IsInt(S(self.X, j)), patterns=[S(self.X, j)]))
        a, b = z3.Ints('a?z b?z'); ex.global_facts.append(z3.ForAll([a, b], z3.Implies(b == 1, P.tdiv_f(a, b) == a), patterns=[P.tdiv_f(a, b)]))
G = dict(dis=lambda *a: P.DIS(*a), pis=lambda *a: P.PIS(*a), QV=QV, QR=QR, cn=lambda *a: CN(*a))
MC, MR = 'this.inp_ilp.mc', 'this.inp_ilp.mr'
def ds(a, n): return 'dis(%s, P_X, 0, %s)' % (a, n)
O = dict(lemmas=('absnl', 'termwise', 'int', 'half', 'dist'), prune=True, houdini_ms=1500, single=('ilp', 'parity_ilp', 'cut', 'cycle', 'info_weak'))
# columns that are not integer carry the lower bound COIN_INT_MAX; no row of the system contains one
IM = '2147483647'
BOX = 'forall(lambda j_: Implies(And(j_ >= 0, j_ < %s, this.inp_ilp.vlb[j_] != %s), And(ToReal(this.inp_ilp.vlb[j_]) <= P_X[j_], P_X[j_] <= ToReal(this.inp_ilp.vub[j_]))))' % (MC, IM)
def nzc(a): return 'forall(lambda j_: Implies(And(j_ >= 0, j_ < %s, this.inp_ilp.vlb[j_] == %s), %s[j_] == 0))' % (MC, IM, a)
BW = Contract('best_weakening', F, cls=C, requires=[], modifies=['*arg4', '*arg5', '*arg6', '*arg7'], ensures=[], ghosts=G)
CT = Contract('checkTimeLimit', F, cls=C, requires=[], modifies=['timeCheckCountdown_', 'timeLimitReached_'], ensures=[], ghosts=G)
EV = Contract('ensureVarsToWeakBufferCapacity', F, cls=C, requires=[], modifies=[], ensures=[], ghosts=G)
BC = Contract('best_cut', F, cls=C, requires=[MC + ' >= 0', BOX, nzc('arg0'), ds('arg0.arr', MC) + ' <= ToReal(arg1[0])'], modifies=['*arg0', '*arg1', '*arg2'], ensures=['Implies(And(result != 0, arg3 != 0), %s <= ToReal(arg1[0]))' % ds('arg0.arr', MC)], ghosts=G, opts=O, frame=False,
   inv=['$i >= 0', '$i <= ' + MC, ds('arg0.arr', MC) + ' <= ToReal(arg1[0])', "forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), 2 * arg0[q_] == pre('arg0.arr')[q_]))", "forall(lambda q_: Implies(q_ >= $i, arg0[q_] == pre('arg0.arr')[q_]))",
        'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), And(vars_to_weak[q_] >= 0, vars_to_weak[q_] < %s, this.inp_ilp.vlb[vars_to_weak[q_]] != %s)))' % (MC, IM), 'forall(lambda q_: Implies(And(q_ >= 0, q_ < n_to_weak), And(vars_to_weak[q_] >= 0, vars_to_weak[q_] < %s, this.inp_ilp.vlb[vars_to_weak[q_]] != %s)))' % (MC, IM)])
DC = Contract('define_cut', F, cls=C, requires=[MC + ' >= 0'], modifies=[], ensures=['ifptr(result, lambda r_: And(pis(r_.cval.arr, r_.cind.arr, P_X, 0, r_.cnzcnt) == %s, r_.crhs == arg1, r_.csense == 76))' % ds('arg0.arr', MC)], ghosts=G, opts=O, locs={'v_cut': 'cut *'},
   inv=['$i >= 0', '$i <= ' + MC, 'pis(v_cut.cval.arr, v_cut.cind.arr, P_X, 0, $i0) == dis(arg0.arr, P_X, 0, $i1)', 'v_cut.crhs == arg1', 'v_cut.csense == 76', 'ToReal($i0) == cn(arg0.arr, 0, $i1)', 'ToReal(v_cut.cnzcnt) == cn(arg0.arr, 0, %s)' % MC])
IL, PL = 'this.inp_ilp.', 'this.p_ilp.'
NZ = z3.Int('nnz'); ZVAL = z3.Const('returned_val', P.AI)
G['NNZ'] = NZ; G['ZVAL'] = lambda k: z3.Select(ZVAL, k)
# the rows after the division by their common divisor: entry k is QV[k]; the divided row holds for X with the right-hand side divided with truncation (unit "divide")
ENT = 'forall(lambda r_, k_: Implies(And(r_ >= 0, r_ < %s, k_ >= %smtbeg[r_], k_ < %smtbeg[r_] + %smtcnt[r_]), tdiv(%smtval[k_], %sgcd[r_]) == QV[k_]))' % (MR, IL, IL, IL, IL, PL)
ROWL = 'forall(lambda r_: Implies(And(r_ >= 0, r_ < %s, %smsense[r_] != 71), pis(QV, %smtind.arr, P_X, 0, %smtbeg[r_] + %smtcnt[r_]) - pis(QV, %smtind.arr, P_X, 0, %smtbeg[r_]) <= ToReal(tdiv(%smrhs[r_], %sgcd[r_]))))' % (MR, IL, IL, IL, IL, IL, IL, IL, PL)
ROWG = 'forall(lambda r_: Implies(And(r_ >= 0, r_ < %s, %smsense[r_] == 71), pis(QV, %smtind.arr, P_X, 0, %smtbeg[r_] + %smtcnt[r_]) - pis(QV, %smtind.arr, P_X, 0, %smtbeg[r_]) >= ToReal(tdiv(%smrhs[r_], %sgcd[r_]))))' % (MR, IL, IL, IL, IL, IL, IL, IL, PL)
RNG = 'forall(lambda r_: Implies(And(r_ >= 0, r_ < %s), And(%smtbeg[r_] >= 0, %smtcnt[r_] >= 0, %smtbeg[r_] + %smtcnt[r_] <= NNZ, %sgcd[r_] >= 1)))' % (MR, IL, IL, IL, IL, PL)
IND = 'forall(lambda k_: Implies(And(k_ >= 0, k_ < NNZ), And(%smtind[k_] >= 0, %smtind[k_] < %s, %svlb[%smtind[k_]] != %s)))' % (IL, IL, MC, IL, IL, IM)
DATA = [MC + ' >= 0', RNG, IND, ENT, ROWL, ROWG]
OC = Contract('get_ori_cut_coef', F, cls=C, requires=DATA + ['forall(lambda k_: Implies(And(k_ >= 0, k_ < arg0), And(arg1[k_] >= 0, arg1[k_] < %s)))' % MR], modifies=['*arg2', '*arg3'],
   ensures=['Implies(result != 0, %s <= ToReal(arg3[0]))' % ds('arg2.arr', MC), 'Implies(result != 0, %s)' % nzc('arg2')], ghosts=G, opts=dict(O, lemmas=('absnl', 'dist', 'zero'), houdini_ms=1500), locs={'h': 'int', 'i': 'int', 'begi': 'int', 'gcdi': 'int', 'ofsj': 'int'},
   inv=['$i >= 0', nzc('arg2'), ds('arg2.arr', MC) + ' <= ToReal(arg3[0])', "Implies(%smsense[i] != 71, %s == pre('%s') + (pis(QV, %smtind.arr, P_X, 0, begi + ofsj) - pis(QV, %smtind.arr, P_X, 0, begi)))" % (IL, ds('arg2.arr', MC), ds('arg2.arr', MC), IL, IL),
        "Implies(%smsense[i] == 71, %s == pre('%s') - (pis(QV, %smtind.arr, P_X, 0, begi + ofsj) - pis(QV, %smtind.arr, P_X, 0, begi)))" % (IL, ds('arg2.arr', MC), ds('arg2.arr', MC), IL, IL)])
def lem():
    g, s, r, t = z3.Ints('g s r t'); b, h = z3.Ints('b h'); V, Q, I_ = z3.Const('V', P.AI), z3.Const('Q', P.AI), z3.Const('I', P.AI); x = z3.Const('x', P.AR)
    tr = z3.And(z3.Implies(r >= 0, z3.And(t * g <= r, r < t * g + g, t >= 0)), z3.Implies(r < 0, z3.And(t * g >= r, r > t * g - g, t <= 0)))      # t is r / g with truncation
    f = lambda W, k: P.PIS(W, I_, x, z3.IntVal(0), k)
    v, q, gr = z3.Reals('v q gr')
    step = lambda W: f(W, h + 1) == f(W, h) + z3.ToReal(W[h]) * x[I_[h]]
    return [('dividing a row: g*s <= r with s an integer gives s <= r/g rounded towards zero', [g >= 1, g * s <= r, tr], [s <= t], [r >= 0, r < 0]),
            ('dividing a row: g*s >= r with s an integer gives s >= r/g rounded towards zero', [g >= 1, g * s >= r, tr], [s >= t], [r >= 0, r < 0]),
            ('dividing a row: the activity is g times the divided activity, step', [v == gr * q], [v + gr * z3.ToReal(Q[h]) * x[I_[h]] == gr * (q + z3.ToReal(Q[h]) * x[I_[h]])], None)]
GC = Contract('get_cut', F, cls=C, requires=DATA + [BOX, 'forall(lambda q_: arg0.edge_list[q_].constr < %s)' % MR], modifies=['timeCheckCountdown_', 'timeLimitReached_', 'errorNo'], ensures=['ifptr(result, lambda r_: And(pis(r_.cval.arr, r_.cind.arr, P_X, 0, r_.cnzcnt) <= ToReal(r_.crhs), r_.csense == 76))'], ghosts=G, opts=dict(O, lemmas=('absnl', 'dist', 'zero')), frame=False, locs={'v_cut': 'cut *', 'ncomb': 'int', 'comb': 'int *', 'ccoef': 'int *', 'i': 'int', 'e': 'int', 'crhs': 'int'},
   inv=['ncomb >= 0', 'forall(lambda k_: Implies(And(k_ >= 0, k_ < ncomb), And(comb[k_] >= 0, comb[k_] < %s)))' % MR])
TD = Contract('CoinGetTimeOfDay', None, requires=[], modifies=[], ensures=[], ghosts=G)
# ---- generateCuts: the bounds handed to the separation are those of the solver now, and each cut returned is passed on as it is
FZ = 'src/CglZeroHalf/CglZeroHalf.cpp'
class PrZ(Pr):
    def more(self, ex):
        super().more(ex); j = z3.Int('j?y'); M = 2147483647
        ex.global_facts.append(z3.ForAll([j], z3.And(S(self.X, j) >= -M, S(self.X, j) <= M), patterns=[S(self.X, j)]))
    def method(self, ex, st, cls, name, obj, args, e):
        if name == 'sep_012_cut':
            v = [ex.ev(a, st) for a in args]; arr = lambda k, t: ex.models.slice(ex, st, v[k], t, None); j = z3.Int('j?u')
            ex.oblige(st, ex.conv(v[1], 'int') == self.nC, 'the separation is told the number of columns of the model')
            lb, ub, x = S(arr(7, 'int'), j), S(arr(8, 'int'), j), S(self.X, j)
            ex.oblige(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.nC, lb != 2147483647), z3.And(z3.ToReal(lb) <= x, x <= z3.ToReal(ub)))), 'the bounds handed to the separation hold for every point within the bounds of the solver')
            me = ex.frame.this
            for k, f, t in ((3, 'mtbeg_', 'int'), (4, 'mtcnt_', 'int'), (5, 'mtind_', 'int'), (6, 'mtval_', 'int'), (9, 'mrhs_', 'int'), (10, 'msense_', 'char')):
                g, r, i, p = me.alts[0]; q = ex.read(ex.entry, Ptr([(g, r, i, (p + '.' if p else '') + f)]), t + ' *'); a = ex.only(q)
                ex.oblige(st, arr(k, t) == ex.load(ex.entry, a[1], a[3], t), 'the separation gets the stored rows unchanged (%s)' % f)
            n = z3.Int('returned_n'); st.assume(n >= 0); ex.write(st, v[13], 'int', n); ex.write(st, v[14], 'int', ex.fresh('cnz', Int)); self.ret = {}
            for k, f, t in ((15, 'beg', 'int'), (16, 'cnt', 'int'), (17, 'ind', 'int'), (18, 'val', 'int'), (19, 'rhs', 'int'), (20, 'sense', 'char')):
                r = ex.region(('cuts', f), 'returned ' + f, True, t); ex.write(st, v[k], t + ' *', ptr(r)); r.const = True; ex.init.setdefault((r.id, ''), ZVAL if f == 'val' else z3.Const('returned_' + f, P.AI)); ex.keyty[(r.id, '')] = (t, r); self.ret[f] = ex.load(st, r, '', t)
            self.ret['n'] = n; q = z3.Int('q?c'); s = S(self.ret['sense'], q); st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(S(self.ret['cnt'], q) >= 0, z3.Or(s == 76, s == 71))), patterns=[S(self.ret['cnt'], q)]))
            return ex.fresh('sep', Int)
        if name == 'setMaxSeconds':
            for a in args: ex.ev(a, st)
            return I(0)
        return super().method(ex, st, cls, name, obj, args, e)
    def on_rowcut(self, ex, st, cs, c):
        m = ex.models; n, ia, ea = m.get(ex, st, c, 'n', 'int'), m.geta(ex, st, c, 'ind', 'int'), m.geta(ex, st, c, 'el', 'double'); lb, ub = m.get(ex, st, c, 'lb', 'double'), m.get(ex, st, c, 'ub', 'double')
        i, j = z3.Ints('i?r j?r'); R_ = self.ret; big = R('1e+300'); rh = z3.ToReal(S(R_['rhs'], i)); b = S(R_['beg'], i)
        same = z3.And(i >= 0, i < R_['n'], n == S(R_['cnt'], i), z3.If(S(R_['sense'], i) == 76, z3.And(ub == rh, lb <= -big), z3.And(lb == rh, ub >= big)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(S(ia, j) == S(R_['ind'], b + j), S(ea, j) == z3.ToReal(S(R_['val'], b + j))))))
        ex.oblige(st, z3.Exists([i], same), 'the cut added is one of the cuts the separation returned, with its indices, coefficients, side and right-hand side')
BZ = 'forall(lambda j_: Implies(And(j_ >= 0, j_ < %s, this.vlb_[j_] != 2147483647), And(ToReal(this.vlb_[j_]) <= P_X[j_], P_X[j_] <= ToReal(this.vub_[j_]))))'
GZ = Contract('generateCuts', FZ, cls='CglZeroHalf', requires=['this.mc_ == P_nC', 'Implies(this.flags_ %% 2 == 1, %s)' % (BZ % 'P_nC')], ensures=[], ghosts=G, frame=False, locs={'element': 'double *', 'start': 'int'}, opts=dict(O, lemmas=('absnl',)),
   inv=['$i >= 0', BZ % '$i', 'forall(lambda q_: Implies(And(q_ >= 0, q_ < $i), element[q_] == ToReal(ZVAL(start + q_))))'])
U = dict(contracts={'Cgl012Cut::best_weakening': BW, 'Cgl012Cut::checkTimeLimit': CT, 'Cgl012Cut::ensureVarsToWeakBufferCapacity': EV, 'CoinGetTimeOfDay': TD}, files=[F], classes=[C], problem=Pr)
UG = dict(U, contracts=dict(U['contracts'], **{'Cgl012Cut::get_ori_cut_coef': OC, 'Cgl012Cut::best_cut': BC, 'Cgl012Cut::define_cut': DC}))
UNITS = [dict(U, name='best', verify=[BC], budget=150), dict(U, name='define', verify=[DC], budget=100), dict(U, name='combine', verify=[OC], budget=300), dict(U, name='time', verify=[CT, EV], budget=20), dict(UG, name='cycle', verify=[GC], budget=100), dict(U, name='generate', verify=[GZ], files=[FZ], classes=['CglZeroHalf'], problem=PrZ, budget=60), dict(U, name='divide', verify=[], run=lemma.unit('a row divided by the common divisor of its entries', F, lem), budget=40)]
