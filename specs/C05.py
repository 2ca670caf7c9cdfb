"""C05: reduce-and-split.  Contracts of the functions that turn a row of the reduced tableau into a cut, and the
   lemma that the coefficients they guarantee give an inequality satisfied by every point (mixed integer Gomory)."""
import z3
from verifier.spec import Contract
from verifier.engine import *
from verifier.problem import Problem, S
from verifier import prove as P
F = 'src/CglRedSplit/CglRedSplit.cpp'; C = 'CglRedSplit'
GS = P.SumKind('gsum', [P.AR, P.AI, P.AR], lambda a, k: S(a[0], S(a[1], k)), lambda a, k: S(a[2], S(a[1], k)), (1,))
EX = z3.Function('EXACT', Real, Bool)      # numerically exact: a value that the tolerance takes for an integer is one
def exdef(sc):
    e = sc.ex; eps = e.read(sc.st, e.fld(e.frame.this, 'param.EPS'), 'double')
    def f(v):
        n = P.floor(v + R('1/2')); return EX(v) == z3.Implies(P.absr(n - v) < eps * (P.absr(n) + 1), v == P.floor(v))
    return f
exdef._scoped = True
def cint(r, f0):
    """upper limit of the coefficient of a nonbasic integer variable in the cut"""
    f = r - P.floor(r); return z3.If(f > f0, P.floor(r) + (f - f0) / (1 - f0), P.floor(r))
def ccon(r, f0): return z3.If(r < 0, r / (1 - f0), z3.RealVal(0))
def dint(r, f0):
    f = r - P.floor(r); return z3.If(f > f0, -(f0 / (1 - f0)) * (1 - f), -f)
def dcon(r, f0): return z3.If(r < 0, r * (f0 / (1 - f0)), -r)
BL, BU = z3.Const('bound_lower', P.AR), z3.Const('bound_upper', P.AR)
G = dict(EX=EX, EXDEF=exdef, cint=cint, dint=dint, dcon=dcon, ccon=ccon, frac=lambda v: v - P.floor(v), cps=lambda *a: CPS(*a), gs=lambda a, b, c, l, h: GS(a, b, c, l, h), BL=BL, BU=BU)
NI, NC_ = 'this.card_intNonBasicVar', 'this.card_contNonBasicVar'
IV, CV, UP, LO = 'this.intNonBasicVar', 'this.contNonBasicVar', 'this.nonBasicAtUpper', 'this.nonBasicAtLower'
def rng(n, b): return 'forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), %s))' % (n, b)
def dist(n, a): return 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < %s), %s[a_] != %s[b_]))' % (n, a, a)
SETS = [NI + ' >= 0', NC_ + ' >= 0', dist(NI, IV), dist(NC_, CV), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < %s, b_ >= 0, b_ < %s), %s[a_] != %s[b_]))' % (NI, NC_, IV, CV)]
RQ = SETS + [rng(NI, 'EX(arg0[%s[q_]])' % IV), 'EX(arg1[0])', 'this.param.away_ > 0', 'this.param.EPS > 0']
F0 = "frac(old('arg1[0]'))"
OTHER = "forall(lambda j_: Implies(And(forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), j_ != %s[q_])), forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), j_ != %s[q_]))), arg0[j_] == old('arg0.arr')[j_]))" % (NI, IV, NC_, CV)
def body(ci, cc):
    done = lambda hi, a, e: rng(hi, e % dict(r="old('arg0.arr')[%s[q_]]" % a, n='arg0[%s[q_]]' % a, f=F0))
    keep = lambda lo, hi, a: "forall(lambda q_: Implies(And(q_ >= %s, q_ < %s), arg0[%s[q_]] == old('arg0.arr')[%s[q_]]))" % (lo, hi, a, a)
    en = ['Implies(result != 0, And(%s > 0, %s < 1))' % (F0, F0), 'Implies(result != 0, %s)' % done(NI, IV, ci), 'Implies(result != 0, %s)' % done(NC_, CV, cc), OTHER]
    inv = [done('$i', IV, ci), done('$i', CV, cc), done(NI, IV, ci), keep('$i', NI, IV), keep('$i', NC_, CV), keep('0', NC_, CV), '$i >= 0', '$i <= ' + NI, '$i <= ' + NC_, OTHER, "arg1[0] == old('arg1[0]')"]
    return en, inv
e1, i1 = body('%(n)s <= cint(%(r)s, %(f)s)', '%(n)s <= ccon(%(r)s, %(f)s)')
CG = Contract('generate_cgcut', F, cls=C, requires=RQ, modifies=['*arg0', '*arg1'], ensures=e1 + ["Implies(result != 0, arg1[0] >= floor(old('arg1[0]')))", 'Or(result == 0, result == 1)'], inv=i1, ghosts=G, opts=dict(lemmas=('absnl',), prune=True, houdini_ms=1500))
e2, i2 = body('%(n)s <= dint(%(r)s, %(f)s)', '%(n)s <= dcon(%(r)s, %(f)s)')
CG2 = Contract('generate_cgcut_2', F, cls=C, requires=[r.replace('arg1', 'arg2').replace('arg0', 'arg1') for r in RQ], modifies=['*arg1', '*arg2'],
      ensures=[r.replace('arg1', 'arg2').replace('arg0', 'arg1') for r in e2] + ["Implies(result != 0, arg2[0] >= floor(old('arg2[0]')) - old('arg2[0]'))"], inv=[r.replace('arg1', 'arg2').replace('arg0', 'arg1') for r in i2], ghosts=G, opts=dict(lemmas=('absnl',), prune=True, houdini_ms=1500))
AB = Contract('rs_above_integer', F, cls=C, requires=['EX(arg0)'], ensures=['result == arg0 - floor(arg0)'], ghosts=G, frame=True)
ABV = Contract('rs_above_integer', F, cls=C, requires=['EX(arg0)', 'EXDEF(arg0)'], ensures=['result == arg0 - floor(arg0)'], ghosts=G, frame=True, opts=dict(lemmas=('absnl',), prune=True))
U = dict(contracts={'CglRedSplit::rs_above_integer': AB}, files=[F], classes=[C, 'CglRedSplitParam', 'CglParam'], problem=Problem)
NU, NL = 'this.card_nonBasicAtUpper', 'this.card_nonBasicAtLower'
UNC = "forall(lambda j_: Implies(forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), j_ != %s[q_])), arg0[j_] == old('arg0.arr')[j_]))" % (NU, UP)
FLI = Contract('flip', F, cls=C, requires=[NU + ' >= 0', dist(NU, UP)], modifies=['*arg0'], ensures=[rng(NU, "arg0[%s[q_]] == -old('arg0.arr')[%s[q_]]" % (UP, UP)), UNC],
      inv=[rng('$i', "arg0[%s[q_]] == -old('arg0.arr')[%s[q_]]" % (UP, UP)), "forall(lambda q_: Implies(And(q_ >= $i, q_ < %s), arg0[%s[q_]] == old('arg0.arr')[%s[q_]]))" % (NU, UP, UP), UNC, '$i <= ' + NU], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
# the shift: a nonbasic column at its lower bound counts from that bound, one at its upper bound from the upper bound, a slack from its value
BND = lambda b, col: 'forall(lambda j_: %s[j_] == If(j_ < this.ncol, %s[j_], arg2[j_ - this.ncol]))' % (b, col)
OLD = "old('arg0.arr')"
UNF = Contract('unflip', F, cls=C, requires=[NU + ' >= 0', NL + ' >= 0', dist(NU, UP), dist(NL, LO), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < %s, b_ >= 0, b_ < %s), %s[a_] != %s[b_]))' % (NL, NU, LO, UP), BND('BL', 'this.colLower'), BND('BU', 'this.colUpper')], modifies=['*arg0', '*arg1'],
      ensures=[rng(NU, "arg0[%s[q_]] == -old('arg0.arr')[%s[q_]]" % (UP, UP)), UNC, "arg1[0] == old('arg1[0]') + gs(%s, %s.arr, BL, 0, %s) - gs(%s, %s.arr, BU, 0, %s)" % (OLD, LO, NL, OLD, UP, NU)],
      inv=[rng('$i', "arg0[%s[q_]] == -old('arg0.arr')[%s[q_]]" % (UP, UP)), "forall(lambda q_: Implies(And(q_ >= $i, q_ < %s), arg0[%s[q_]] == old('arg0.arr')[%s[q_]]))" % (NU, UP, UP), UNC, '$i <= ' + NU, '$i <= ' + NL,
           "arg1[0] == old('arg1[0]') + gs(%s, %s.arr, BL, 0, $i)" % (OLD, LO), "arg1[0] == old('arg1[0]') + gs(%s, %s.arr, BL, 0, %s) - gs(%s, %s.arr, BU, 0, $i)" % (OLD, LO, NL, OLD, UP)], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
# packing: the scaled row with small coefficients replaced by a bound still holds
SC = Contract('row_scale_factor', F, cls=C, requires=['this.ncol >= 0'], ensures=['Or(result < 0, And(result >= R("0.02"), result <= 50))'], ghosts=G, frame=True, opts=dict(lemmas=('absnl',), prune=True))
X, SR, SCALE = z3.Const('X', P.AR), z3.Const('scaled_row', P.AR), z3.Real('scale')      # SCALE names the factor the call returns; scaled_row = row / SCALE
SCC = Contract('row_scale_factor', F, cls=C, requires=['this.ncol >= 0'], ensures=['Or(result < 0, And(result == SCALE, result >= R("0.02"), result <= 50))'], ghosts=G)
PK = Contract('generate_packed_row', F, cls=C, requires=['this.ncol >= 0', 'this.param.EPS_COEFF > 0', 'this.param.EPS_COEFF_LUB > 0',
      'forall(lambda j_: Implies(And(j_ >= 0, j_ < this.ncol), And(this.colLower[j_] <= X[j_], X[j_] <= this.colUpper[j_])))',
      'forall(lambda j_: Implies(And(j_ >= 0, j_ < this.ncol), SR[j_] == arg1[j_] / SCALE))', 'forall(lambda j_: Implies(And(j_ >= 0, j_ < this.ncol), Or(SR[j_] == 0, absr(SR[j_]) > this.param.EPS_COEFF_LUB)))', 'ds(SR, X, 0, this.ncol) <= arg5 / SCALE'], modifies=['*arg2', '*arg3', '*arg4', 'arg5'],
      ensures=['Implies(result != 0, And(arg4[0] >= 0, ps(arg3.arr, arg2.arr, X, 0, arg4[0]) <= arg5))', 'Implies(result != 0, forall(lambda q_: Implies(And(q_ >= 0, q_ < arg4[0]), And(arg2[q_] >= 0, arg2[q_] < this.ncol))))',
               'Implies(result != 0, forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < arg4[0]), arg2[a_] < arg2[b_])))'],
      inv=['arg4[0] >= 0', 'arg4[0] <= $i', '$i <= this.ncol', 'ps(arg3.arr, arg2.arr, X, 0, arg4[0]) + ds(SR, X, 0, this.ncol) - ds(SR, X, 0, $i) <= arg5',
           'forall(lambda q_: Implies(And(q_ >= 0, q_ < arg4[0]), And(arg2[q_] >= 0, arg2[q_] < $i)))', 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < arg4[0]), arg2[a_] < arg2[b_]))'], ghosts=dict(G, X=X, SR=SR, SCALE=SCALE), opts=dict(lemmas=('absnl', 'unit'), prune=True, houdini_ms=2000))
# slacks: row i reads rhs_i - a_i x; X satisfies the rows, so an equality row has slack 0
RA = z3.Const('row_activity', P.AR)
CPS = P.SumKind('cps', [P.AR, P.AI, P.AR, Real], lambda a, k: a[3] * S(a[0], k), lambda a, k: S(a[2], S(a[1], k)), (0, 1))
EL = Contract('eliminate_slacks', F, cls=C, requires=['this.ncol >= 0', 'this.nrow >= 0', 'this.param.EPS_ELIM >= 0', 'forall(lambda k_: Implies(And(k_ >= this.ncol, k_ < this.ncol + this.nrow), Or(arg0[k_] == 0, absr(arg0[k_]) > this.param.EPS_ELIM)))',
      'forall(lambda q_: Implies(And(q_ >= 0, q_ < NNZ), And(arg3[q_] >= 0, arg3[q_] < this.ncol)))', 'forall(lambda r_: Implies(And(r_ >= 0, r_ < this.nrow), And(arg2[r_] >= 0, arg4[r_] >= 0, arg2[r_] + arg4[r_] <= NNZ)))',
      # RA is the activity of each row at X (a sum times a factor is the sum of the terms times the factor: see the lemma); an equality row is tight
      'forall(lambda r_: Implies(And(r_ >= 0, r_ < this.nrow), And(cps(arg1.arr, arg3.arr, X, arg0[this.ncol + r_], arg2[r_], arg2[r_] + arg4[r_]) == SHR(arg0.arr)[r_] * RA[r_], Implies(this.rowLower[r_] > this.rowUpper[r_] - this.param.EPS, arg5[r_] == RA[r_]))))'],
      modifies=['*arg0', '*arg6'],
      ensures=["ds(arg0.arr, X, 0, this.ncol) - arg6[0] == ds(old('arg0.arr'), X, 0, this.ncol) + ds(SHR(old('arg0.arr')), arg5.arr, 0, this.nrow) - ds(SHR(old('arg0.arr')), RA, 0, this.nrow) - old('arg6[0]')"],
      inv=['$i >= 0', '$i <= this.nrow', "forall(lambda k_: Implies(k_ >= this.ncol + $i, arg0[k_] == old('arg0.arr')[k_]))",
           "ds(arg0.arr, X, 0, this.ncol) - arg6[0] == ds(old('arg0.arr'), X, 0, this.ncol) + ds(SHR(old('arg0.arr')), arg5.arr, 0, $i) - ds(SHR(old('arg0.arr')), RA, 0, $i) - old('arg6[0]')",
           "forall(lambda k_: Implies(k_ >= this.ncol, arg0[k_] == pre('arg0.arr')[k_]))",
           "ds(arg0.arr, X, 0, this.ncol) == ds(pre('arg0.arr'), X, 0, this.ncol) - cps(arg1.arr, arg3.arr, X, old('arg0.arr')[this.ncol + i], arg2[i], $i)", "arg6[0] == pre('arg6[0]')", '$i >= arg2[i]', '$i <= arg2[i] + arg4[i]'],
      ghosts=dict(G, X=X, RA=RA, NNZ=z3.Int('nnz'), SHR=None), opts=dict(lemmas=('absnl', 'unit', 'dist'), prune=True, houdini_ms=2000))
def shr(sc):
    """the part of a row that belongs to the slacks"""
    n = sc.ex.read(sc.st, sc.ex.fld(sc.ex.frame.this, 'ncol'), 'int'); k = z3.Int('k?s')
    def f(a):
        t = z3.Function('slackpart', P.AR, P.AR)(a); sc.ex.ghostdone = getattr(sc.ex, 'ghostdone', set())
        if a.get_id() not in sc.ex.ghostdone: sc.ex.ghostdone.add(a.get_id()); sc.ex.global_facts.append(z3.ForAll([k], S(t, k) == S(a, n + k), patterns=[S(t, k)]))
        return t
    return f
shr._scoped = True; EL.ghosts['SHR'] = shr
COL = P.SumKind('colsum', [P.AI, z3.ArraySort(Int, P.AR), Int], lambda a, k: z3.ToReal(S(a[0], k)), lambda a, k: S(S(a[1], k), a[2]), ())
G['colsum'] = lambda p, t, i, lo, hi: COL(p, t, i, lo, hi)
NF, BV = 'this.card_intBasicVar_frac', 'this.intBasicVar_frac'
def disj(n, a, m, b): return 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < %s, b_ >= 0, b_ < %s), %s[a_] != %s[b_]))' % (n, m, a, b)
PI = 'this.pi_mat[arg0].arr'
CS = 'colsum(%s, this.intNonBasicTab.base, q_, 0, this.mTab)' % PI
def out(e): return '[arg1][%s]' % e
INR = [rng(n, 'And(%s[q_] >= 0, %s[q_] < this.ncol + this.nrow)' % (a, a)) for n, a in ((NI, IV), (NC_, CV), (NF, BV))]
ZERO = 'forall(lambda j_: Implies(And(j_ >= 0, j_ < this.ncol + this.nrow, %s), arg1[j_] == 0))' % ', '.join('forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), j_ != %s[q_]))' % x for x in ((NI, IV), (NC_, CV), (NF, BV)))
def three(hi): return [rng(hi[0], 'arg1[%s[q_]] == %s' % (IV, CS)), rng(hi[1], 'arg1[%s[q_]] == this.contNonBasicTab[arg0][q_]' % CV), rng(hi[2], 'arg1[%s[q_]] == If(this.param.USE_CG2 != 0, R(0), ToReal(this.pi_mat[arg0][q_]))' % BV)]
GR = Contract('generate_row', F, cls=C, requires=SETS + [NF + ' >= 0', dist(NF, BV), disj(NI, IV, NF, BV), disj(NC_, CV, NF, BV), 'this.ncol >= 0', 'this.nrow >= 0', 'this.mTab >= 0'] + INR, modifies=['*arg1'],
      ensures=three((NI, NC_, NF)) + [ZERO], inv=three(('$i', '$i', '$i')) + three((NI, NC_, NF)) + ['forall(lambda j_: Implies(And(j_ >= 0, j_ < $i), arg1[j_] == 0))', ZERO, '$i <= ' + NI, '$i <= ' + NC_, '$i <= ' + NF, '$i <= this.mTab', 'forall(lambda q_: Implies(And(q_ >= $i, q_ < %s), arg1[%s[q_]] == 0))' % (NF, BV), 'forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), arg1[%s[q_]] == 0))' % (NF, BV),
        'arg1[%s[i]] == colsum(%s, this.intNonBasicTab.base, i, 0, $i)' % (IV, PI), "forall(lambda j_: Implies(j_ != %s[i], arg1[j_] == pre('arg1.arr')[j_]))" % IV], ghosts=G, opts=dict(lemmas=('absnl',), prune=True, houdini_ms=1500))
def upd(fn, m, n): return Contract(fn, F, cls=C, requires=['arg0 != arg1', 'arg0 >= 0', 'arg1 >= 0', 'this.%s >= 0' % n], modifies=['*this.' + m],
      ensures=[rng('this.' + n, "this.%s[arg0][q_] == old('this.%s.base')[arg0][q_] - %s * old('this.%s.base')[arg1][q_]" % (m, m, 'arg2' if m == 'pi_mat' else 'ToReal(arg2)', m)), "forall(lambda r_: Implies(r_ != arg0, this.%s.base[r_] == old('this.%s.base')[r_]))" % (m, m)],
      inv=['$i <= this.' + n, rng('$i', "this.%s[arg0][q_] == old('this.%s.base')[arg0][q_] - %s * old('this.%s.base')[arg1][q_]" % (m, m, 'arg2' if m == 'pi_mat' else 'ToReal(arg2)', m)), "forall(lambda q_: Implies(q_ >= $i, this.%s[arg0][q_] == old('this.%s.base')[arg0][q_]))" % (m, m), "forall(lambda r_: Implies(r_ != arg0, this.%s.base[r_] == old('this.%s.base')[r_]))" % (m, m)], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
UPS = [upd('update_pi_mat', 'pi_mat', 'mTab'), upd('update_redTab', 'contNonBasicTab', 'nTab')]
AAI, AAR = z3.ArraySort(Int, P.AI), z3.ArraySort(Int, P.AR)
LINK = z3.Function('LINKED', AAI, AAR, Bool)       # the table is the multiplier matrix times the original tableau rows
UPP, UPC = z3.Function('minus_rows_int', AAI, Int, Int, Int, AAI), z3.Function('minus_rows', AAR, Int, Int, Int, AAR)
G.update(LINK=LINK, UPP=UPP, UPC=UPC)
class PrL(Problem):
    def more(self, ex):
        p, c = z3.Const('p?', AAI), z3.Const('c?', AAR); a, b, t = z3.Ints('a?l b?l t?l')
        # linearity: subtracting the same multiple of the same row on both sides keeps the link
        ex.global_facts.append(z3.ForAll([p, c, a, b, t], z3.Implies(z3.And(a != b, LINK(p, c)), LINK(UPP(p, a, b, t), UPC(c, a, b, t))), patterns=[z3.MultiPattern(UPP(p, a, b, t), UPC(c, a, b, t))]))
UP1 = Contract('update_pi_mat', F, cls=C, requires=UPS[0].requires, modifies=['*this.pi_mat'], ensures=["this.pi_mat.base == UPP(old('this.pi_mat.base'), arg0, arg1, arg2)"], ghosts=G)
UP2 = Contract('update_redTab', F, cls=C, requires=UPS[1].requires, modifies=['*this.contNonBasicTab'], ensures=["this.contNonBasicTab.base == UPC(old('this.contNonBasicTab.base'), arg0, arg1, arg2)"], ghosts=G)
FS = Contract('find_step', F, cls=C, requires=[], modifies=['*arg2', '*arg3'], ensures=[], ghosts=G, frame=False)
TP = Contract('test_pair', F, cls=C, requires=['LINK(this.pi_mat.base, this.contNonBasicTab.base)', 'arg0 != arg1', 'arg0 >= 0', 'arg1 >= 0', 'this.mTab >= 0', 'this.nTab >= 0'], modifies=['*arg2', '*this.pi_mat', '*this.contNonBasicTab'], ensures=['LINK(this.pi_mat.base, this.contNonBasicTab.base)'], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
IL = Contract('compute_is_lub', F, cls=C, requires=['this.ncol >= 0'], modifies=['*this.low_is_lub', '*this.up_is_lub'], ensures=[rng('this.ncol', 'And(Implies(this.low_is_lub[q_] == 0, absr(this.colLower[q_]) <= this.param.LUB), Implies(this.up_is_lub[q_] == 0, absr(this.colUpper[q_]) <= this.param.LUB))')],
      inv=['$i <= this.ncol', rng('$i', 'And(Implies(this.low_is_lub[q_] == 0, absr(this.colLower[q_]) <= this.param.LUB), Implies(this.up_is_lub[q_] == 0, absr(this.colUpper[q_]) <= this.param.LUB))')], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
def notype(ex, st, fr):
    g, r, i, p = ex.fld(fr.this, 'colType').alts[0]; st.store[ex.keyfor(r, p, 'const char *')] = Ptr([(TRUE, None, (I(0),), '')])
INTC = 'Implies(this.is_integer[q_] != 0, Or(P_isint[q_] != 0, And(this.colUpper[q_] - this.colLower[q_] < this.param.EPS, this.colUpper[q_] - floor(this.colUpper[q_]) < this.param.EPS)))'
II = Contract('compute_is_integer', F, cls=C, setup=notype, requires=['this.ncol >= 0', 'this.ncol == P_nC', rng('this.ncol', 'EX(this.colUpper[q_])')], modifies=['*this.is_integer'], ensures=[rng('this.ncol', INTC)], inv=['$i <= this.ncol', rng('$i', INTC)], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
def lemmas(unit, tus):
    import time
    I_, n, y, k = z3.Ints('I n y k'); T, L, O, r, c, f0, b, w = z3.Reals('T L O r c f0 b w'); d = 1 - f0
    fl = z3.ToReal(k); fr = r - fl; Ir = z3.ToReal
    H = [f0 > 0, f0 < 1, T >= 0, d * L <= d * Ir(I_) - T, O >= Ir(I_) - T]
    up = fr > f0; I2 = z3.If(up, I_ + (k + 1) * y, I_ + k * y); T2 = z3.If(up, T + (1 - fr) * Ir(y), T)
    obs = []
    def go(name, hyp, goals, split=None):
        t = time.time(); ok = True; how = []
        for cs in (split or [z3.BoolVal(True)]):
            for g in goals:
                s = z3.Solver(); s.set('timeout', 20000); s.add(hyp + [cs, z3.Not(g)]); v = s.check()
                how.append(str(v)); ok = ok and v == z3.unsat
        obs.append(dict(name=name, ok=ok, how='z3', secs=round(time.time() - t, 3), where='lemma', detail='' if ok else str(how)))
    hi = H + [y >= 0, fr >= 0, fr < 1, z3.Implies(up, d * c <= d * fl + fr - f0), z3.Implies(z3.Not(up), c <= fl)]
    # products with y >= 0 of the coefficient bound, stated separately
    hi.append(z3.Implies(up, d * c * Ir(y) <= (d * fl + fr - f0) * Ir(y))); hi.append(z3.Implies(z3.Not(up), c * Ir(y) <= fl * Ir(y)))
    go('the added bound is the coefficient bound multiplied by y >= 0', [y >= 0, z3.Implies(up, d * c <= d * fl + fr - f0), z3.Implies(z3.Not(up), c <= fl)], [hi[-1], hi[-2]])
    go('mixed integer rounding, step for a nonbasic integer variable', hi, [T2 >= 0, d * (L + c * Ir(y)) <= d * Ir(I2) - T2, O + r * Ir(y) >= Ir(I2) - T2], [up, z3.Not(up)])
    T3 = z3.If(r < 0, T - r * w, T)
    hc = H + [w >= 0, z3.Implies(r < 0, d * c * w <= r * w), z3.Implies(r >= 0, c * w <= 0)]
    go('the bound for a continuous variable multiplied by w >= 0', [w >= 0, f0 > 0, f0 < 1, z3.Implies(r < 0, d * c <= r), z3.Implies(r >= 0, c <= 0)], hc[-2:])
    go('mixed integer rounding, step for a nonbasic continuous variable', hc, [T3 >= 0, d * (L + c * w) <= d * Ir(I_) - T3, O + r * w >= Ir(I_) - T3], [r < 0, r >= 0])
    go('mixed integer rounding, conclusion', H + [O == b, b == Ir(n) + f0], [L <= Ir(n)], [I_ <= n, I_ >= n + 1])
    go('coefficients of the second form are those of the first minus the row', [f0 > 0, f0 < 1], [dint(r, f0) == cint(r, f0) - r, dcon(r, f0) == ccon(r, f0) - r])
    go('the second form is the first minus the row', [f0 > 0, f0 < 1, O == b, L <= Ir(n), b == Ir(n) + f0], [L - O <= Ir(n) - b])
    A, xx, s_ = z3.Reals('A xx s_'); go('scaling a sum, step', [s_ > 0], [A / s_ + (r / s_) * xx == (A + r * xx) / s_, z3.Implies(A <= b, A / s_ <= b / s_)])
    return [dict(function='lemma: mixed integer rounding over the guaranteed coefficients', file=F, status='ok', reason='', obligations=obs, loops=0, inlined=[], library=[], secs=sum(o['secs'] for o in obs))]
UNITS = [dict(U, name='pair', verify=[TP], problem=PrL, contracts={'CglRedSplit::update_pi_mat': UP1, 'CglRedSplit::update_redTab': UP2}, budget=100), dict(U, name='types', verify=[IL, II], budget=100), dict(U, name='row', verify=[GR], budget=150), dict(U, name='update', verify=UPS, budget=100), dict(U, name='slacks', verify=[EL], budget=200), dict(U, name='flip', verify=[FLI, UNF], budget=200), dict(U, name='scale', verify=[SC], budget=100), dict(U, name='pack', verify=[PK], contracts={'CglRedSplit::row_scale_factor': SCC}, budget=200),
         dict(U, name='above', verify=[ABV], contracts={}, budget=60), dict(U, name='cut1', verify=[CG], budget=200), dict(U, name='cut2', verify=[CG2], budget=200), dict(U, name='lemma', verify=[], run=lemmas, budget=100)]
