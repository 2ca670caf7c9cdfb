"""C04: mixed integer rounding.  Contracts of the functions that build the rounded inequality (function G, the c-MIR
   inequality) and the aggregated row, and the lemma that the guaranteed coefficients give a valid inequality."""
import z3
from verifier.spec import Contract
from verifier.engine import *
from verifier.problem import Problem, S
from verifier import prove as P, lemma
F = 'src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp'; C = 'CglMixedIntegerRounding'
def cint(r, f0):
    """upper limit of the coefficient of an integer variable in the rounded inequality"""
    f = r - P.floor(r); return z3.If(f > f0, P.floor(r) + (f - f0) / (1 - f0), P.floor(r))
# the right-hand side of the complemented variables: the sum over the set C of coefficient times upper bound
CUB = P.SumKind('cub', [P.AR, P.AI, P.AR, z3.ArraySort(Int, Bool)], lambda a, k: z3.If(z3.Select(a[3], k), S(a[0], k), z3.RealVal(0)), lambda a, k: S(a[2], S(a[1], k)), (0, 1))
G = dict(cint=cint, cub=lambda *a: CUB(*a), frac=lambda v: v - P.floor(v))
def rng(n, b): return 'forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), %s))' % (n, b)
FG = Contract('functionG', F, cls=C, requires=['this.EPSILON_ >= 0', 'arg1 >= 0', 'arg1 < 1'], ensures=['result <= cint(arg0, arg1)'], ghosts=G, frame=True, opts=dict(lemmas=('absnl',), prune=True))
EL, K = 'arg9.el', 'arg8.mem'
FR = 'frac(arg2 / arg1)'
def coef(hi): return [rng(hi, 'Implies(Not(%s[q_]), %s[q_] <= cint(arg4[q_] / arg1, %s))' % (K, EL, FR)), rng(hi, 'Implies(%s[q_], -%s[q_] <= cint(-arg4[q_] / arg1, %s))' % (K, EL, FR))]
CM = Contract('cMirInequality', F, cls=C, requires=['arg0 >= 0', 'arg1 > 0', 'this.EPSILON_ >= 0', 'arg9.n >= arg0'], modifies=['*arg9', 'arg10', 'arg11', 'arg12'],
      ensures=coef('arg0') + ['arg10 >= floor(arg2 / arg1) + cub(%s, arg3.arr, arg7.arr, %s, 0, arg0)' % (EL, K), 'arg11 >= 1 / (arg1 * (1 - %s))' % FR, "arg9.n == old('arg9.n')", "arg9.ind == old('arg9.ind')"],
      inv=coef('$i') + ['arg10 >= floor(arg2 / arg1) + cub(%s, arg3.arr, arg7.arr, %s, 0, $i)' % (EL, K), "arg9.n == old('arg9.n')", "arg9.ind == old('arg9.ind')", '$i >= 0', '$i <= arg0'], ghosts=G, opts=dict(lemmas=('absnl',), prune=True, houdini_ms=1500))
# aggregation: X extends the feasible point by the slacks of the rows used; a row with its slack is an equation of X
class Pr(Problem):
    def method(self, ex, st, cls, name, obj, args, e):
        if cls == 'CoinPackedMatrix' and name == 'getVector': obj = ptr(ex.region(('matrixByRow',), 'matrixByRow', False, 'CoinPackedMatrix'))
        return Problem.method(self, ex, st, cls, name, obj, args, e)
def val(i): return 'ps(arg%d.el, arg%d.ind, P_X, 0, arg%d.n)' % (i, i, i)
AG = Contract('aggregateRow', F, cls=C, requires=['%s == arg2' % val(1), '%s == arg4' % val(3)], modifies=['*arg1', '*arg3', 'arg4'], ensures=['%s == arg4' % val(3)], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
CP = Contract('copyRowSelected', F, cls=C, requires=['arg1 >= 0', 'arg1 < P_nR', 'arg5 == P_sense[arg1]', 'arg6 == P_rhs[arg1]', "Or(arg5 == %d, arg5 == %d, arg5 == %d)" % (ord('L'), ord('G'), ord('E')),
      'P_X[this.numCols_ + arg0] == If(arg5 == %d, P_rhs[arg1] - ROW(arg1), ROW(arg1) - P_rhs[arg1])' % ord('L')], modifies=['*arg2', '*arg3', '*arg4', '*arg9', 'arg10'], ensures=['%s == arg10' % val(9), "forall(lambda q_: arg2.mem[q_] == Or(q_ == arg1, old('arg2.mem')[q_]))", 'arg3[arg0] == arg1', "forall(lambda q_: Implies(q_ != arg0, arg3[q_] == old('arg3.arr')[q_]))"], ghosts=G, opts=dict(lemmas=('absnl',), prune=True))
LS = Contract('isLowerSubst', F, cls=C, requires=['arg3 <= arg4'], ensures=['Implies(And(this.CRITERION_ != 1, arg4 == arg0), result)', 'Implies(And(this.CRITERION_ != 1, arg3 == -arg0, arg4 != arg0, arg2 != arg3), Not(result))'], ghosts=G, frame=True)
U = dict(contracts={'CglMixedIntegerRounding::functionG': FG}, files=[F], classes=[C], problem=Problem)
def lem():
    I_, n, y, k = z3.Ints('I n y k'); T, L, O, r, c, f0, b, s, dl, A, u, x = z3.Reals('T L O r c f0 b s delta A u x'); d = 1 - f0; Ir = z3.ToReal
    fl = Ir(k); fr = r - fl; H = [f0 >= 0, f0 < 1, T >= 0, d * L <= d * Ir(I_) - T, O >= Ir(I_) - T]; up = fr > f0
    I2 = z3.If(up, I_ + (k + 1) * y, I_ + k * y); T2 = z3.If(up, T + (1 - fr) * Ir(y), T)
    bound = [z3.Implies(up, d * c * Ir(y) <= (d * fl + fr - f0) * Ir(y)), z3.Implies(z3.Not(up), c * Ir(y) <= fl * Ir(y))]
    return [('the coefficient bound multiplied by y >= 0', [y >= 0, z3.Implies(up, d * c <= d * fl + fr - f0), z3.Implies(z3.Not(up), c <= fl)], bound, None),
            ('mixed integer rounding, step for one integer variable', H + bound + [y >= 0, fr >= 0, fr < 1], [T2 >= 0, d * (L + c * Ir(y)) <= d * Ir(I2) - T2, O + r * Ir(y) >= Ir(I2) - T2], [up, z3.Not(up)]),
            ('mixed integer rounding, conclusion: row - s <= b gives cut <= floor(b) + s / (1 - f)', H + [s >= 0, O <= b + s, b == Ir(n) + f0], [d * L <= d * Ir(n) + s], [I_ <= n, I_ >= n + 1]),
            ('division of the row by delta > 0', [dl > 0, A - s <= b], [A / dl <= b / dl + s / dl], None), ('delta scales the slack part', [dl > 0, d > 0], [(s / dl) / d == s * (1 / (dl * d))], None),
            ('complementing: the term of a variable at upper bound u minus y', [], [r * x == r * u + (-r) * (u - x), c * x == c * u - c * (u - x)], None)]
UNITS = [dict(U, name='lemma', verify=[], run=lemma.unit('mixed integer rounding over the guaranteed coefficients', F, lem), budget=100), dict(U, name='agg', verify=[AG, CP], problem=Pr, contracts={}, budget=100), dict(U, name='subst', verify=[LS], contracts={}, budget=60), dict(U, name='G', verify=[FG], contracts={}, budget=60), dict(U, name='cmir', verify=[CM], budget=200)]
