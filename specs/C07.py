"""C07: knapsack covers.  The canonical knapsack, the covers found in it and the uncomplemented cut, for any feasible point X;
   W is any weight vector (so the partition of the knapsack row is exact)."""
import z3
from verifier.spec import Contract
from verifier.engine import *
from verifier.problem import Problem, S
from verifier import prove as P, lemma
F = 'src/CglKnapsackCover/CglKnapsackCover.cpp'; C = 'CglKnapsackCover'
class Pr(Problem):
    W = z3.Const('W', P.AR)
    def more(self, ex):
        self.weights = [self.W, self.X]; ex.ghosts['W'] = self.W
    def on_colcut(self, ex, st, cs, c):
        Problem.on_colcut(self, ex, st, cs, c); m = ex.models     # the obligations hold: use them for the first entry
        for f, le in (('lbs', True), ('ubs', False)):
            n, ia, ea = m.get(ex, st, c, f + '.n', 'int'), m.geta(ex, st, c, f + '.ind', 'int'), m.geta(ex, st, c, f + '.el', 'double'); x, v = S(self.X, S(ia, I(0))), S(ea, I(0))
            st.assume(z3.Implies(n > 0, v <= x if le else v >= x))
# the knapsack row in the complemented variables
CX = P.SumKind('csum', [P.AR, P.AI, P.AR, P.AI], lambda a, k: S(a[0], k), lambda a, k: z3.If(S(a[3], S(a[1], k)) != 0, 1 - S(a[2], S(a[1], k)), S(a[2], S(a[1], k))), (0,))
G = dict(cx=lambda *a: CX(*a))
def w(v, x): return 'ps(%s.el, %s.ind, %s, 0, %s.n)' % (v, v, x, v)
def el(v): return 'sm(%s.el, 0, %s.n)' % (v, v)
def part(kr, c, r, i='%(k)s.n'): return '%s + %s == ps(%s.el, %s.ind, W, 0, %s)' % (w(c, 'W'), w(r, 'W'), kr, kr, i % dict(k=kr))
def rng(n, b): return 'forall(lambda q_: Implies(And(q_ >= 0, q_ < %s), %s))' % (n, b)
O = dict(lemmas=('absnl',), prune=True, houdini_ms=800)
def fin(name, k, b, c, r, inv=(), ens=(), **kw):
    """a cover finder: cover and remainder partition the row, the cover exceeds the right-hand side"""
    kr, c, r = 'arg%d' % k, 'arg%d' % c, 'arg%d' % r
    return Contract(name, F, cls=C, requires=[c + '.n == 0', r + '.n == 0', kr + '.n >= 0', 'this.epsilon_ > 0', 'this.epsilon2_ > 0'] + kw.pop('req', []), modifies=['*' + kr, '*' + c, '*' + r],
        ensures=['Implies(result == 1, %s)' % part(kr, c, r), 'Implies(result == 1, %s > arg%d)' % (el(c), b), "%s == %s" % (w(kr, 'W'), "old('%s')" % w(kr, 'W').replace("'", "")), "arg%d == old('arg%d')" % (b, b), "%s.n == old('%s.n')" % (kr, kr)] + list(ens), inv=list(inv), ghosts=G, opts=O, **kw)
GC = fin('findGreedyCover', 1, 2, 4, 5, inv=[part('arg1', 'arg4', 'arg5', '$i'), '$r == ' + el('arg4'), 'arg4.n >= 0', 'arg5.n >= 0', 'Implies($i != 0, %s > arg2)' % el('arg4'), '$i <= arg1.n'])
LPI = ['$r == sm(arg2.el, 0, $i + 1)', '$i < arg2.n', '$i >= 0', '$i <= arg2.n', '$r == ' + el('arg5'), "arg5.n == $i - pre('$i')", 'arg5.n >= 0', 'arg6.n >= 0',
       '%s == ps(arg2.el, arg2.ind, W, 0, $i) - ps(arg2.el, arg2.ind, W, 0, $i - arg5.n)' % w('arg5', 'W'), '%s == ps(arg2.el, arg2.ind, W, 0, $i)' % w('arg6', 'W'), part('arg2', 'arg5', 'arg6'),
       '$r == sm(arg5.el, 0, arg5.n - 1)', el('arg5') + ' > arg3', 'arg5.n == $i', 'arg5.n > 0']
LP = fin('findLPMostViolatedMinCover', 2, 3, 5, 6, req=['arg3 >= 0'], inv=LPI)
# deriving the knapsack: X satisfies the row, coefficients are zero or above the tolerance
def sgn(e): return 'If(arg3, %s, -(%s))' % (e, e)
ROWV = 'ps(arg10.arr, arg9.arr, P_X, 0, arg8)'
KR = 'ps(arg2.el, arg2.ind, P_X, 0, arg2.n)'
CXV = 'cx(arg2.el, arg2.ind, P_X, arg5.arr, 0, %s)'
FB = 'And(P_isint[arg2.ind[q_]] != 0, P_cl[arg2.ind[q_]] == 0, P_cu[arg2.ind[q_]] == 1, arg2.ind[q_] >= 0, arg2.ind[q_] < P_nC)'
DK = Contract('deriveAKnapsack', F, cls=C, pred=lambda f: len([c for c in f.get('inner', []) if c.get('kind') == 'ParmVarDecl']) == 11,
      requires=['arg8 >= 0', 'this.epsilon_ > 0', 'forall(lambda j_: arg5[j_] == 0)', rng('arg8', 'And(arg9[q_] >= 0, arg9[q_] < P_nC, Or(arg10[q_] == 0, absr(arg10[q_]) > this.epsilon_))'), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < arg8), arg9[a_] != arg9[b_]))',
                'Implies(arg3, %s <= arg4)' % ROWV, 'Implies(Not(arg3), %s >= arg4)' % ROWV], modifies=['*arg1', '*arg2', 'arg4', '*arg5', '*arg6'],
      ensures=['Implies(result == 1, %s <= arg4)' % (CXV % 'arg2.n'), 'Implies(result == 1, %s)' % rng('arg2.n', 'And(arg2.el[q_] >= 0, %s)' % FB), 'Implies(result == 1, And(arg4 >= 0, arg2.n > 0))'],
      locs={'L': 'CoinPackedVector'}, inv=['$i >= 0', '$i <= L.n', '$i <= arg2.n', KR + " - arg4 <= ps(L.el, L.ind, P_X, 0, $i) - pre('arg4')", 'arg2.n >= 0', 'arg2.n <= $i', rng('arg2.n', FB), rng('arg2.n', 'Or(arg2.el[q_] == 0, absr(arg2.el[q_]) > this.epsilon_)'),
        'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < arg2.n), arg2.ind[a_] != arg2.ind[b_]))', 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < arg2.n, b_ >= $i, b_ < L.n), arg2.ind[a_] != L.ind[b_]))',
        (CXV % '$i') + " - arg4 == ps(pre('arg2.el'), arg2.ind, P_X, 0, $i) - pre('arg4')", "forall(lambda q_: Implies(And(q_ >= $i, q_ < arg2.n), arg2.el[q_] == pre('arg2.el')[q_]))", 'forall(lambda q_: Implies(And(q_ >= $i, q_ < arg2.n), arg5[arg2.ind[q_]] == 0))', rng('$i', 'arg2.el[q_] >= 0')], ghosts=G, opts=dict(lemmas=('absnl', 'termwise', 'neg', 'nonneg', 'dist', 'unit'), prune=True, prune_if=True, houdini_ms=800))
import copy
def only(c, r): c = copy.copy(c); c.requires = list(c.requires) + [r]; return c
# the cut in the complemented variables holds (contract of the lifting), so the cut added holds for X
LC = Contract('liftCoverCut', F, cls=C, requires=[], modifies=['*arg2', '*arg3', '*arg4'], ensures=['arg4.n >= 0', 'Implies(result != 0, cx(arg4.el, arg4.ind, P_X, COMP, 0, arg4.n) <= RHS0)'], ghosts=dict(G, COMP=z3.Const('COMP', P.AI), RHS0=z3.Real('RHS0')))
CUTV = lambda e, i: "ps(rc.el, rc.ind, P_X, 0, %s)" % i
LU = Contract('liftAndUncomplementAndAdd', F, cls=C, requires=['arg5.n >= 0', 'arg6.n >= 0', 'forall(lambda j_: arg3[j_] == COMP[j_])', 'RHS0 == ToReal(arg5.n) - 1', 'cx(ONES, arg5.ind, P_X, COMP, 0, arg5.n) <= ToReal(arg5.n) - 1'], modifies=['*arg5', '*arg6', '*arg7'], ensures=[],
      locs={'c': 'CoinPackedVector'}, inv=["ps(c.el, c.ind, P_X, 0, $i) - $r == cx(pre('c.el'), c.ind, P_X, COMP, 0, $i) - pre('$r')", "forall(lambda q_: Implies(q_ >= $i, c.el[q_] == pre('c.el')[q_]))", '$i >= 0', '$i <= c.n'], ghosts=dict(LC.ghosts, ONES=z3.Const('ONES', P.AR)), opts=dict(lemmas=('absnl', 'termwise', 'dist', 'unit'), prune=True, houdini_ms=1500))
class PrL(Pr):
    def more(self, ex):
        Pr.more(self, ex); o = z3.Const('ONES', P.AR); j = z3.Int('j?o'); ex.global_facts.append(z3.ForAll([j], S(o, j) == 1, patterns=[S(o, j)]))
def lem():
    n, k, N, y = z3.Ints('n k N y'); D, D2, b, a, A, T = z3.Reals('D D2 b a A T'); 
    return [('cover: the number of variables not at one is a nonnegative integer, and zero only if nothing is lost, step', [k >= 0, D >= 0, z3.Implies(k == 0, D == 0), a >= 0, z3.Or(y == 0, y == 1)],
             [k + (1 - y) >= 0, D + a * (1 - z3.ToReal(y)) >= 0, z3.Implies(k + (1 - y) == 0, D + a * (1 - z3.ToReal(y)) == 0)], [y == 0, y == 1]),
            ('cover: a total above the right-hand side leaves at least one variable at zero', [z3.Implies(k == 0, D == 0), k >= 0, A > b, A - D <= b], [k >= 1], None)]
U = dict(contracts={}, files=[F], classes=[C], problem=Pr)
UNITS = [dict(U, name='add', verify=[LU], contracts={'CglKnapsackCover::liftCoverCut': LC}, problem=PrL, budget=150), dict(U, name='lemma', verify=[], run=lemma.unit('a cover leaves one variable at zero', F, lem), budget=60), dict(U, name='lp', verify=[LP], budget=200), dict(U, name='deriveL', verify=[only(DK, 'arg3')], budget=400), dict(U, name='deriveG', verify=[only(DK, 'Not(arg3)')], budget=400), dict(U, name='greedy', verify=[GC], budget=100)]
