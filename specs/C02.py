"""C02: clique cuts.  Nodes are fractional binaries; node_node holds an edge only between columns that share a set-packing row.
   The cliques recorded are pairwise adjacent; pairwise conflicts bound the sum of the columns by one (lemma)."""
import z3
from verifier.spec import Contract
from verifier.engine import *
from verifier.problem import Problem, S
from verifier import prove as P, lemma
F = 'src/CglClique/CglClique.cpp'; H = 'src/CglClique/CglCliqueHelper.cpp'; C = 'CglClique'
EDGE = z3.Function('EDGE', z3.ArraySort(Int, Bool), Int, Int, Int, Bool)      # entry of the adjacency matrix
SHARE = z3.Function('SHARE', Int, Int, Bool)          # the two columns have an entry in a common set-packing row
CF = z3.Function('CF', Int, Int, Bool)      # the two columns conflict: every feasible point has their sum at most one
RS = P.SumKind('rsum', [P.AI, P.AI, P.AR], lambda a, k: z3.RealVal(1), lambda a, k: S(a[2], S(a[1], S(a[0], k))), (0,))
class Pr(Problem):
    def more(self, ex):
        m = z3.Const('m?', z3.ArraySort(Int, Bool)); u, v, n = z3.Ints('u?e v?e n?e')
        ex.global_facts.append(z3.ForAll([m, n, u, v], EDGE(m, n, u, v) == z3.Select(m, u * n + v), patterns=[EDGE(m, n, u, v)]))
        ex.global_facts.append(z3.ForAll([u, v], CF(u, v) == CF(v, u), patterns=[CF(u, v)]))
        self.index_weights = [self.X]
G = dict(EDGE=EDGE, CF=CF, SHARE=SHARE, rs=lambda *a: RS(*a))
M, N_ = 'this.node_node.arr', 'this.fgraph.nodenum'
def edge(a, b): return 'CF(%s, %s)' % (a, b)
def ed(a, b): return 'EDGE(%s, %s, %s, %s)' % (M, N_, a, b)
CL, NCL, PE, NPE = 'this.cl_indices', 'this.cl_length', 'this.cl_perm_indices', 'this.cl_perm_length'
SYM = 'forall(lambda a_, b_: Implies(%s, CF(a_, b_)))' % ed('a_', 'b_')
PERM = ['forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < %s, b_ >= 0, b_ < %s), %s))' % (NCL, NPE, edge(CL + '[a_]', PE + '[b_]')), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < %s), %s))' % (NPE, edge(PE + '[a_]', PE + '[b_]')), NCL + ' >= 0', NPE + ' >= 0']
def pw(a, n): return 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < %s), %s))' % (n, edge(a + '[a_]', a + '[b_]'))
REC = Contract('recordClique', F, cls=C, requires=[pw('arg1', 'arg0')], modifies=['*arg1', '*arg2'], ensures=[], ghosts=G)
O = dict(lemmas=('absnl',), prune=True, houdini_ms=1500)
INV = [pw('$I', '$i'), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < $i, b_ >= 0, b_ < %s), %s))' % (NPE, edge('$I[a_]', PE + '[b_]')), 'forall(lambda a_: Implies(And(a_ > $i, a_ < $i1), %s))' % edge('var', '$I[a_]'), '$i >= 0', '$i >= 1', '$i <= ' + NPE, '$i <= ' + NCL]
GM = Contract('greedy_maximal_clique', F, cls=C, requires=PERM + [SYM, NCL + ' > 0'], modifies=['*arg0'], ensures=[], ghosts=G, opts=O, locs={'coef': 'int *'},
     inv=[pw('coef', '$i'), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < $i, b_ >= 0, b_ < %s), %s))' % (NPE, edge('coef[a_]', PE + '[b_]')), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < $i0, b_ >= $i1, b_ < %s), %s))' % (NPE, edge('coef[a_]', PE + '[b_]')), 'forall(lambda a_: Implies(And(a_ > $i, a_ < cnt), %s))' % edge(CL + '[j]', 'coef[a_]'), '$i >= 0', '$i >= 1', '$i <= ' + NPE, '$i <= ' + NCL])
RCV = Contract('recordClique', F, cls=C, requires=['arg0 >= 0', 'rs(arg1.arr, this.sp_orig_col_ind.arr, P_X, 0, arg0) <= 1'], modifies=['*arg1', '*arg2'], ensures=[], ghosts=G, opts=dict(lemmas=('absnl', 'termwise'), prune=True, houdini_ms=1500),
      inv=["forall(lambda q_: Implies(And(q_ >= 0, q_ <= $i), arg1[q_] == old('arg1.arr')[q_]))", "forall(lambda q_: Implies(And(q_ > $i, q_ < arg0), arg1[q_] == this.sp_orig_col_ind[old('arg1.arr')[q_]]))", '$i < arg0', '$i >= -1'])
LAB = lambda n: 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < b_, b_ < %s, arg1[a_], arg1[b_]), %s))' % (n, edge(CL + '[a_]', CL + '[b_]'))
INVE = [LAB('arg0'), 'arg0 >= 0', 'arg0 <= ' + NCL, 'forall(lambda a_: Implies(And(a_ >= 0, a_ < $i, arg1[a_]), %s))' % edge(CL + '[arg0]', CL + '[a_]'), 'arg1[arg0]', '$i <= arg0',
  pw('coef', '$i'), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < $i0, b_ >= 0, b_ <= $i1, arg1[b_]), %s))' % edge('coef[a_]', CL + '[b_]'), 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < $i, b_ >= 0, b_ < %s), %s))' % (NPE, edge('coef[a_]', PE + '[b_]')),
  'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < $i0, b_ >= $i1, b_ < %s), %s))' % (NPE, edge('coef[a_]', PE + '[b_]')), '$i < ' + NCL]
EM = Contract('enumerate_maximal_cliques', F, cls=C, requires=PERM + [SYM, 'arg0 >= 0', 'arg0 <= ' + NCL, LAB('arg0')], modifies=['*arg1', '*arg2', 'arg0'], ensures=['arg0 >= 0', 'arg0 == ' + NCL, LAB('arg0')], ghosts=G, opts=O, locs={'coef': 'int *'}, inv=INVE)
ROWS = 'forall(lambda j_, a_, b_: Implies(And(j_ >= 0, j_ < this.sp_numrows, a_ >= this.sp_row_start[j_], a_ < b_, b_ < this.sp_row_start[j_ + 1]), %s))' % edge('this.sp_row_ind[a_]', 'this.sp_row_ind[b_]')
STRT = 'forall(lambda j_: Implies(And(j_ >= 0, j_ < this.sp_numrows), this.sp_row_start[j_] <= this.sp_row_start[j_ + 1]))'
RCL = Contract('find_rcl', F, cls=C, requires=[SYM, ROWS, STRT], modifies=['*arg0', 'this.cl_del_length', 'this.cl_length', 'this.cl_perm_length', 'this.cl_perm_indices', '*this.cl_indices'], ensures=[], ghosts=G, opts=O,
   inv=[q % w for w in ('i',) for q in ('forall(lambda k_, b_: Implies(And(k_ >= 0, k_ < fgraph.nodenum, cand[k_], b_ >= this.sp_row_start[j], b_ < this.sp_row_start[j] + %s), CF(k_, this.sp_row_ind[b_])))', 'forall(lambda k_, b_: Implies(And(k_ >= k, k_ < fgraph.nodenum, cand[k_], b_ >= this.sp_row_start[j], b_ < this.sp_row_start[j] + %s), CF(k_, this.sp_row_ind[b_])))', 'forall(lambda k_, b_: Implies(And(k_ >= 0, k_ < k, cand[k_], b_ >= this.sp_row_start[j], b_ <= this.sp_row_start[j] + %s), CF(k_, this.sp_row_ind[b_])))')] + [
        'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < this.cl_length, b_ >= this.sp_row_start[j], b_ < this.sp_row_start[j + 1]), CF(this.cl_indices[a_], this.sp_row_ind[b_])))', '$i >= 0', 'this.cl_length >= 0', 'cl_length >= 0'])
# adjacency matrix: an entry is set only for two different columns with a common row
SHR = 'forall(lambda u_, v_, p_, q_: Implies(And(u_ >= 0, u_ < this.sp_numcols, v_ >= 0, v_ < this.sp_numcols, u_ != v_, p_ >= this.sp_col_start[u_], p_ < this.sp_col_start[u_ + 1], q_ >= this.sp_col_start[v_], q_ < this.sp_col_start[v_ + 1], this.sp_col_ind[p_] == this.sp_col_ind[q_]), CF(u_, v_)))'
def eds(a, b): return 'EDGE(this.node_node.arr, this.sp_numcols, %s, %s)' % (a, b)
EDG = 'forall(lambda a_, b_: Implies(And(a_ >= 0, a_ < this.sp_numcols, b_ >= 0, b_ < this.sp_numcols, %s), CF(a_, b_)))' % eds('a_', 'b_')
NN = Contract('createNodeNode', H, cls=C, requires=['this.sp_numcols >= 0', 'forall(lambda u_: Implies(And(u_ >= 0, u_ < this.sp_numcols), this.sp_col_start[u_] <= this.sp_col_start[u_ + 1]))', SHR], modifies=['this.node_node', '*this.node_node'], ensures=[EDG], ghosts=G, opts=O, inv=[EDG, '$i >= 0', 'j > i'])
class PrN(Pr):
    def more(self, ex):
        Pr.more(self, ex); a, b, n = z3.Ints('a?n b?n n?n')
        ex.global_facts.append(z3.ForAll([a, b, n], z3.Implies(z3.And(n >= 0, a < b), a * n + n <= b * n), patterns=[z3.MultiPattern(a * n, b * n)]))
        ex.global_facts.append(z3.ForAll([a, n], z3.Implies(z3.And(n >= 0, a >= 0), a * n >= 0), patterns=[a * n]))
STAR = 'forall(lambda a_: Implies(And(a_ >= 0, a_ < this.cl_length), CF(v, this.cl_indices[a_])))'
SCL = Contract('find_scl', F, cls=C, requires=[SYM], modifies=['*arg0', 'this.cl_del_length', 'this.cl_length', 'this.cl_perm_length', 'this.cl_perm_indices', '*this.cl_indices', '*this.cl_del_indices'], ensures=[], ghosts=G, opts=O, inv=[STAR, 'this.cl_length >= 0', '$i >= 0', '$i <= this.cl_length'])
SDN = Contract('scl_delete_node', F, cls=C, requires=[], modifies=['arg1', '*arg2', '*arg3', '*arg4'], ensures=[], ghosts=G)
SCN = Contract('scl_choose_next_node', F, cls=C, requires=[], modifies=[], ensures=[], ghosts=G)
import copy
GMS = copy.copy(GM); GMS.requires = [r for r in GM.requires if r != NCL + ' > 0']     # find_scl: the star of a node of degree at least two is not empty (degrees not under contract)
# pairwise conflicting columns: two columns with entry one in a row with right-hand side one and nonnegative activity elsewhere cannot both be one; at most one column of a clique is one
def lem():
    n, w, x = z3.Ints('n w x'); Sm = z3.Int('S'); Y = z3.Function('Y', Int, Int); k = z3.Int('k'); a, b, rest = z3.Reals('xa xb rest')
    H = [z3.ForAll([k], z3.Or(Y(k) == 0, Y(k) == 1)), n >= 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), Y(k) + Y(n) <= 1))]
    zero = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), Y(k) == 0)); one = z3.And(Sm == 1, w >= 0, w < n, Y(w) == 1)
    zero1 = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n + 1), Y(k) == 0))
    return [('clique: the sum over the columns so far is zero with all at zero, or one with a column at one, step', H + [z3.Or(z3.And(Sm == 0, zero), one)],
             [z3.Or(z3.And(Sm + Y(n) == 0, zero1), z3.And(Sm + Y(n) == 1, z3.Or(z3.And(w >= 0, w < n + 1, Y(w) == 1), Y(n) == 1)))], [Y(n) == 0, Y(n) == 1]),
            ('clique: two columns with entry one in a common set-packing row sum to at most one', [a + b + rest <= 1, rest >= 0], [a + b <= 1], None)]
# ---- which rows count as clique rows: right-hand side one, entries one on the chosen columns, no negative entry and no column that can be negative
VS = P.SumKind('vsum', [P.AI], lambda a, k: z3.RealVal(1), lambda a, k: z3.ToReal(S(a[0], k)), (0,))
POSC = z3.Function('POSC', Int, Int, Int); RI, RE = z3.Const('colind', z3.ArraySort(Int, P.AI)), z3.Const('colel', z3.ArraySort(Int, P.AR)); CLEN = z3.Const('collen', P.AI)
class PrS(Pr):
    def more(self, ex):
        super().more(ex); g = ex.global_facts; r, k, c, q = z3.Ints('r?s k?s c?s q?s'); col = S(S(self.J, r), k); po = POSC(r, k)
        g.append(z3.ForAll([c], S(CLEN, c) >= 0, patterns=[S(CLEN, c)]))
        g.append(z3.ForAll([r, k], z3.Implies(z3.And(r >= 0, r < self.nR, k >= 0, k < S(self.len, r)), z3.And(po >= 0, po < S(CLEN, col), S(S(RI, col), po) == r, S(S(RE, col), po) == S(S(self.A, r), k))), patterns=[col]))
        g.append(z3.ForAll([c, q], z3.Implies(z3.And(c >= 0, c < self.nC, q >= 0, q < S(CLEN, c)), z3.And(S(S(RI, c), q) >= 0, S(S(RI, c), q) < self.nR)), patterns=[S(S(RI, c), q)]))
    def method(self, ex, st, cls, name, obj, args, e):
        if 'OsiSolverInterface' in cls and name == 'getMatrixByCol': return ptr(ex.region(('matrixByCol',), 'matrixByCol', False, 'CoinPackedMatrix'))
        if 'OsiSolverInterface' in cls and name == 'getDblParam':
            ex.write(st, ex.evl(args[1], st), 'double', ex.fresh('param', Real)); return TRUE
        if cls == 'CoinPackedMatrix' and name == 'getVector' and ex.only(obj)[1].id == ('matrixByCol',):
            c = ex.conv(ex.ev(args[0], st), 'int'); v = ptr(ex.region(('colvec', ex.frame.tag, e.get('id')), 'col', False, 'CoinShallowPackedVector', fresh=True))
            m = ex.models; m.set(ex, st, v, 'n', 'int', S(CLEN, c)); m.seta(ex, st, v, 'ind', 'int', S(RI, c)); m.seta(ex, st, v, 'el', 'double', S(RE, c)); return v
        return super().method(ex, st, cls, name, obj, args, e)
    def accumulate(self, ex, st, args, e):      # the integer sum of the range, mathematical
        p, q = ex.ev(args[0], st), ex.ev(args[1], st); a = ex.models.slice(ex, st, p, 'int', None); n = ex.ptrop('-', q, p, st); t = ex.fresh('sum', Int)
        st.assume(z3.ToReal(t) == z3.ToReal(ex.conv(ex.ev(args[2], st), "int")) + VS(a, I(0), n)); return t
GS = dict(G, vs=lambda *a: VS(*a), RI=RI, RE=RE, CLEN=CLEN)
def good(r): return 'And(P_ru[{0}] == 1, forall(lambda q_: Implies(And(q_ >= 0, q_ < P_len[{0}]), And(P_A[{0}][q_] >= 0, P_cl[P_J[{0}][q_]] >= 0))))'.format(r)
def bad1(cols, extra=''): return 'forall(lambda u_, q_: Implies(And(u_ >= 0, u_ < %s, q_ >= 0, q_ < CLEN[this.sp_orig_col_ind[u_]], RE[this.sp_orig_col_ind[u_]][q_] != 1), clique.a[RI[this.sp_orig_col_ind[u_]][q_]] == 0))' % cols
COLS = 'forall(lambda u_: Implies(And(u_ >= 0, u_ < this.sp_numcols), And(this.sp_orig_col_ind[u_] >= 0, this.sp_orig_col_ind[u_] < P_nC)))'
ONE = 'forall(lambda k_, u_, q_: Implies(And(k_ >= 0, k_ < this.sp_numrows, u_ >= 0, u_ < this.sp_numcols, q_ >= 0, q_ < P_len[this.sp_orig_row_ind[k_]], P_J[this.sp_orig_row_ind[k_]][q_] == this.sp_orig_col_ind[u_]), P_A[this.sp_orig_row_ind[k_]][q_] == 1))'
def pick(n): return 'forall(lambda k_: Implies(And(k_ >= 0, k_ < %s), And(this.sp_orig_row_ind[k_] >= 0, this.sp_orig_row_ind[k_] < P_nR, clique.a[this.sp_orig_row_ind[k_]] == 1)))' % n
SRC = Contract('selectRowCliques', H, cls=C, requires=['this.sp_numcols >= 0', COLS], modifies=['this.sp_numrows', 'this.sp_orig_row_ind', '*this.sp_orig_row_ind'], ghosts=GS, frame=False, locs={'clique': 'std::vector<int>', 'i': 'int', 'j': 'int', 'k': 'int'}, opts=dict(lemmas=('absnl',), prune=True, houdini_ms=1500),
   ensures=['forall(lambda k_: Implies(And(k_ >= 0, k_ < this.sp_numrows), And(this.sp_orig_row_ind[k_] >= 0, this.sp_orig_row_ind[k_] < P_nR)))', 'forall(lambda k_: Implies(And(k_ >= 0, k_ < this.sp_numrows), %s))' % good('this.sp_orig_row_ind[k_]'), ONE],
   inv=['forall(lambda r_: Implies(And(r_ >= 0, r_ < P_nR), Or(clique.a[r_] == 0, clique.a[r_] == 1)))', bad1('j'), bad1('this.sp_numcols'), 'forall(lambda q_: Implies(And(q_ > i, q_ < CLEN[this.sp_orig_col_ind[j]], RE[this.sp_orig_col_ind[j]][q_] != 1), clique.a[RI[this.sp_orig_col_ind[j]][q_]] == 0))',
        'forall(lambda r_: Implies(And(r_ >= 0, r_ < i, clique.a[r_] == 1), %s))' % good('r_'), 'forall(lambda r_: Implies(And(r_ >= 0, r_ < P_nR, clique.a[r_] == 1), %s))' % good('r_'), 'forall(lambda q_: Implies(And(q_ > j, q_ < P_len[i]), And(P_A[i][q_] >= 0, P_cl[P_J[i][q_]] >= 0)))',
        '$i >= 0', '$i >= -1', pick('k'), 'ToReal(k) == vs(clique.a, 0, i)', '$i <= P_nR'])
SFB = Contract('selectFractionalBinaries', H, cls=C, requires=[], modifies=['this.sp_numcols', 'this.sp_orig_col_ind', 'this.sp_colsol', '*this.sp_orig_col_ind', '*this.sp_colsol'], ghosts=GS, frame=False, opts=dict(lemmas=('absnl',), prune=True, houdini_ms=1500), locs={'fracind': 'std::vector<int>'},
   ensures=['this.sp_numcols >= 0', 'forall(lambda u_: Implies(And(u_ >= 0, u_ < this.sp_numcols), And(this.sp_orig_col_ind[u_] >= 0, this.sp_orig_col_ind[u_] < P_nC, P_isint[this.sp_orig_col_ind[u_]] == 1)))'],
   inv=['$i >= 0', 'fracind.n >= 0', 'forall(lambda u_: Implies(And(u_ >= 0, u_ < fracind.n), And(fracind.a[u_] >= 0, fracind.a[u_] < P_nC, P_isint[fracind.a[u_]] == 1)))', 'forall(lambda u_: Implies(And(u_ >= 0, u_ < $i), this.sp_orig_col_ind[u_] == fracind.a[u_]))', 'this.sp_numcols == fracind.n'])
U = dict(contracts={'CglClique::recordClique': REC, 'CglClique::enumerate_maximal_cliques': EM, 'CglClique::greedy_maximal_clique': GM, 'CglClique::scl_delete_node': SDN, 'CglClique::scl_choose_next_node': SCN}, files=[F, H], classes=[C], problem=Pr)
UNITS = [dict(name='rows', contracts={}, verify=[SRC], files=[H], classes=[C], problem=PrS, budget=120), dict(name='columns', contracts={}, verify=[SFB], files=[H], classes=[C], problem=PrS, budget=60), dict(U, name='lemma', verify=[], run=lemma.unit('pairwise conflicts bound the sum by one', F, lem), budget=60), dict(U, name='scl', verify=[SCL], contracts=dict(U['contracts'], **{'CglClique::greedy_maximal_clique': GMS}), budget=150), dict(U, name='graph', verify=[NN], problem=PrN, budget=150), dict(U, name='rcl', verify=[RCL], budget=150), dict(U, name='greedy', verify=[GM], budget=100), dict(U, name='enum', verify=[EM], budget=150), dict(U, name='record', verify=[RCV], contracts={}, budget=100)]
