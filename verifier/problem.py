"""The model a cut generator reads (OsiSolverInterface), with an arbitrary feasible point X as ghost state.
   Assumed contract of the solver interface: what it reports is one fixed mixed-integer program."""
import z3
from . import prove as P
from .engine import *
from .cast import Unsupported, ty
S = z3.Select
AA = lambda s: z3.ArraySort(Int, z3.ArraySort(Int, s))
class Problem:
    """rows r < nR: coefficients A[r][k] on columns J[r][k], k < len[r]; bounds rl, ru; columns j < nC: bounds cl, cu, isint.
       X is any point satisfying rows, bounds and integrality."""
    INF = z3.Const('infinity', Real)
    def __init__(self):
        self.nR, self.nC = z3.Const('nR', Int), z3.Const('nC', Int)
        self.A, self.J, self.len = z3.Const('A', AA(Real)), z3.Const('J', AA(Int)), z3.Const('len', P.AI)
        self.rl, self.ru, self.cl, self.cu, self.X = [z3.Const(n, P.AR) for n in ('rowlower', 'rowupper', 'collower', 'colupper', 'X')]
        self.isint, self.sense, self.rhs, self.range = z3.Const('coltype', P.AI), z3.Const('sense', P.AI), z3.Const('rhs', P.AR), z3.Const('range', P.AR)
        self.sol = z3.Const('SOL', P.AR); self.obj = z3.Const('objcoef', P.AR); self.act = z3.Const('rowactivity', P.AR); self.starts = z3.Const('starts', P.AI)
        self.FE, self.FI = z3.Const('flatel', P.AR), z3.Const('flatind', P.AI)
    ARR = dict(getColLower=('cl', 'double'), getColUpper=('cu', 'double'), getRowLower=('rl', 'double'), getRowUpper=('ru', 'double'), getRowSense=('sense', 'char'), getRightHandSide=('rhs', 'double'),
               getRowRange=('range', 'double'), getColType=('isint', 'char'), getColSolution=('sol', 'double'), getObjCoefficients=('obj', 'double'), getRowActivity=('act', 'double'))
    def attach(self, ex):
        self.ex = ex
        g = ex.global_facts; r, k, j = z3.Int('r?'), z3.Int('k?'), z3.Int('j?')
        g += [self.nR >= 0, self.nC >= 0, self.INF >= z3.RealVal('1e20')]
        g.append(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < self.nR), S(self.len, r) >= 0), patterns=[S(self.len, r)]))
        g.append(z3.ForAll([r, k], z3.Implies(z3.And(r >= 0, r < self.nR, k >= 0, k < S(self.len, r)), z3.And(S(S(self.J, r), k) >= 0, S(S(self.J, r), k) < self.nC)), patterns=[S(S(self.J, r), k)]))
        k2 = z3.Int('k2?')
        g.append(z3.ForAll([r, k, k2], z3.Implies(z3.And(r >= 0, r < self.nR, k >= 0, k < k2, k2 < S(self.len, r)), S(S(self.J, r), k) != S(S(self.J, r), k2)), patterns=[z3.MultiPattern(S(S(self.J, r), k), S(S(self.J, r), k2))]))
        inb = z3.And(j >= 0, j < self.nC); xj = S(self.X, j)
        g.append(z3.ForAll([j], z3.Implies(inb, z3.And(z3.Implies(S(self.cl, j) > -self.INF, xj >= S(self.cl, j)), z3.Implies(S(self.cu, j) < self.INF, xj <= S(self.cu, j)), z3.Implies(S(self.isint, j) != 0, z3.IsInt(xj)))), patterns=[xj]))
        g.append(z3.ForAll([j], z3.Implies(inb, z3.And(S(self.isint, j) >= 0, S(self.isint, j) <= 2)), patterns=[S(self.isint, j)]))
        # a binary column (type 1) has bounds within 0..1
        g.append(z3.ForAll([j], z3.Implies(z3.And(inb, S(self.isint, j) == 1), z3.And(S(self.cl, j) >= 0, S(self.cu, j) <= 1)), patterns=[S(self.isint, j)]))
        # Osi's sense / right-hand side / range of a row, from its bounds
        L, G, E, Rg, N = [ord(c) for c in 'LGERN']; lo, up = S(self.rl, r), S(self.ru, r); hl, hu = lo > -self.INF, up < self.INF
        sn, rh, rg = S(self.sense, r), S(self.rhs, r), S(self.range, r)
        conv = z3.And(z3.Implies(z3.And(hl, hu, lo == up), z3.And(sn == E, rh == up)), z3.Implies(z3.And(hl, hu, lo != up), z3.And(sn == Rg, rh == up, rg == up - lo)),
                      z3.Implies(z3.And(hl, z3.Not(hu)), z3.And(sn == G, rh == lo)), z3.Implies(z3.And(z3.Not(hl), hu), z3.And(sn == L, rh == up)), z3.Implies(z3.And(z3.Not(hl), z3.Not(hu)), sn == N))
        for t in (sn, rh, rg): g.append(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < self.nR), conv), patterns=[t]))
        # flat storage
        o = S(self.starts, r) + k
        g.append(z3.ForAll([r, k], z3.Implies(z3.And(r >= 0, r < self.nR, k >= 0, k < S(self.len, r)), z3.And(S(self.FE, o) == S(S(self.A, r), k), S(self.FI, o) == S(S(self.J, r), k))), patterns=[S(S(self.A, r), k)]))
        g.append(z3.ForAll([r, k], z3.Implies(z3.And(r >= 0, r < self.nR, k >= 0, k < S(self.len, r)), z3.And(S(self.FE, o) == S(S(self.A, r), k), S(self.FI, o) == S(S(self.J, r), k))), patterns=[S(S(self.J, r), k)]))
        P.extra[:] = [self.rowfacts]
        for n in ('nR', 'nC', 'A', 'J', 'len', 'rl', 'ru', 'cl', 'cu', 'X', 'isint', 'sense', 'rhs', 'sol'): ex.ghosts['P_' + n] = getattr(self, n)
        ex.ghosts['ROW'] = self.activity; ex.ghosts['INF'] = self.INF
        for n, (f, t) in self.ARR.items():
            reg = ex.region(('osi', f), 'si.' + f, True, t); reg.const = True
            ex.init[(reg.id, '')] = getattr(self, f); ex.keyty[(reg.id, '')] = (t, reg)
        for f, nm, t in (('FE', 'elements', 'double'), ('FI', 'indices', 'int'), ('starts', 'starts', 'int'), ('len', 'lengths', 'int')):
            reg = ex.region(('mat', f), 'matrix.' + nm, True, t); reg.const = True
            ex.init[(reg.id, '')] = getattr(self, f); ex.keyty[(reg.id, '')] = (t, reg)
        self.more(ex)
    def more(self, ex): pass
    def activity(self, r): return P.PS(S(self.A, r), S(self.J, r), self.X, I(0), S(self.len, r))
    def rowfacts(self, fs):
        """for every row mentioned: X satisfies it"""
        out = []; rows = {}
        for t in self.subs(fs): rows[t.get_id()] = t
        for r in rows.values():
            a = self.activity(r)
            out.append(z3.Implies(z3.And(r >= 0, r < self.nR), z3.And(z3.Implies(S(self.rl, r) > -self.INF, a >= S(self.rl, r)), z3.Implies(S(self.ru, r) < self.INF, a <= S(self.ru, r)))))
        return out
    def subs(self, fs):
        seen = set(); st = list(fs); out = []
        nm = {c.get_id() for c in (self.A, self.J, self.len, self.rhs, self.starts)}
        while st:
            t = st.pop()
            if not z3.is_expr(t) or t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): st.append(t.body()); continue
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).get_id() in nm and not P.hasvar(t.arg(1)): out.append(t.arg(1))
            st.extend(t.children())
        return out
    def reg(self, ex, f): return ptr(ex.regions[('osi', f)])
    def method(self, ex, st, cls, name, obj, args, e):
        if 'OsiSolverInterface' in cls or cls == 'OsiClpSolverInterface':
            if name == 'getNumRows': return self.nR
            if name == 'getNumCols': return self.nC
            if name == 'getInfinity': return self.INF
            if name in self.ARR: return self.reg(ex, self.ARR[name][0])
            if name in ('getMatrixByRow',): return ptr(ex.region(('matrixByRow',), 'matrixByRow', False, 'CoinPackedMatrix'))
            if name in ('isInteger', 'isBinary', 'isContinuous', 'isIntegerNonBinary', 'isFreeBinary'):
                j = ex.conv(ex.ev(args[0], st), 'int'); t = S(self.isint, j)
                if name == 'isInteger': return t != 0
                if name == 'isContinuous': return t == 0
                if name == 'isBinary': return z3.And(t != 0, z3.Or(S(self.cu, j) == 1, S(self.cu, j) == 0), z3.Or(S(self.cl, j) == 0, S(self.cl, j) == 1))
                if name == 'isIntegerNonBinary': return z3.And(t != 0, z3.Not(z3.And(z3.Or(S(self.cu, j) == 1, S(self.cu, j) == 0), z3.Or(S(self.cl, j) == 0, S(self.cl, j) == 1))))
                return z3.And(t != 0, S(self.cu, j) == 1, S(self.cl, j) == 0)
            if name == 'getObjSense': return R(1)
            if name == 'getRowCutDebugger': return NULL
        if cls == 'CoinPackedMatrix':
            a = ex.only(obj)[1]
            if a.id != ('matrixByRow',): return NotModelled
            if name in ('getVector', 'getVectorStarts', 'getVectorLengths', 'getElements', 'getIndices', 'getNumElements', 'getNumRows', 'getNumCols', 'getMajorDim', 'getMinorDim', 'getVectorSize', 'getVectorFirst', 'getVectorLast'):
                if name == 'getVector':
                    r = ex.conv(ex.ev(args[0], st), 'int')
                    v = ptr(ex.region(('rowvec', ex.frame.tag, e.get('id')), 'row', False, 'CoinShallowPackedVector', fresh=True))
                    m = ex.models; m.set(ex, st, v, 'n', 'int', S(self.len, r)); m.seta(ex, st, v, 'ind', 'int', S(self.J, r)); m.seta(ex, st, v, 'el', 'double', S(self.A, r)); return v
                if name == 'getVectorStarts': return ptr(ex.regions[('mat', 'starts')])
                if name == 'getVectorLengths': return ptr(ex.regions[('mat', 'len')])
                if name == 'getElements': return ptr(ex.regions[('mat', 'FE')])
                if name == 'getIndices': return ptr(ex.regions[('mat', 'FI')])
                if name in ('getNumRows', 'getMajorDim'): return self.nR
                if name in ('getNumCols', 'getMinorDim'): return self.nC
                if name == 'getVectorSize': return S(self.len, ex.conv(ex.ev(args[0], st), 'int'))
                if name == 'getVectorFirst': return S(self.starts, ex.conv(ex.ev(args[0], st), 'int'))
                if name == 'getVectorLast':
                    r = ex.conv(ex.ev(args[0], st), 'int'); return S(self.starts, r) + S(self.len, r)
                return ex.fresh('nnz', Int)
        return NotModelled
    def call(self, ex, st, name, args, e): return NotModelled
    def operator(self, ex, st, t0, name, args, e): return NotModelled
    # every cut handed to the collection must hold for X
    def on_rowcut(self, ex, st, cs, c):
        m = ex.models; n = m.get(ex, st, c, 'n', 'int')
        s = P.PS(m.geta(ex, st, c, 'el', 'double'), m.geta(ex, st, c, 'ind', 'int'), self.X, I(0), n)
        lb, ub = m.get(ex, st, c, 'lb', 'double'), m.get(ex, st, c, 'ub', 'double'); big = R('1.7976931348623157e+308')
        lo, up = z3.simplify(lb), z3.simplify(ub); inf = lambda v, sg: z3.is_rational_value(v) and sg * v.as_fraction() >= 10**300
        if not inf(up, 1): ex.oblige(st, z3.Implies(ub < self.INF, s <= ub), 'the cut added holds for every feasible point (upper side)')
        if not inf(lo, -1): ex.oblige(st, z3.Implies(lb > -self.INF, s >= lb), 'the cut added holds for every feasible point (lower side)')
        if inf(lo, -1) and inf(up, 1): ex.oblige(st, TRUE, 'the cut added is free')
    def on_colcut(self, ex, st, cs, c):
        m = ex.models; k = P.fresh('k', Int)
        for f, le in (('lbs', True), ('ubs', False)):
            n, ia, ea = m.get(ex, st, c, f + '.n', 'int'), m.geta(ex, st, c, f + '.ind', 'int'), m.geta(ex, st, c, f + '.el', 'double')
            x = S(self.X, S(ia, k)); v = S(ea, k)
            ex.oblige(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), v <= x if le else v >= x)), 'the bounds added (%s) hold for every feasible point' % f)
