"""Assumed contracts of the libraries Cgl is built on (CoinUtils, Osi, libstdc++).  Everything in this file is trusted."""
import z3
from . import prove as P
from .engine import *
from .cast import Unsupported, ty

VEC = {'CoinPackedVector', 'CoinShallowPackedVector', 'CoinPackedVectorBase'}
class Models:
    noeffect = {'printf', 'fprintf', 'puts', 'fflush', 'putchar', 'assert', '__assert_fail', 'perror'}
    classes = VEC | {'OsiRowCut', 'OsiColCut', 'OsiCuts', 'OsiSolverInterface', 'CoinPackedMatrix', 'OsiCut', 'CoinMessageHandler', 'CoinMessages', 'OsiRowCutDebugger', 'CoinWarmStartBasis', 'CoinWarmStart', 'CoinRelFltEq', 'CoinAbsFltEq', 'CoinError', 'OsiClpSolverInterface', 'CoinThreadRandom'}
    constants = {}
    def __init__(self, problem=None): self.problem = problem; self.used = set()
    def base(self, t):
        t = strip(unref(t))
        if t.startswith('std::vector<') or t.startswith('vector<'): return 'vector'
        if t.startswith('std::'): return t.split('<')[0]
        return t.split('::')[-1]
    def is_model(self, t):
        b = self.base(t)
        return b in self.classes or b == 'vector' or b.startswith('std::')
    def velem(self, t):
        t = strip(unref(t)); i = t.index('<'); j = t.rindex('>')
        s = t[i + 1:j].split(',')[0].strip()
        return strip(s)
    # ---- object representation: model fields live in the region of the object
    FIELDS = {
        'vec': [('n', 'int', 0), ('ind', 'int', 1), ('el', 'double', 1)],
        'cut': [('n', 'int', 0), ('ind', 'int', 1), ('el', 'double', 1), ('lb', 'double', 0), ('ub', 'double', 0), ('eff', 'double', 0), ('glob', 'bool', 0)],
        'cuts': [('nrow', 'int', 0), ('ncol', 'int', 0)],
        'colcut': [('lbs.n', 'int', 0), ('lbs.ind', 'int', 1), ('lbs.el', 'double', 1), ('ubs.n', 'int', 0), ('ubs.ind', 'int', 1), ('ubs.el', 'double', 1), ('eff', 'double', 0)],
        'vector': [('n', 'int', 0), ('a', None, 1)],
        'set': [('mem', 'bool', 1)],      # std::set<int>: membership; an iterator is known only as present or end
        'opq': [('val', 'int', 0)],      # contents known only up to equality
    }
    OPQ = {'OsiSolverInterface', 'CoinPackedMatrix', 'CoinWarmStart', 'CoinWarmStartBasis', 'CoinThreadRandom', 'OsiClpSolverInterface'}
    VIO = z3.Function('violated', Int, P.AI, P.AR, Real, Real, P.AR, Real)   # OsiRowCut::violated
    def kind(self, t):
        b = self.base(t)
        if b in VEC: return 'vec'
        if b in self.OPQ: return 'opq'
        if b == 'std::set' and strip(unref(t)).endswith('>'): return 'set'
        return {'OsiRowCut': 'cut', 'OsiCuts': 'cuts', 'OsiColCut': 'colcut', 'vector': 'vector'}.get(b)
    def fields(self, t):
        k = self.kind(t)
        if k is None: return None
        return {f for f, _, _ in self.FIELDS[k]} | ({'r' + f for f, _, _ in self.FIELDS['cut']} if k == 'cuts' else set())
    def obj(self, ex, p): return ex.only(p)
    def fpath(self, a, f): return (a[3] + '.' + f) if a[3] else f
    def get(self, ex, st, p, f, t):
        a = self.obj(ex, p); v = ex.load(st, a[1], self.fpath(a, f), t)
        return z3.Select(v, a[2][-1]) if a[1].arr else v
    def set(self, ex, st, p, f, t, v):
        a = self.obj(ex, p)
        if a[1].arr: v = z3.Store(ex.load(st, a[1], self.fpath(a, f), t), a[2][-1], v)
        ex.store(st, a[1], self.fpath(a, f), t, v)
    def sub(self, ex, p, f, t):
        a = self.obj(ex, p)
        return ex.region((a[1].id, self.fpath(a, f), 'arr'), a[1].name + '.' + self.fpath(a, f), True, t, None, 2 if a[1].arr else 1, fresh=a[1].fresh)
    def subp(self, ex, p, f, t):
        a = self.obj(ex, p)
        return Ptr([(TRUE, self.sub(ex, p, f, t), (a[2][-1], I(0)) if a[1].arr else (I(0),), '')])
    def geta(self, ex, st, p, f, t):
        v = ex.load(st, self.sub(ex, p, f, t), '', t); a = self.obj(ex, p)
        return z3.Select(v, a[2][-1]) if a[1].arr else v
    def seta(self, ex, st, p, f, t, v):
        r = self.sub(ex, p, f, t); a = self.obj(ex, p)
        if a[1].arr: v = z3.Store(ex.load(st, r, '', t), a[2][-1], v)
        ex.store(st, r, '', t, v)
    # the rows of a cut collection: an array of OsiRowCut objects
    def rows(self, ex, p, i):
        a = self.obj(ex, p)
        if a[1].arr: raise Unsupported('array of cut collections')
        r = ex.region((a[1].id, self.fpath(a, 'rows'), 'rows'), a[1].name + '.' + self.fpath(a, 'rows'), True, 'OsiRowCut', None, 1, fresh=a[1].fresh)
        return Ptr([(TRUE, r, (i,), '')])
    def rowarr(self, ex, st, p, f, v=None):
        """the array of component f of all rows (optionally replaced by v)"""
        q = self.rows(ex, p, I(0)); ft, ar = [(t, a) for n, t, a in self.FIELDS['cut'] if n == f][0]
        r = self.sub(ex, q, f, ft) if ar else q.alts[0][1]; path = '' if ar else f
        if v is not None: ex.store(st, r, path, ft, v)
        return ex.load(st, r, path, ft)
    def getfield(self, ex, st, p, t, f):
        k = self.kind(t)
        if k == 'cuts' and f not in ('nrow', 'ncol'): return self.rowarr(ex, st, p, f[1:])
        for n, ft, a in self.FIELDS[k]:
            if n == f:
                if ft is None: ft = self.velem(t)
                return self.geta(ex, st, p, f, ft) if a else self.get(ex, st, p, f, ft)
    def havoc(self, ex, st, p, t):
        k = self.kind(t)
        if k is None: return
        for f, ft, a in self.FIELDS[k]:
            if ft is None: ft = self.velem(t)
            nm = self.obj(ex, p)[1].name + '.' + f
            if a: self.seta(ex, st, p, f, ft, ex.fresh(nm, z3.ArraySort(Int, sort_of(ft))))
            else: self.set(ex, st, p, f, ft, ex.fresh(nm, sort_of(ft)))
        if k == 'cuts':
            for f, ft, a in self.FIELDS['cut']: self.rowarr(ex, st, p, f, ex.fresh('rows.' + f, self.rowarr(ex, st, p, f).sort()))
        if k in ('vec', 'cut'): st.assume(self.get(ex, st, p, 'n', 'int') >= 0)
        if k == 'vector': st.assume(self.get(ex, st, p, 'n', 'int') >= 0)
    def copy(self, ex, st, dst, src, t):
        k = self.kind(t)
        if k is None: return
        if k == 'cuts':
            for f, ft, a in self.FIELDS['cut']: self.rowarr(ex, st, dst, f, self.rowarr(ex, st, src, f))
        for f, ft, a in self.FIELDS[k]:
            if ft is None: ft = self.velem(t)
            if a: self.seta(ex, st, dst, f, ft, self.geta(ex, st, src, f, ft))
            else: self.set(ex, st, dst, f, ft, self.get(ex, st, src, f, ft))
    def default_construct(self, ex, st, p, t):
        k = self.kind(t)
        if k is None:
            if self.is_model(t): return
            rec = ex.record(t)
            if rec is None: raise Unsupported('construct ' + t)
            # default-initialised plain record: fields indeterminate
            for n, ft in ex.allfields(rec):
                if ex.is_record(ft): self.default_construct(ex, st, ex.fld(p, n), ft)
                elif sort_of(ft) is not None: ex.write(st, ex.fld(p, n), ft, ex.fresh(n, sort_of(ft)))
            return
        for f, ft, a in self.FIELDS[k]:
            if ft is None: ft = self.velem(t)
            s = sort_of(ft); nm = self.obj(ex, p)[1].name + '.' + f
            if k == 'set': self.seta(ex, st, p, f, ft, z3.K(Int, FALSE))
            elif a: self.seta(ex, st, p, f, ft, ex.fresh(nm, z3.ArraySort(Int, s)))
            else: self.set(ex, st, p, f, ft, I(0) if s == Int else R(0) if s == Real else FALSE)
        if k == 'cut':
            self.set(ex, st, p, 'lb', 'double', R('-1.7976931348623157e+308')); self.set(ex, st, p, 'ub', 'double', R('1.7976931348623157e+308'))
    def construct(self, ex, st, p, t, args, e):
        k = self.kind(t); b = self.base(t)
        self.used.add(b + '::' + b)
        if k is None:
            for a in args:
                try: ex.arg(a, st)
                except Unsupported: pass
            return
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if not args: return self.default_construct(ex, st, p, t)
        t0 = strip(unref(ty(args[0])))
        if self.kind(t0) == k or (k == 'vec' and self.kind(t0) in ('vec',)):
            self.copy(ex, st, p, ex.evl(args[0], st), t); return
        if k == 'vec' and len(args) in (3, 4):
            n = ex.conv(ex.ev(args[0], st), 'int'); ip = ex.ev(args[1], st); ep = ex.ev(args[2], st)
            self.setvec(ex, st, p, n, ip, ep); return
        if k == 'vec' and len(args) == 1: return self.default_construct(ex, st, p, t)
        if k == 'vector':
            et = self.velem(t)
            n = ex.conv(ex.ev(args[0], st), 'int')
            self.default_construct(ex, st, p, t)
            self.set(ex, st, p, 'n', 'int', n)
            v = ex.conv(ex.ev(args[1], st), et) if len(args) > 1 else {Int: I(0), Real: R(0), Bool: FALSE}[sort_of(et)]
            self.seta(ex, st, p, 'a', et, z3.K(Int, v))
            return
        raise Unsupported('constructor of %s' % t)
    def slice(self, ex, st, q, t, n):
        """z3 array holding the elements starting at pointer q (type t)"""
        if isinstance(q, Opaque): raise Unsupported('opaque array')
        al = [a for a in q.alts if a[1] is not None]
        if not al: return None
        if len(al) != 1: raise Unsupported('ambiguous array argument')
        g, r, idx, path = al[0]
        c = ex.load(st, r, path, t)
        if not r.arr and not z3.is_array(c): return z3.K(Int, c)        # the address of one variable
        if r.dims == 2: c = z3.Select(c, idx[0])
        o = z3.simplify(idx[-1])
        if z3.is_int_value(o) and o.as_long() == 0: return c
        a = ex.fresh('slice', c.sort()); k = P.fresh('k', Int)
        st.assume(z3.ForAll([k], z3.Select(a, k) == z3.Select(c, o + k), patterns=[z3.Select(a, k)]))
        return a
    def setvec(self, ex, st, p, n, ip, ep):
        ia = self.slice(ex, st, ip, 'int', n); ea = self.slice(ex, st, ep, 'double', n) if isinstance(ep, Ptr) else z3.K(Int, ex.conv(ep, 'double'))
        if ia is None or ea is None:
            self.set(ex, st, p, 'n', 'int', I(0)); return
        self.set(ex, st, p, 'n', 'int', n)
        self.seta(ex, st, p, 'ind', 'int', ia); self.seta(ex, st, p, 'el', 'double', ea)
    # ------------------------------------------------------------------ methods
    def method(self, ex, st, cls, name, obj, args, e):
        b = cls
        h = self.problem.method(ex, st, cls, name, obj, args, e) if self.problem else NotModelled
        if h is not NotModelled: self.used.add(cls + '::' + name); return h
        tb = ''
        if e['inner'][0].get('inner'):
            b0 = e['inner'][0]['inner'][0]
            while b0.get('kind') == 'ImplicitCastExpr' and b0.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase') and self.kind(strip(ty(b0)).rstrip('*')) is None: b0 = b0['inner'][0]
            tb = ty(b0)
        full = strip(unref(pointee(tb) if isptr(tb) else tb))
        k = self.kind(full)
        if k is None: return NotModelled
        m = getattr(self, 'm_%s_%s' % (k, name.strip('~')), None)
        if m is None: raise Unsupported('library method %s::%s' % (cls, name))
        self.used.add(cls + '::' + name)
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        return m(ex, st, obj, args, e, full)
    def m_vec_getNumElements(self, ex, st, o, a, e, t): return self.get(ex, st, o, 'n', 'int')
    m_vec_size = m_vec_getNumElements
    def m_vec_getIndices(self, ex, st, o, a, e, t): return self.subp(ex, o, 'ind', 'int')
    def m_vec_getElements(self, ex, st, o, a, e, t): return self.subp(ex, o, 'el', 'double')
    def m_vec_insert(self, ex, st, o, a, e, t):
        i = ex.conv(ex.ev(a[0], st), 'int'); v = ex.conv(ex.ev(a[1], st), 'double')
        n = self.get(ex, st, o, 'n', 'int')
        self.seta(ex, st, o, 'ind', 'int', z3.Store(self.geta(ex, st, o, 'ind', 'int'), n, i))
        self.seta(ex, st, o, 'el', 'double', z3.Store(self.geta(ex, st, o, 'el', 'double'), n, v))
        self.set(ex, st, o, 'n', 'int', z3.simplify(n + 1)); return I(0)
    def m_vec_clear(self, ex, st, o, a, e, t): self.set(ex, st, o, 'n', 'int', I(0)); return I(0)
    def m_vec_reserve(self, ex, st, o, a, e, t): return I(0)
    def m_vec_setVector(self, ex, st, o, a, e, t):
        n = ex.conv(ex.ev(a[0], st), 'int'); ip = ex.ev(a[1], st); ep = ex.ev(a[2], st)
        self.setvec(ex, st, o, n, ip, ep); return I(0)
    def m_vec_truncate(self, ex, st, o, a, e, t): self.set(ex, st, o, 'n', 'int', ex.conv(ex.ev(a[0], st), 'int')); return I(0)
    def m_vec_setTestForDuplicateIndex(self, ex, st, o, a, e, t): return I(0)
    def m_vec_setElement(self, ex, st, o, a, e, t):
        i = ex.conv(ex.ev(a[0], st), 'int'); v = ex.conv(ex.ev(a[1], st), 'double')
        self.seta(ex, st, o, 'el', 'double', z3.Store(self.geta(ex, st, o, 'el', 'double'), i, v)); return I(0)
    # sorting permutes the entries: every weighted sum and every property of the entries is kept
    def m_vec_sort(self, ex, st, o, a, e, t, order=None):
        n, ia, ea = self.get(ex, st, o, 'n', 'int'), self.geta(ex, st, o, 'ind', 'int'), self.geta(ex, st, o, 'el', 'double')
        w, x = ex.fresh('sorted', P.AR), ex.fresh('sortedind', P.AI); q, r = P.fresh('k', Int), P.fresh('r', Int); pi = z3.Function('perm!%d' % ex.fresh('p', Int).get_id(), Int, Int)
        st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(pi(q) >= 0, pi(q) < n, z3.Select(w, q) == z3.Select(ea, pi(q)), z3.Select(x, q) == z3.Select(ia, pi(q)))), patterns=[z3.Select(w, q)]))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(pi(q) >= 0, pi(q) < n, z3.Select(x, q) == z3.Select(ia, pi(q)))), patterns=[z3.Select(x, q)]))
        st.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n), pi(q) != pi(r)), patterns=[z3.MultiPattern(pi(q), pi(r))]))
        for v in getattr(self.problem, 'weights', ()): st.assume(P.PS(w, x, v, I(0), n) == P.PS(ea, ia, v, I(0), n))
        st.assume(P.SM(w, I(0), n) == P.SM(ea, I(0), n)); self.seta(ex, st, o, 'el', 'double', w); self.seta(ex, st, o, 'ind', 'int', x); return I(0)
    m_vec_sortDecrElement = m_vec_sortIncrElement = m_vec_sortIncrIndex = m_vec_sortDecrIndex = m_vec_sort
    def m_vec_sum(self, ex, st, o, a, e, t): return P.SM(self.geta(ex, st, o, 'el', 'double'), I(0), self.get(ex, st, o, 'n', 'int'))
    def m_vec_setConstant(self, ex, st, o, a, e, t):
        n = ex.conv(ex.ev(a[0], st), 'int'); ip = ex.ev(a[1], st); v = ex.conv(ex.ev(a[2], st), 'double'); self.setvec(ex, st, o, n, ip, v); return I(0)
    def m_vec_isExistingIndex(self, ex, st, o, a, e, t): return self.m_vec_findIndex(ex, st, o, a, e, t) >= 0
    def m_vec_findIndex(self, ex, st, o, a, e, t):
        i = ex.conv(ex.ev(a[0], st), 'int'); ia, n = self.geta(ex, st, o, 'ind', 'int'), self.get(ex, st, o, 'n', 'int')
        pos = ex.fresh('pos', Int); q = P.fresh('k', Int)
        st.assume(z3.Or(z3.And(pos >= 0, pos < n, z3.Select(ia, pos) == i), z3.And(pos == -1, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Select(ia, q) != i), patterns=[z3.Select(ia, q)])))); return pos
    # row cut
    def m_cut_setRow(self, ex, st, o, a, e, t):
        if len(a) >= 3:
            n = ex.conv(ex.ev(a[0], st), 'int'); ip = ex.ev(a[1], st); ep = ex.ev(a[2], st)
            self.setvec(ex, st, o, n, ip, ep)
        else:
            v = ex.evl(a[0], st)
            self.set(ex, st, o, 'n', 'int', self.get(ex, st, v, 'n', 'int'))
            self.seta(ex, st, o, 'ind', 'int', self.geta(ex, st, v, 'ind', 'int')); self.seta(ex, st, o, 'el', 'double', self.geta(ex, st, v, 'el', 'double'))
        return I(0)
    def m_cut_setLb(self, ex, st, o, a, e, t): self.set(ex, st, o, 'lb', 'double', ex.conv(ex.ev(a[0], st), 'double')); return I(0)
    def m_cut_setUb(self, ex, st, o, a, e, t): self.set(ex, st, o, 'ub', 'double', ex.conv(ex.ev(a[0], st), 'double')); return I(0)
    def m_cut_setEffectiveness(self, ex, st, o, a, e, t): self.set(ex, st, o, 'eff', 'double', ex.conv(ex.ev(a[0], st), 'double')); return I(0)
    def m_cut_setGloballyValid(self, ex, st, o, a, e, t):
        self.set(ex, st, o, 'glob', 'bool', ex.tobool(ex.ev(a[0], st)) if a else TRUE); return I(0)
    def m_cut_lb(self, ex, st, o, a, e, t): return self.get(ex, st, o, 'lb', 'double')
    def m_cut_ub(self, ex, st, o, a, e, t): return self.get(ex, st, o, 'ub', 'double')
    def m_cut_effectiveness(self, ex, st, o, a, e, t): return self.get(ex, st, o, 'eff', 'double')
    def m_cut_violated(self, ex, st, o, a, e, t):
        x = self.slice(ex, st, ex.ev(a[0], st), 'double', None)
        return self.VIO(self.get(ex, st, o, 'n', 'int'), self.geta(ex, st, o, 'ind', 'int'), self.geta(ex, st, o, 'el', 'double'), self.get(ex, st, o, 'lb', 'double'), self.get(ex, st, o, 'ub', 'double'), x)
    def m_opq_clone(self, ex, st, o, a, e, t):
        r = ex.region(('clone', ex.frame.tag, e.get('id')), 'clone', False, t, fresh=True)
        self.copy(ex, st, ptr(r), o, t); return ptr(r)
    NROWS = z3.Function('numRows', Int, Int); NCOLS = z3.Function('numCols', Int, Int)
    def m_opq_getNumRows(self, ex, st, o, a, e, t):
        v = self.NROWS(self.get(ex, st, o, 'val', 'int')); st.assume(v >= 0); return v
    def m_opq_getNumCols(self, ex, st, o, a, e, t):
        v = self.NCOLS(self.get(ex, st, o, 'val', 'int')); st.assume(v >= 0); return v
    def m_cut_row(self, ex, st, o, a, e, t): return o
    def m_cut_mutableRow(self, ex, st, o, a, e, t): return o
    # cut collection
    def m_cuts_sizeRowCuts(self, ex, st, o, a, e, t):
        n = self.get(ex, st, o, 'nrow', 'int'); st.assume(n >= 0); return n
    def m_cuts_sizeColCuts(self, ex, st, o, a, e, t): return self.get(ex, st, o, 'ncol', 'int')
    def m_cuts_sizeCuts(self, ex, st, o, a, e, t): return self.get(ex, st, o, 'nrow', 'int') + self.get(ex, st, o, 'ncol', 'int')
    def m_cuts_insert(self, ex, st, o, a, e, t, maybe=False):
        ct = strip(unref(ty(a[0])))
        c = ex.ev(a[0], st) if isptr(ct) else ex.evl(a[0], st)
        if isptr(ct): ct = pointee(ct)
        if self.kind(ct) == 'colcut':
            self.problem.on_colcut(ex, st, o, c)
            self.set(ex, st, o, 'ncol', 'int', self.get(ex, st, o, 'ncol', 'int') + 1); return I(0)
        if self.problem and hasattr(self.problem, 'on_rowcut'): self.problem.on_rowcut(ex, st, o, c)
        n = self.get(ex, st, o, 'nrow', 'int'); st.assume(n >= 0)
        if self.track_rows: self.copy(ex, st, self.rows(ex, o, n), c, 'OsiRowCut')
        if maybe:
            d = ex.fresh('nrow', Int); st.assume(z3.Or(d == n, d == n + 1)); self.set(ex, st, o, 'nrow', 'int', d)
        else: self.set(ex, st, o, 'nrow', 'int', n + 1)
        return I(0)
    track_rows = True
    def m_cuts_insertIfNotDuplicate(self, ex, st, o, a, e, t): return self.m_cuts_insert(ex, st, o, a, e, t, True)
    def m_cuts_insertIfNotDuplicateAndClean(self, ex, st, o, a, e, t): return self.m_cuts_insert(ex, st, o, a, e, t, True)
    def m_cuts_rowCutPtr(self, ex, st, o, a, e, t):
        return self.rows(ex, o, ex.conv(ex.ev(a[0], st), 'int'))
    def m_cuts_rowCut(self, ex, st, o, a, e, t): return self.m_cuts_rowCutPtr(ex, st, o, a, e, t)
    # column cut
    def m_colcut_setLbs(self, ex, st, o, a, e, t, f='lbs'):
        if len(a) == 1:
            v = ex.evl(a[0], st)
            n, ia, ea = self.get(ex, st, v, 'n', 'int'), self.geta(ex, st, v, 'ind', 'int'), self.geta(ex, st, v, 'el', 'double')
        else:
            n = ex.conv(ex.ev(a[0], st), 'int'); ia = self.slice(ex, st, ex.ev(a[1], st), 'int', n); ea = self.slice(ex, st, ex.ev(a[2], st), 'double', n)
        self.set(ex, st, o, f + '.n', 'int', n); self.seta(ex, st, o, f + '.ind', 'int', ia); self.seta(ex, st, o, f + '.el', 'double', ea); return I(0)
    def m_colcut_setUbs(self, ex, st, o, a, e, t): return self.m_colcut_setLbs(ex, st, o, a, e, t, 'ubs')
    def m_colcut_setEffectiveness(self, ex, st, o, a, e, t): ex.ev(a[0], st); return I(0)
    def m_colcut_setGloballyValid(self, ex, st, o, a, e, t): return I(0)
    # std::vector
    def m_vector_size(self, ex, st, o, a, e, t): return self.get(ex, st, o, 'n', 'int')
    def m_vector_begin(self, ex, st, o, a, e, t): return self.subp(ex, o, 'a', self.velem(t))
    def m_vector_data(self, ex, st, o, a, e, t): return self.subp(ex, o, 'a', self.velem(t))
    def m_vector_end(self, ex, st, o, a, e, t): return Ptr([(TRUE, self.sub(ex, o, 'a', self.velem(t)), (self.get(ex, st, o, 'n', 'int'),), '')])
    def m_vector_push_back(self, ex, st, o, a, e, t):
        et = self.velem(t); n = self.get(ex, st, o, 'n', 'int')
        v = ex.ev(a[0], st) if ex.is_record(et) is False else None
        if isinstance(v, Ptr): v = ex.read(st, v, et)
        self.seta(ex, st, o, 'a', et, z3.Store(self.geta(ex, st, o, 'a', et), n, ex.conv(v, et))); self.set(ex, st, o, 'n', 'int', z3.simplify(n + 1)); return I(0)
    def m_vector_clear(self, ex, st, o, a, e, t): self.set(ex, st, o, 'n', 'int', I(0)); return I(0)
    def m_vector_resize(self, ex, st, o, a, e, t):
        et = self.velem(t); n = self.get(ex, st, o, 'n', 'int'); m = ex.conv(ex.ev(a[0], st), 'int'); o_ = self.geta(ex, st, o, 'a', et)
        f = P.fresh('resized', o_.sort()); k = P.fresh('k', z3.IntSort()); st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(f, k) == z3.Select(o_, k)), patterns=[z3.Select(f, k)]))
        self.seta(ex, st, o, 'a', et, f); self.set(ex, st, o, 'n', 'int', z3.simplify(m)); return I(0)
    def m_vector_reserve(self, ex, st, o, a, e, t): return I(0)
    # std::set<int>
    def setarg(self, ex, st, a):
        v = ex.ev(a, st)
        return ex.conv(ex.read(st, v, 'int') if isinstance(v, Ptr) else v, 'int')
    def m_set_find(self, ex, st, o, a, e, t): return z3.If(z3.Select(self.geta(ex, st, o, 'mem', 'bool'), self.setarg(ex, st, a[0])), I(1), I(0))
    m_set_count = m_set_find
    def m_set_end(self, ex, st, o, a, e, t): return I(0)
    def m_set_insert(self, ex, st, o, a, e, t): self.seta(ex, st, o, 'mem', 'bool', z3.Store(self.geta(ex, st, o, 'mem', 'bool'), self.setarg(ex, st, a[0]), TRUE)); return I(0)
    def m_set_erase(self, ex, st, o, a, e, t): self.seta(ex, st, o, 'mem', 'bool', z3.Store(self.geta(ex, st, o, 'mem', 'bool'), self.setarg(ex, st, a[0]), FALSE)); return I(0)
    def m_set_clear(self, ex, st, o, a, e, t): self.seta(ex, st, o, 'mem', 'bool', z3.K(Int, FALSE)); return I(0)
    def operator(self, ex, st, t0, name, args, e):
        k = self.kind(t0)
        if name in ('operator==', 'operator!=') and 'iterator' in t0:
            v = [ex.ev(x, st) for x in args]
            if all(z3.is_expr(x) and x.sort() == Int for x in v): return v[0] == v[1] if name == 'operator==' else v[0] != v[1]
        if k == 'vector' and name == 'operator[]':
            o = ex.evl(args[0], st); i = ex.conv(ex.ev(args[1], st), 'int')
            et = self.velem(t0); p = Ptr([(TRUE, self.sub(ex, o, 'a', et), (i,), '')])
            return p
        if k == 'vec' and name in ('operator*=', 'operator/='):
            o = ex.evl(args[0], st); c = ex.conv(ex.ev(args[1], st), 'double'); n, ia, ea = self.get(ex, st, o, 'n', 'int'), self.geta(ex, st, o, 'ind', 'int'), self.geta(ex, st, o, 'el', 'double')
            if name == 'operator/=': c = 1 / c
            w = ex.fresh('scaled', P.AR); q = P.fresh('k', Int); self.used.add('CoinPackedVector::' + name)
            st.assume(z3.ForAll([q], z3.Select(w, q) == c * z3.Select(ea, q), patterns=[z3.Select(w, q)]))
            if self.problem: st.assume(P.PS(w, ia, self.problem.X, I(0), n) == c * P.PS(ea, ia, self.problem.X, I(0), n))
            self.seta(ex, st, o, 'el', 'double', w); return o
        if k == 'vec' and name in ('operator+', 'operator-') and len(args) == 2 and self.problem:
            # CoinUtils: the sum (difference) of two sparse vectors
            vs = []
            for x in args:
                v = ex.evl(x, st); vs.append(P.PS(self.geta(ex, st, v, 'el', 'double'), self.geta(ex, st, v, 'ind', 'int'), self.problem.X, I(0), self.get(ex, st, v, 'n', 'int')))
            r = ptr(ex.region(('vecop', ex.frame.tag, e.get('id')), 'vecop', False, 'CoinPackedVector', fresh=True)); self.used.add('CoinPackedVector ' + name)
            self.havoc(ex, st, r, 'CoinPackedVector')
            v = P.PS(self.geta(ex, st, r, 'el', 'double'), self.geta(ex, st, r, 'ind', 'int'), self.problem.X, I(0), self.get(ex, st, r, 'n', 'int'))
            st.assume(v == (vs[0] + vs[1] if name == 'operator+' else vs[0] - vs[1])); return r
        if k == 'vec' and name == 'operator[]':
            o = ex.evl(args[0], st); i = ex.conv(ex.ev(args[1], st), 'int'); self.used.add('CoinPackedVector::operator[]')
            ia, ea, n = self.geta(ex, st, o, 'ind', 'int'), self.geta(ex, st, o, 'el', 'double'), self.get(ex, st, o, 'n', 'int')
            v = ex.fresh('entry', Real); pos = ex.fresh('pos', Int); q = P.fresh('k', Int)
            st.assume(z3.Or(z3.And(pos >= 0, pos < n, z3.Select(ia, pos) == i, v == z3.Select(ea, pos)), z3.And(v == 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Select(ia, q) != i), patterns=[z3.Select(ia, q)])))); return v
        if name == 'operator=' and k is not None:
            dst, src = ex.evl(args[0], st), ex.evl(args[1], st); self.copy(ex, st, dst, src, t0); return dst
        if name == 'operator()' and self.base(t0) in ('CoinRelFltEq', 'CoinAbsFltEq'):
            for a in args[1:]: ex.ev(a, st)
            return ex.fresh('flteq', Bool)
        if name == 'operator<<' or self.base(t0).startswith('std::') or self.base(t0) == 'CoinMessageHandler':
            return Opaque('stream')
        if self.problem:
            r = self.problem.operator(ex, st, t0, name, args, e)
            if r is not NotModelled: return r
        return NotModelled
    # ------------------------------------------------------------------ free functions
    def call(self, ex, st, name, args, e):
        m = getattr(self, 'f_' + name, None)
        if m: self.used.add(name); return m(ex, st, [a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], e)
        if self.problem:
            r = self.problem.call(ex, st, name, args, e)
            if r is not NotModelled: self.used.add(name); return r
        if name in self.noeffect:
            return ex.fresh(name, Int)
        return NotModelled
    def num(self, ex, st, a, t='double'): return ex.conv(ex.ev(a, st), t)
    def f_floor(self, ex, st, a, e): return P.floor(self.num(ex, st, a[0]))
    def f_ceil(self, ex, st, a, e): return P.ceil(self.num(ex, st, a[0]))
    def f_fabs(self, ex, st, a, e): return P.absr(self.num(ex, st, a[0]))
    def f_abs(self, ex, st, a, e):
        v = ex.ev(a[0], st); return z3.If(v >= 0, v, -v)
    def f_sqrt(self, ex, st, a, e):
        v = self.num(ex, st, a[0]); r = ex.fresh('sqrt', Real); st.assume(z3.Implies(v >= 0, z3.And(r >= 0, r * r == v))); return r
    def f_pow(self, ex, st, a, e):
        b = self.num(ex, st, a[0]); k = ex.ev(a[1], st)
        if z3.is_rational_value(b) and b.as_fraction() == 10:
            if k.sort() == Real:
                k = k.arg(0) if k.decl().kind() == z3.Z3_OP_TO_REAL else None
            if k is not None: return P.pow10(k)
        return ex.fresh('pow', Real)
    def _sel(self, ex, st, a, lt):
        p, q = ex.arg(a[0], st), ex.arg(a[1], st)
        t = strip(unref(ty(a[0])))
        x = ex.read(st, p, t) if isinstance(p, Ptr) else p
        y = ex.read(st, q, strip(unref(ty(a[1])))) if isinstance(q, Ptr) else q
        if x.sort() != y.sort(): x, y = ex.conv(x, 'double'), ex.conv(y, 'double')
        return z3.If(x <= y, x, y) if lt else z3.If(x >= y, x, y)
    LIM = {'double': ('2.2250738585072014e-308', '1.7976931348623157e+308'), 'int': (-2**31, 2**31 - 1)}
    def limit(self, e, k):
        t = strip(ty(e)); v = self.LIM.get(t)
        if v is None: raise Unsupported('numeric limit of ' + t)
        return R(v[k]) if t == 'double' else I(v[k])
    def f_min(self, ex, st, a, e): return self._sel(ex, st, a, True) if a else self.limit(e, 0)
    def f_max(self, ex, st, a, e): return self._sel(ex, st, a, False) if a else self.limit(e, 1)
    f_CoinMin = f_min; f_CoinMax = f_max; f_fmin = f_min; f_fmax = f_max
    def f_rand(self, ex, st, a, e): v = ex.fresh('rand', Int); st.assume(v >= 0); return v
    def f_CoinDrand48(self, ex, st, a, e): v = ex.fresh('rand', Real); st.assume(z3.And(v >= 0, v <= 1)); return v
    def f_CoinCpuTime(self, ex, st, a, e): return ex.fresh('time', Real)
    def f_exit(self, ex, st, a, e): raise ThrowPath()
    f_abort = f_exit
    def f_free(self, ex, st, a, e): return ex.release(st, ex.ev(a[0], st))
    def f_swap(self, ex, st, a, e):
        p, q = ex.evl(a[0], st), ex.evl(a[1], st); t = strip(unref(ty(a[0])))
        x, y = ex.read(st, p, t), ex.read(st, q, t); ex.write(st, p, t, y); ex.write(st, q, t, x); return I(0)
    # block operations
    def region_of(self, ex, q):
        al = [a for a in q.alts if a[1] is not None]
        if len(al) != 1: raise Unsupported('ambiguous block')
        return al[0]
    def setrange(self, ex, st, q, n, fn, t=None, path=None):
        """contents[off .. off+n) := fn(k) (k relative), rest unchanged"""
        g, r, idx, path0 = self.region_of(ex, q)
        if path is None: path = path0
        t = t or r.ety
        c = ex.load(st, r, path, t); row = None
        if r.dims == 2: row = idx[0]; c2 = z3.Select(c, row)
        else: c2 = c
        o = idx[-1]
        a = ex.fresh(r.name, c2.sort()); k = P.fresh('k', Int)
        st.assume(z3.ForAll([k], z3.Select(a, k) == z3.If(z3.And(k >= o, k < o + n), fn(k - o), z3.Select(c2, k)), patterns=[z3.Select(a, k)]))
        ex.store(st, r, path, t, z3.Store(c, row, a) if row is not None else a)
    def blockcopy(self, ex, st, src, n, dst):
        g, r, idx, path = self.region_of(ex, src)
        if r.ety and ex.is_record(r.ety):
            o = idx[-1]
            for lf, lt in ex.leaves(r.ety):
                c = ex.load(st, r, lf, lt)
                self.setrange(ex, st, dst, n, lambda k: z3.Select(c, o + k), lt, lf)
            return
        c = ex.load(st, r, path, r.ety)
        if r.dims == 2: c = z3.Select(c, idx[0])
        o = idx[-1]; d = self.region_of(ex, dst)
        def fn(k):
            v = z3.Select(c, o + k); return ex.conv(v, d[1].ety)
        self.setrange(ex, st, dst, n, fn)
    def f_transform(self, ex, st, a, e):
        if len(a) != 4 or 'negate' not in ty(a[3]): raise Unsupported('transform')
        p, q, d = ex.ev(a[0], st), ex.ev(a[1], st), ex.ev(a[2], st)
        g, r, idx, path = self.region_of(ex, p); n = ex.ptrop('-', q, p, st); c = ex.load(st, r, path, r.ety)
        if r.dims == 2: c = z3.Select(c, idx[0])
        self.setrange(ex, st, d, n, lambda k: -z3.Select(c, idx[-1] + k)); return ex.padd(d, n)
    def f_fill(self, ex, st, a, e):
        p, q = ex.ev(a[0], st), ex.ev(a[1], st); v = ex.ev(a[2], st)
        if isinstance(v, Ptr): v = ex.read(st, v, ty(a[2]))
        r = self.region_of(ex, p); n = ex.ptrop('-', q, p, st); v = ex.conv(v, r[1].ety)
        self.setrange(ex, st, p, n, lambda k: v); return I(0)
    def f_fill_n(self, ex, st, a, e): return self.f_CoinFillN(ex, st, a, e)
    def f_CoinFillN(self, ex, st, a, e):
        p = ex.ev(a[0], st); n = self.num(ex, st, a[1], 'int'); v = ex.ev(a[2], st)
        if isinstance(v, Ptr): v = ex.read(st, v, ty(a[2]))
        r = self.region_of(ex, p); v = ex.conv(v, r[1].ety)
        self.setrange(ex, st, p, n, lambda k: v); return I(0)
    def f_CoinZeroN(self, ex, st, a, e):
        p = ex.ev(a[0], st); n = self.num(ex, st, a[1], 'int'); r = self.region_of(ex, p)
        z = {Int: I(0), Real: R(0), Bool: FALSE}[sort_of(r[1].ety)]
        self.setrange(ex, st, p, n, lambda k: z); return I(0)
    def f_CoinIotaN(self, ex, st, a, e):
        p = ex.ev(a[0], st); n = self.num(ex, st, a[1], 'int'); v = self.num(ex, st, a[2], 'int')
        self.setrange(ex, st, p, n, lambda k: v + k); return I(0)
    def f_CoinCopyN(self, ex, st, a, e):
        p = ex.ev(a[0], st); n = self.num(ex, st, a[1], 'int'); d = ex.ev(a[2], st); self.blockcopy(ex, st, p, n, d); return I(0)
    f_CoinDisjointCopyN = f_CoinCopyN; f_CoinMemcpyN = f_CoinCopyN
    def f_copy(self, ex, st, a, e):
        p, q, d = ex.ev(a[0], st), ex.ev(a[1], st), ex.ev(a[2], st)
        n = z3.simplify(ex.ptrop('-', q, p, st), som=True); self.blockcopy(ex, st, p, n, d); return ex.padd(d, n)
    def f_CoinCopyOfArray(self, ex, st, a, e):
        p = ex.ev(a[0], st); n = self.num(ex, st, a[1], 'int')
        if not isinstance(p, Ptr): return NULL
        al = [x for x in p.alts if x[1] is not None]
        if not al: return NULL
        g, r, idx, path = self.region_of(ex, p)
        nr = Region(('copy', ex.frame.tag, e.get('id')), 'copyof.' + r.name, True, r.ety, n, 1, fresh=True)
        nr = ex.regions.setdefault(nr.id, nr); nr.size = n
        st.store.pop((nr.id, '#freed'), None)
        o = z3.simplify(idx[-1])
        for lf, lt in (ex.leaves(r.ety) if ex.is_record(r.ety) else [(path, r.ety)]):
            # only the first n elements are copied
            c = ex.load(st, r, lf, lt); b = ex.fresh(nr.name, c.sort()); k = P.fresh('k', Int)
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(b, k) == z3.Select(c, o + k)), patterns=[z3.Select(b, k)])); ex.store(st, nr, lf, lt, b)
        nulls = [x for x in p.alts if x[1] is None]
        if nulls: return Ptr([(x[0], None, (I(0),), '') for x in nulls] + [(al[0][0], nr, (I(0),), '')])
        return ptr(nr)
    def bytes_to_n(self, ex, st, a, ety):
        """element count of a byte length expression"""
        v = ex.conv(ex.ev(a, st), 'int')
        if strip(ety) in ('char', 'bool', 'unsigned char', 'signed char'): return v
        v = z3.simplify(v)
        s = z3.Const('sizeof:' + strip(ety), Int)
        # v must be  n * sizeof(T)
        n = ex.fresh('count', Int)
        q = divide(v, s)
        if q is None: raise Unsupported('byte count')
        return q
    def f_memset(self, ex, st, a, e):
        p = ex.ev(a[0], st); v = self.num(ex, st, a[1], 'int'); r = self.region_of(ex, p)
        if r[1].ety and ex.is_record(r[1].ety): raise Unsupported('memset of records')
        n = self.bytes_to_n(ex, st, a[2], r[1].ety); s = sort_of(r[1].ety)
        if s == Int and strip(r[1].ety) in ('char', 'unsigned char', 'signed char'): val = v
        elif z3.is_int_value(v) and v.as_long() == 0: val = {Int: I(0), Real: R(0), Bool: FALSE}[s]
        elif s == Bool: val = v != 0
        else: raise Unsupported('memset value')
        self.setrange(ex, st, p, n, lambda k: val); return p
    def f_memcpy(self, ex, st, a, e):
        d = ex.ev(a[0], st); p = ex.ev(a[1], st); r = self.region_of(ex, d)
        n = self.bytes_to_n(ex, st, a[2], r[1].ety); self.blockcopy(ex, st, p, n, d); return d
    f_memmove = f_memcpy
    def f_accumulate(self, ex, st, a, e):
        if hasattr(self.problem, 'accumulate'): return self.problem.accumulate(ex, st, a, e)
        return ex.fresh('accumulate', Int)
    def sort2(self, ex, st, ptrs, n, order=False):
        """the arrays are permuted by one common permutation of [0,n); with the default order the first is ascending afterwards"""
        pi = ex.fresh('perm', z3.ArraySort(Int, Int)); inv = ex.fresh('perminv', z3.ArraySort(Int, Int)); k = P.fresh('k', Int)
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(pi[k] >= 0, pi[k] < n, inv[pi[k]] == k)), patterns=[pi[k]]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(inv[k] >= 0, inv[k] < n, pi[inv[k]] == k)), patterns=[inv[k]]))
        for j, q in enumerate(ptrs):
            g, r, idx, path = self.region_of(ex, q); o = idx[-1]
            lv = [(path + ('.' if path and lf else '') + lf, lt) for lf, lt in ex.leaves(r.ety)] if r.ety and ex.is_record(r.ety) and not path else [(path, r.ety if not path else dict(ex.leaves(r.ety)).get(path, r.ety))]
            for lf, lt in lv:
                c = ex.load(st, r, lf, lt)
                self.setrange(ex, st, q, n, lambda k, c=c, o=o: z3.Select(c, o + pi[k]), lt, lf)
            if order and j == 0 and len(lv) == 1:
                c = ex.load(st, r, lv[0][0], lv[0][1]); a, b = P.fresh('a', Int), P.fresh('b', Int)
                st.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= o, a <= b, b < o + n), z3.Select(c, a) <= z3.Select(c, b)), patterns=[z3.MultiPattern(z3.Select(c, a), z3.Select(c, b))]))
    def f_CoinSort_2(self, ex, st, a, e):
        p, q, d = ex.ev(a[0], st), ex.ev(a[1], st), ex.ev(a[2], st)
        self.sort2(ex, st, [p, d], ex.ptrop('-', q, p, st), len(a) == 3); return I(0)
    def f_CoinSort_3(self, ex, st, a, e):
        p, q, d, f = ex.ev(a[0], st), ex.ev(a[1], st), ex.ev(a[2], st), ex.ev(a[3], st)
        self.sort2(ex, st, [p, d, f], ex.ptrop('-', q, p, st), len(a) == 4); return I(0)
    def f_sort(self, ex, st, a, e):
        p, q = ex.ev(a[0], st), ex.ev(a[1], st)
        n = ex.ptrop('-', q, p, st); g, r, idx, path = self.region_of(ex, p); o = idx[-1]; W = getattr(self.problem, 'index_weights', ()) if len(idx) == 1 else ()
        c = ex.load(st, r, path, r.ety) if W else None
        self.sort2(ex, st, [p], n, len(a) == 2)
        if W and c.sort() == P.AI:
            c2 = ex.load(st, r, path, r.ety)
            for w in W: st.assume(P.GS(c2, w, o, o + n) == P.GS(c, w, o, o + n))
        return I(0)

def divide(v, s):
    """v / s for a term v that is a sum of products containing s exactly once"""
    v = z3.simplify(v, som=True)
    if v.eq(s): return z3.IntVal(1)
    if z3.is_add(v):
        parts = [divide(c, s) for c in v.children()]
        if any(p is None for p in parts): return None
        return z3.Sum(parts)
    if z3.is_mul(v):
        ch = list(v.children())
        for i, c in enumerate(ch):
            if c.eq(s):
                rest = ch[:i] + ch[i + 1:]
                out = rest[0] if rest else z3.IntVal(1)
                for x in rest[1:]: out = out * x
                return out
    if z3.is_int_value(v) and v.as_long() == 0: return z3.IntVal(0)
    return None
