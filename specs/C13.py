"""C13: copy constructors, assignment operators and clones reproduce every configuration field and own their storage.
The fields are read from the class definition of the current tree; only the lengths of owned arrays, the pointers that are shared by design
and the working storage are named here."""
import z3
from verifier.spec import Contract, View, Scope, evalf, NA
from verifier.engine import *
from verifier.cast import Unsupported, TU, ty
S = 'src/'

def fieldptr(p, f): return Ptr([(g, r, i, (q + '.' + f) if q else f) for g, r, i, q in p.alts])

class Cls:
    """lengths: field -> contract expression over the source object 's' (the entry value of the source);
       shared: pointers copied as pointers by design (not owned); work: working storage of a running call, not configuration"""
    def __init__(self, name, file, lengths=None, shared=(), work=(), inv=(), extra=(), classes=(), assign=True, clone=True, const_fields=None, copy=True, only=None):
        self.only = only or {}
        self.name, self.file, self.lengths, self.shared, self.work = name, S + file, lengths or {}, set(shared), set(work)
        self.inv, self.extra, self.classes, self.assign, self.clone, self.copy = list(inv), [S + x for x in extra], list(classes), assign, clone, copy
ALL = {}
def cls(*a, **k):
    c = Cls(*a, **k); ALL[c.name] = c; return c

TP = {'fixEntry_': 's.maximumEntries_', 'toZero_': 's.numberIntegers_ + 1', 'toOne_': 's.numberIntegers_', 'integerVariable_': 's.numberIntegers_', 'backward_': 's.numberVariables_', 'fixingEntry_': 's.maximumEntries_'}
SHARED_TREE = ('parentSolver', 'originalColumns', 'strengthenRow', 'randomNumberGenerator')
cls('CglCutGenerator', 'CglCommon/CglCutGenerator.cpp', clone=False)
cls('CglTreeInfo', 'CglCommon/CglTreeInfo.cpp', shared=SHARED_TREE)
# representation invariant of the implication store: no variables means no storage; before convert() only the pair lists, afterwards only the start lists
INVP = ['s.numberVariables_ >= 0', 's.numberIntegers_ >= 0', 's.maximumEntries_ >= 0',
        lambda s: z3.Implies(s.numberVariables_ == 0, z3.And([z3.Not(nn(s, f)) for f in TP])),
        lambda s: z3.Implies(s.numberVariables_ > 0, z3.And([nn(s, f) for f in ('fixEntry_', 'integerVariable_', 'backward_')])),
        lambda s: z3.Implies(s.numberVariables_ > 0, z3.And(nn(s, 'toZero_') == (s.numberEntries_ < 0), nn(s, 'toOne_') == (s.numberEntries_ < 0), nn(s, 'fixingEntry_') == (s.numberEntries_ >= 0)))]
def nn(s, f):
    """pointer field f is not null"""
    return s._ex.tobool(s._ex.read(s._st, fieldptr(s._p, f), 'void *'))
cls('CglTreeProbingInfo', 'CglCommon/CglTreeInfo.cpp', TP, shared=SHARED_TREE, inv=INVP, classes=['CglTreeInfo', 'CliqueEntry'])
ST = {'bestSolution_': 's.numberColumns_ + 1', 'bounds_': '2 * s.numberColumns_'}
INVS = ['s.numberColumns_ >= 0', lambda s: z3.Implies(s.numberColumns_ == 0, z3.And(z3.Not(nn(s, 'bestSolution_')), z3.Not(nn(s, 'bounds_'))))]
CG = ['CglCommon/CglCutGenerator.cpp']
cls('CglStored', 'CglCommon/CglStored.cpp', ST, inv=INVS, extra=CG + ['CglCommon/CglTreeInfo.cpp'], classes=['CglCutGenerator', 'CglTreeProbingInfo', 'CglTreeInfo', 'CliqueEntry'])
for n, f, ex in [('CglParam', 'CglCommon/CglParam.cpp', []), ('CglRedSplitParam', 'CglRedSplit/CglRedSplitParam.cpp', ['CglCommon/CglParam.cpp']), ('CglGMIParam', 'CglGMI/CglGMIParam.cpp', ['CglCommon/CglParam.cpp']), ('CglRedSplit2Param', 'CglRedSplit2/CglRedSplit2Param.cpp', ['CglCommon/CglParam.cpp'])]:
    cls(n, f, extra=ex, classes=['CglParam'])
GEN = dict(extra=CG, classes=['CglCutGenerator'])
cls('CglSimpleRounding', 'CglSimpleRounding/CglSimpleRounding.cpp', **GEN)
cls('CglLiftAndProject', 'CglLiftAndProject/CglLiftAndProject.cpp', **GEN)
cls('CglOddHole', 'CglOddHole/CglOddHole.cpp', {'suitableRows_': 's.numberRows_', 'startClique_': 's.numberCliques_ + 1', 'member_': 's.startClique_[s.numberCliques_]'},
    inv=['s.numberRows_ >= 0', 's.numberCliques_ >= 0', lambda s: z3.And(nn(s, 'startClique_') == (s.numberCliques_ > 0), nn(s, 'member_') == (s.numberCliques_ > 0))], **GEN)
def mir(*pairs): return [lambda s, f=f, n=n: nn(s, f) == (getattr(s, n) > 0) for f, n in pairs]
MIR = {'vubs_': 's.numCols_', 'vlbs_': 's.numCols_', 'rowTypes_': 's.numRows_', 'indRows_': 's.numRows_', 'sense_': 's.numRows_', 'RHS_': 's.numRows_', 'indRowMix_': 's.numRowMix_', 'indRowCont_': 's.numRowCont_',
       'indRowContVB_': 's.numRowContVB_', 'indRowInt_': 's.numRowInt_'}
cls('CglMixedIntegerRounding', 'CglMixedIntegerRounding/CglMixedIntegerRounding.cpp', MIR, inv=['s.numCols_ >= 0', 's.numRows_ >= 0', 's.numRowMix_ >= 0', 's.numRowCont_ >= 0', 's.numRowInt_ >= 0', 's.numRowContVB_ >= 0', 's.numRowContVB_ <= s.numRowCont_'] +
    mir(('vubs_', 'numCols_'), ('vlbs_', 'numCols_'), ('rowTypes_', 'numRows_'), ('indRows_', 'numRows_'), ('indRowMix_', 'numRowMix_'), ('indRowCont_', 'numRowCont_'), ('indRowContVB_', 'numRowCont_'), ('indRowInt_', 'numRowInt_'))
    + [lambda s: z3.Implies(s.numRows_ <= 0, z3.And(z3.Not(nn(s, 'sense_')), z3.Not(nn(s, 'RHS_'))))], extra=CG, classes=['CglCutGenerator', 'CglMixIntRoundVUB'])
KN = {'rowsToCheck_': 's.numRowsToCheck_', 'cliqueType_': 's.numberCliques_', 'cliqueStart_': 's.numberCliques_ + 1', 'cliqueEntry_': 's.cliqueStart_[s.numberCliques_]', 'whichClique_': 's.cliqueStart_[s.numberCliques_]',
      'oneFixStart_': 's.numberColumns_', 'zeroFixStart_': 's.numberColumns_', 'endFixStart_': 's.numberColumns_'}
cls('CglKnapsackCover', 'CglKnapsackCover/CglKnapsackCover.cpp', KN, work=('solver_', 'complement_', 'elements_', 'whichRow_'), inv=['s.numberCliques_ >= 0', 's.numberColumns_ >= 0', 's.numRowsToCheck_ >= -1', lambda s: nn(s, 'rowsToCheck_') == (s.numRowsToCheck_ > 0),
    lambda s: z3.And([nn(s, f) == (s.numberCliques_ > 0) for f in KN if f != 'rowsToCheck_'])], extra=CG, classes=['CglCutGenerator', 'CliqueEntry', 'CliqueType'])
AD = {'start_': 's.numberSets_ + 1', 'which_': 's.start_[s.numberSets_]', 'originalWhich_': 's.start_[s.numberSets_]'}
cls('CglAllDifferent', 'CglAllDifferent/CglAllDifferent.cpp', AD, inv=['s.numberSets_ >= 0', lambda s: z3.And([nn(s, f) == (s.numberSets_ > 0) for f in AD])], **GEN)
from verifier.models import Models
cls('CglDuplicateRow', 'CglDuplicateRow/CglDuplicateRow.cpp', {f: 'rowsof(s)' for f in ('rhs_', 'duplicate_', 'lower_')}, extra=CG + ['CglCommon/CglStored.cpp', 'CglCommon/CglTreeInfo.cpp'], classes=['CglCutGenerator', 'CglStored', 'CglTreeProbingInfo', 'CglTreeInfo', 'CliqueEntry'])
CLW = ('fgraph', 'sp_numrows', 'sp_orig_row_ind', 'sp_numcols', 'sp_orig_col_ind', 'sp_colsol', 'sp_col_start', 'sp_col_ind', 'sp_row_start', 'sp_row_ind', 'node_node', 'cl_perm_indices', 'cl_perm_length', 'cl_indices', 'cl_length', 'cl_del_indices', 'cl_del_length')
cls('CglClique', 'CglClique/CglClique.cpp', work=CLW, assign=False, extra=CG, classes=['CglCutGenerator', 'fnode', 'frac_graph'])
RSW = ('nrow', 'ncol', 'card_intBasicVar_frac', 'card_intNonBasicVar', 'card_contNonBasicVar', 'card_nonBasicAtUpper', 'card_nonBasicAtLower', 'cv_intBasicVar_frac', 'intBasicVar_frac', 'intNonBasicVar', 'contNonBasicVar', 'nonBasicAtUpper',
       'nonBasicAtLower', 'mTab', 'nTab', 'pi_mat', 'contNonBasicTab', 'intNonBasicTab', 'rhsTab', 'solver', 'xlp', 'rowActivity', 'rowRhs', 'colLower', 'colUpper', 'byRow', 'low_is_lub', 'up_is_lub', 'is_integer', 'rowLower', 'rowUpper', 'colType')
cls('CglRedSplit', 'CglRedSplit/CglRedSplit.cpp', work=RSW, shared=('given_optsol',), extra=CG + ['CglCommon/CglParam.cpp', 'CglRedSplit/CglRedSplitParam.cpp'], classes=['CglCutGenerator', 'CglRedSplitParam', 'CglParam'])
ZH = {'mtbeg_': 's.mr_', 'mtcnt_': 's.mr_', 'mtind_': 's.mnz_', 'mtval_': 's.mnz_', 'vlb_': 's.mc_', 'vub_': 's.mc_', 'mrhs_': 's.mr_', 'msense_': 's.mr_'}
# of the separator object only its tuning parameters are configuration; it is rebuilt by refreshSolver before it separates
CUTC = ('sepGraphSparseThreshold_', 'rowMaxPairCount_', 'rowMaxFractionalCount_')
cls('CglZeroHalf', 'CglZeroHalf/CglZeroHalf.cpp', ZH, only={'cutInfo_': CUTC}, inv=['s.mr_ >= 0', 's.mc_ >= 0', 's.mnz_ >= 0', lambda s: z3.Implies(s.mr_ == 0, z3.And([z3.Not(nn(s, f)) for f in ZH]))], extra=CG + ['CglZeroHalf/Cgl012cut.cpp'], classes=['CglCutGenerator', 'Cgl012Cut'])

# ------------------------------------------------------------------ machinery
def nullable(ex, st, obj, t, pre, depth=0, prefix=''):
    """the pointer fields of an object at entry: null or a block of its own"""
    rec = ex.record(t)
    for n, ft in ex.allfields(rec):
        if isref(ft): continue
        if isptr(ft) and '(' not in ft:
            lv = ex.fld(obj, n); g, r, idx, path = lv.alts[0]
            pt = pointee(ft); key = ex.keyfor(r, path, ft)
            isn = z3.Const('%s.%s.isnull' % (pre, n), Bool)
            if pt == 'void' or pt == '_IO_FILE': st.store[key] = Opaque('void'); continue
            try: single = ex.is_record(pt) and (ex.models.is_model(pt) or n not in CUR.lengths)
            except Unsupported: single = True
            dims = 1
            if isptr(pt): dims = 2; pt = pointee(pt)
            reg = ex.region((r.id, path, '*'), '%s.%s*' % (pre, n), not single, pt, None, dims)
            st.store[key] = Ptr([(isn, None, (I(0),), ''), (z3.Not(isn), reg, (I(0),), '')])
            if single and pt in ALL and depth < 2: nullable2(ex, st, ptr(reg), pt, '%s.%s' % (pre, n), depth + 1)
        elif ex.is_record(ft) and not ex.models.is_model(ft) and depth < 3:
            nullable(ex, st, ex.fld(obj, n), ft, pre + '.' + n, depth + 1)
def nullable2(ex, st, obj, t, pre, depth):
    global CUR
    old = CUR; CUR = ALL[t]
    try:
        nullable(ex, st, obj, t, pre, depth)
        assume_inv(ex, st, obj, t)
    finally: CUR = old
CUR = None
def rowsof(s): return Models.NROWS(s._ex.models.get(s._ex, s._st, fieldptr(s._p, 'matrix_'), 'val', 'int'))
rowsof._scoped = False
def texpr(ex, st, src, view):
    if callable(src): return src(view)
    return evalf(ex, st, src, None, {'s': view, 'rowsof': rowsof})
def assume_inv(ex, st, obj, t):
    v = View(ex, st, obj, t)
    for i in ALL[t].inv: st.assume(texpr(ex, st, i, v))
    for f, ln in ALL[t].lengths.items(): st.assume(texpr(ex, st, ln, v) >= 0)

def samefields(ex, st, dst, st0, src, t, spec, out, pre='', depth=0):
    """goals: every field of the object at dst (state st) equals that of the object at src (state st0)"""
    rec = ex.record(t)
    if rec is None: raise Unsupported('class %s not found' % t)
    sv = View(ex, st0, src, t)
    for n, ft in ex.allfields(rec):
        nm = pre + n
        if nm in spec.work or n in spec.work: continue
        if isref(ft): continue
        if pre and spec.only.get(pre[:-1]) and n not in spec.only[pre[:-1]]: continue
        a, b = ex.fld(dst, n), ex.fld(src, n)
        if arrinfo(ft): raise Unsupported('array member ' + n)
        if ex.is_record(ft):
            if ex.models.is_model(ft):
                k = ex.models.kind(ft)
                if k is None: raise Unsupported('library member %s of type %s' % (n, ft))
                out += [(nm + '.' + f, g) for f, g in samemodel(ex, st, a, st0, b, ft, k)]
            else: samefields(ex, st, a, st0, b, ft, ALL.get(ft.split('::')[-1], spec) if ft.split('::')[-1] in ALL else spec, out, nm + '.', depth + 1)
            continue
        if isptr(ft):
            if '(' in ft: continue
            p, q = ex.read(st, a, ft), ex.read(st0, b, ft)
            if isinstance(p, Opaque): continue
            if not isinstance(p, Ptr): p = NULL
            if n in spec.shared: out.append((nm + ' (the same pointer)', ex.ptrop('==', p, q, st))); continue
            out.append((nm + ' null exactly when the source is', ex.tobool(p) == ex.tobool(q)))
            qs = [x for x in q.alts if x[1] is not None]
            for g, r, idx, path in p.alts:
                if r is None or z3.is_false(z3.simplify(g)): continue
                if any(r is x[1] for x in qs) or not r.fresh:
                    out.append((nm + ' is storage of its own', z3.Not(g))); continue
                fr = st.store.get((r.id, '#freed'), FALSE); out.append((nm + ' not freed', z3.Implies(g, z3.Not(fr))))
                g2, r2, idx2, path2 = qs[0]
                pt = pointee(ft)
                if not r.arr:
                    o2 = []
                    d, s2 = Ptr([(TRUE, r, idx, path)]), Ptr([(TRUE, r2, idx2, path2)])
                    b0 = pt.split('::')[-1]
                    if ex.models.is_model(pt): o2 = samemodel(ex, st, d, st0, s2, pt, ex.models.kind(pt))
                    elif b0 in ALL: samefields(ex, st, d, st0, s2, pt, ALL[b0], o2, '', depth + 1)
                    else: raise Unsupported('pointer to ' + pt)
                    out += [(nm + '->' + f, z3.Implies(z3.And(g, ex.tobool(q)), gg)) for f, gg in o2]
                    continue
                if n not in spec.lengths: raise Unsupported('no length known for the array ' + n)
                ln = texpr(ex, st0, spec.lengths[n], sv)
                if r.size is not None: out.append((nm + ' is long enough', z3.Implies(z3.And(g, ex.tobool(q)), r.size >= ln)))
                for lf, lt in (ex.leaves(pt) if ex.is_record(pt) else [('', pt)]):
                    x, y = ex.load(st, r, lf, lt), ex.load(st0, r2, lf, lt); k = P.fresh('k', Int)
                    out.append(('%s[k]%s for every k' % (nm, lf and '.' + lf), z3.Implies(z3.And(g, ex.tobool(q)), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ln), z3.Select(x, idx[-1] + k) == z3.Select(y, idx2[-1] + k))))))
            continue
        x, y = ex.read(st, a, ft), ex.read(st0, b, ft)
        if isinstance(x, Opaque) or isinstance(y, Opaque): continue
        out.append((nm, x == y))
def samemodel(ex, st, a, st0, b, t, k):
    m = ex.models; out = []
    for f, ft, ar in m.FIELDS[k]:
        if ft is None: ft = m.velem(t)
        if ar:
            x, y, n = m.geta(ex, st, a, f, ft), m.geta(ex, st0, b, f, ft), m.get(ex, st0, b, f.replace('ind', 'n').replace('el', 'n') if k != 'vector' else 'n', 'int'); j = P.fresh('k', Int)
            out.append((f, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), x[j] == y[j]))))
        else: out.append((f, m.get(ex, st, a, f, ft) == m.get(ex, st0, b, f, ft)))
    if k == 'cuts':
        for f, ft, ar in m.FIELDS['cut']: out.append(('rows.' + f, m.rowarr(ex, st, a, f) == m.rowarr(ex, st0, b, f)))
    return out

class CopyContract(Contract):
    def __init__(self, spec, name, kind, **k):
        self.spec, self.kind2 = spec, kind
        super().__init__(name, spec.file, cls=spec.name, setup=self.prepare, **k)
    def fullname(self): return '%s::%s%s' % (self.cls, self.name, {'copy': '(const %s &)' % self.cls, 'self': ' (self-assignment)'}.get(self.kind2, ''))
    def prepare(self, ex, st, fr):
        global CUR
        CUR = self.spec
        c = self.spec.name; f = fr.func
        if self.kind2 == 'self':
            p = TU.params(f)[0]; fr.env[p['id']] = (fr.this, c)
        if self.kind2 == 'clone': self.src = fr.this
        else: self.src = fr.env[TU.params(f)[0]['id']][0]
        nullable(ex, st, self.src, c, 's')
        assume_inv(ex, st, self.src, c)
        if self.kind2 == 'assign':
            nullable(ex, st, fr.this, c, 'd')
            assume_inv(ex, st, fr.this, c)
    def verify(self, ex):
        f = self.find(ex.tus)
        self.ensures = [self.post]
        return super().verify(ex)
    def post(self, sc):
        ex, s = sc.ex, sc.st
        if self.kind2 == 'self':
            out = []; st0 = ex.entry
            samestate(ex, s, st0, out)
        else:
            dst = ex.frame.this
            if self.kind2 == 'clone':
                dst = s.ret
                if not isinstance(dst, Ptr) or len(dst.alts) != 1 or dst.alts[0][1] is None: raise Unsupported('clone result')
                ety = strip(dst.alts[0][1].ety).split('::')[-1]
                if ety != self.spec.name: return FALSE
            out = []
            samefields(ex, s, dst, ex.entry, self.src, self.spec.name, self.spec, out)
            samesource(ex, s, self.src, out)
            if self.kind2 == 'assign' and isinstance(s.ret, Ptr): out.append(('returns *this', ex.ptrop('==', s.ret, ex.frame.this, s)))
        for n, g in out: ex.oblige(s, g, '%s: %s' % (self.fullname(), n))
        return TRUE
    post.__name__ = 'all fields compared'
def samestate(ex, s, st0, out):
    for k, v in list(s.store.items()):
        t, r = ex.keyty[k]
        if r.fresh: continue
        if k[1] == '#freed': out.append(('%s not freed' % r.name, z3.Not(v))); continue
        v0 = st0.store[k] if k in st0.store else ex.initial(k, t, r)
        if v is v0 or isinstance(v, Opaque): continue
        out.append((ex.kname(k) + ' unchanged', ex.ptrop('==', v, v0, s) if isinstance(v, Ptr) or isinstance(v0, Ptr) else v == v0))
def samesource(ex, s, src, out):
    """nothing reachable from the source was written or freed"""
    base = src.alts[0][1]
    def own(rid):
        while isinstance(rid, tuple):
            if rid == base.id: return True
            rid = rid[0] if rid else None
        return False
    for k, v in list(s.store.items()):
        t, r = ex.keyty[k]
        if not own(r.id): continue
        if k[1] == '#freed': out.append(('source: %s not freed' % r.name, z3.Not(v))); continue
        v0 = ex.entry.store[k] if k in ex.entry.store else ex.initial(k, t, r)
        if v is v0 or isinstance(v, Opaque): continue
        out.append(('source: %s unchanged' % ex.kname(k), ex.ptrop('==', v, v0, s) if isinstance(v, Ptr) or isinstance(v0, Ptr) else v == v0))
def one(c):
    def pred(f):
        ps = TU.params(f)
        return len(ps) == 1 and strip(unref(ty(ps[0]))).split('::')[-1] == c and isref(ty(ps[0])) and not ty(ps[0]).strip().endswith('&&') and not f.get('explicitlyDefaulted') and not f.get('isImplicit')
    return pred
from verifier import prove as P
UNITS = []
for c in ALL.values():
    v = []
    if c.copy: v.append(CopyContract(c, c.name, 'copy', pred=one(c.name), kinds=('CXXConstructorDecl',)))
    if c.assign: v += [CopyContract(c, 'operator=', 'assign', pred=one(c.name)), CopyContract(c, 'operator=', 'self', pred=one(c.name))]
    if c.clone: v.append(CopyContract(c, 'clone', 'clone', nparams=0))
    UNITS.append(dict(name=c.name, files=[c.file] + c.extra, classes=[c.name] + c.classes, verify=v, budget=120))
