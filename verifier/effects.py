"""Frame contracts of the cut generation functions, checked function by function on the clang AST of the real code.
   Contract of every function reachable from generateCuts:
     - a collection of cuts it did not create is only read or appended to; an element of it may be changed only at an index
       that is at least the number of cuts found on entry;
     - a model it did not create is only read: only const methods are called on it, none that hands out its interior for writing,
       and constness of data obtained from it is never cast away.
   C++'s const rules (the code compiles) discharge the rest: what is reachable through const access cannot be assigned.
   One obligation per function and rule; a callee is taken by its own contract."""
import glob, os, re
from .cast import TU, REPO, Unsupported, ty, line
CUTS = ('OsiCuts',); MODEL = ('OsiSolverInterface', 'OsiClpSolverInterface')
APPEND = {'insert', 'insertIfNotDuplicate', 'insertIfNotDuplicateAndClean'}
ELEM = {'rowCutPtr', 'colCutPtr'}
HANDOUT = {'getMutableMatrixByRow', 'getMutableMatrixByCol', 'getModelPtr', 'getApplicationData', 'getAuxiliaryInfo'}
FUN = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl')
def bare(t): return t.replace('const ', '').replace('class ', '').replace('&', '').replace('*', '').strip().split('::')[-1]
def isconst(t):
    t = t.strip()
    if t.endswith('*const'): t = t[:-5].strip()
    return 'const ' in t.split('*')[0] or t.split('*')[0].strip().endswith(' const')
def skip(e):
    while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXDynamicCastExpr') or (e.get('kind') == 'UnaryOperator' and e.get('opcode') in ('*', '&')): e = e['inner'][0]
    return e
class Check:
    def __init__(self, tus, roots):
        self.tus, self.roots = tus, roots; self.done = {}; self.out = []
    def bodies(self, name, cls):
        out = []
        for tu in self.tus:
            fs = [f for f in tu.funcs if f.get('name') == name and TU.body(f) is not None and (cls is None or tu.clsof(f) in (cls, None))]
            seen = set()
            for f in fs:
                k = (f.get('mangledName'), f['type']['qualType'])
                if k not in seen: seen.add(k); out.append((tu, f))
        return out
    def closure(self):
        todo = []; got = {}
        for cls, name in self.roots:
            b = self.bodies(name, cls)
            if not b: raise Unsupported('%s::%s not found' % (cls, name))
            todo += b
        while todo:
            tu, f = todo.pop(); k = (tu.rel, f.get('mangledName') or f.get('id'))
            if k in got: continue
            got[k] = (tu, f)
            for n in walk(TU.body(f)):
                if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                    c = n['inner'][0]
                    while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
                    if c.get('kind') == 'MemberExpr':
                        o = bare(ty(c['inner'][0])) if c.get('inner') else None
                        if o and not self.lib(o): todo += self.bodies(c.get('name'), None)
                    elif c.get('kind') == 'DeclRefExpr':
                        nm = (c.get('referencedDecl') or {}).get('name', '')
                        if nm.startswith('operator'): continue
                        b = self.bodies(nm, None)
                        if not b and not n.get('_tried'):
                            n['_tried'] = 1
                            if self.defined(tu, nm): tu.fetch(nm); b = self.bodies(nm, None)
                        todo += b
        return list(got.values())
    def defined(self, tu, nm):
        """is a function of this name written in the project (the file or a header beside it)?  Library templates are not fetched"""
        if not hasattr(self, '_text'): self._text = {}
        if tu.rel not in self._text:
            d = os.path.dirname(tu.src); t = ''
            for x in sorted(glob.glob(d + '/*.[hc]pp') + glob.glob(REPO + '/src/CglCommon/*.hpp')): t += open(x, errors='replace').read() + '\n'
            self._text[tu.rel] = t
        return re.search(r'(?m)^[\w:<>*& \t]*\b%s\s*\([^;{}[\]]*\)\s*(const\s*)?(noexcept\s*)?\{' % re.escape(nm), self._text[tu.rel]) is not None
    @staticmethod
    def lib(c): return c.startswith(('Osi', 'Coin', 'Clp', 'std', 'vector', '_')) or '<' in c
    def run(self):
        fs = self.closure(); self.fs = fs
        self.passed = {}       # parameter id -> list of (function, argument expression)
        names = {}
        for tu, f in fs: names.setdefault(f.get('name'), []).append((tu, f))
        for tu, f in fs:
            for n in walk(TU.body(f)):
                if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr'):
                    c = n['inner'][0]
                    while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
                    nm = c.get('name') if c.get('kind') == 'MemberExpr' else (c.get('referencedDecl') or {}).get('name')
                    for t2, g in names.get(nm, []):
                        for p, a in zip(TU.params(g), n['inner'][1:]): self.passed.setdefault(p['id'], []).append((f, a))
        for tu, f in fs: self.check(tu, f)
        return self.out
    # ---- where an object expression comes from
    def root(self, e, f, depth=0):
        """'own' (created by this function), 'member' (held by value in the generator), 'outside'"""
        e = skip(e)
        k = e.get('kind')
        if k == 'DeclRefExpr':
            d = e.get('referencedDecl') or {}
            t = ty(d)
            if d.get('kind') == 'VarDecl':
                if '&' not in t and '*' not in t: return 'own'
                ini = self.inits(f, d['id'])
                if ini and depth < 5 and all(self.root(x, f, depth + 1) == 'own' for x in ini): return 'own'
                return 'outside'
            if d.get('kind') == 'ParmVarDecl':
                if '&' not in t and '*' not in t: return 'own'
                return 'outside'
            return 'outside'
        if k in ('CXXNewExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNullPtrLiteralExpr', 'IntegerLiteral', 'GNUNullExpr'): return 'own'
        if k == 'CXXMemberCallExpr' and e['inner'][0].get('name') == 'clone': return 'own'
        if k == 'MemberExpr':
            t = ty(e)
            return 'outside' if '*' in t or '&' in t else 'member'
        if k in ('CXXMemberCallExpr',): return 'outside'
        return 'outside'
    def inits(self, f, vid):
        out = []
        for n in walk(TU.body(f)):
            if n.get('kind') == 'VarDecl' and n.get('id') == vid and n.get('inner'): out.append(n['inner'][-1])
            if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
                l = n['inner'][0]
                if l.get('kind') == 'DeclRefExpr' and (l.get('referencedDecl') or {}).get('id') == vid: out.append(n['inner'][1])
        return out
    # ---- an index known to be at least the number of cuts on entry
    def beyond(self, e, f, seen=()):
        while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'): e = e['inner'][0]
        k = e.get('kind')
        if k == 'CXXMemberCallExpr' and e['inner'][0].get('name') in ('sizeRowCuts', 'sizeColCuts') and bare(ty(e['inner'][0]['inner'][0])) in CUTS: return True
        if k == 'BinaryOperator' and e.get('opcode') == '+':
            a, b = e['inner']; return (self.beyond(a, f, seen) and nonneg(b)) or (self.beyond(b, f, seen) and nonneg(a))
        if k == 'ConditionalOperator': return all(self.beyond(x, f, seen) for x in e['inner'][1:])
        if k != 'DeclRefExpr': return False
        d = e.get('referencedDecl') or {}; v = d.get('id')
        if v in seen: return True
        src = []
        for n in walk(TU.body(f)):
            if n.get('kind') == 'VarDecl' and n.get('id') == v and n.get('inner'): src.append(n['inner'][-1])
            lhs = n.get('inner', [None])[0] if n.get('inner') else None
            hit = isinstance(lhs, dict) and lhs.get('kind') == 'DeclRefExpr' and (lhs.get('referencedDecl') or {}).get('id') == v
            if hit and n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=': src.append(n['inner'][1])
            if hit and n.get('kind') == 'CompoundAssignOperator' and not (n.get('opcode') == '+=' and nonneg(n['inner'][1])): return False
            if hit and n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('--', '&'): return False
        if d.get('kind') == 'ParmVarDecl':
            ps = self.passed.get(v, [])
            if not ps: return False
            return all(self.beyond(a, g, seen + (v,)) for g, a in ps) and all(self.beyond(x, f, seen + (v,)) for x in src)
        if d.get('kind') != 'VarDecl': return False
        return bool(src) and all(self.beyond(x, f, seen + (v,)) for x in src)
    def check(self, tu, f):
        bad = {'cuts': [], 'model': []}; nm = (tu.clsof(f) + '::' if tu.clsof(f) else '') + f.get('name', '?')
        def go(n, par):
            if not isinstance(n, dict): return
            k = n.get('kind')
            if k == 'CXXMemberCallExpr' and n['inner'][0].get('kind') == 'MemberExpr' and n['inner'][0].get('inner'):
                m = n['inner'][0]; o = m['inner'][0]; t = ty(o); c = bare(t); name = m.get('name')
                if c in CUTS and not isconst(t) and self.root(o, f) == 'outside':
                    if name in APPEND: pass
                    elif name in ELEM:
                        if not reads(par) and not self.beyond(n['inner'][1], f): bad['cuts'].append('%s: element taken for writing at an index not known to be new (line %s)' % (name, line(n)))
                    else: bad['cuts'].append('%s called on the collection (line %s)' % (name, line(n)))
                if c in MODEL and self.root(o, f) == 'outside':
                    if not isconst(t): bad['model'].append('non-const %s called on the model (line %s)' % (name, line(n)))
                    elif name in HANDOUT: bad['model'].append('%s hands out the interior of the model (line %s)' % (name, line(n)))
            if k in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr'):
                s = n['inner'][0]; a, b = ty(s), ty(n)
                src = s
                while src.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): src = src['inner'][0]
                lv = k == 'CXXConstCastExpr' and n.get('valueCategory') == 'lvalue'
                if ('*' in b or lv) and isconst(a) and not isconst(b) and src.get('kind') != 'StringLiteral':
                    if bare(b) not in MODEL and self.cares(src, f): bad['model'].append('constness cast away: %s to %s (line %s)' % (a, b, line(n)))
            if k in ('CXXOperatorCallExpr',) and len(n.get('inner', [])) > 1:
                c = skip(n['inner'][0]); nmo = (c.get('referencedDecl') or {}).get('name')
                if nmo == 'operator=':
                    o = n['inner'][1]
                    if bare(ty(o)) in CUTS and self.root(o, f) == 'outside': bad['cuts'].append('the collection is assigned (line %s)' % line(n))
                    if bare(ty(o)) in MODEL and self.root(o, f) == 'outside': bad['model'].append('the model is assigned (line %s)' % line(n))
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr') :
                # a collection or model handed on for writing to code not under contract
                c = n['inner'][0] if n.get('inner') and k != 'CXXConstructExpr' else None
                while c is not None and c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
                nm2 = None if c is None else c.get('name') if c.get('kind') == 'MemberExpr' else (c.get('referencedDecl') or {}).get('name')
                known = nm2 in self.names()
                for a in (n.get('inner', [])[1:] if k != 'CXXConstructExpr' else n.get('inner', [])):
                    t = ty(a)
                    if a.get('kind') == 'ImplicitCastExpr' and a.get('castKind') == 'LValueToRValue' and '*' not in t: continue
                    wr = (a.get('valueCategory') == 'lvalue' or '*' in t) and not isconst(t)
                    if wr and bare(t) in CUTS + MODEL and not known and self.root(a, f) == 'outside' and not (k == 'CXXConstructExpr' and bare(ty(n)) in CUTS + MODEL):
                        bad['cuts' if bare(t) in CUTS else 'model'].append('handed for writing to %s, which is not under contract (line %s)' % (nm2, line(n)))
            for c in n.get('inner', []) or []: go(c, [n] + par)
        go(TU.body(f), [])
        self.out.append((nm, tu.rel, bad))
    def names(self):
        if not hasattr(self, '_n'): self._n = {f.get('name') for tu, f in self.fs}
        return self._n
    def cares(self, src, f):
        """is the object whose constness is cast away possibly part of the model or of a cut?"""
        return True
def nonneg(e):
    while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): e = e['inner'][0]
    return e.get('kind') == 'IntegerLiteral'
def reads(par):
    """is the element only read?  (parents, innermost first)"""
    for p in par:
        k = p.get('kind')
        if k == 'ImplicitCastExpr' and p.get('castKind') == 'NoOp' and isconst(ty(p)): return True
        if k in ('ParenExpr', 'ImplicitCastExpr') or (k == 'UnaryOperator' and p.get('opcode') == '*'): continue
        return False
    return False
def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict): continue
        yield x
        st.extend(reversed(x.get('inner', []) or []))
def run(unit, tus):
    ck = Check(tus, unit['roots']); t = 0; out = []
    for nm, rel, bad in ck.run():
        ob = []
        for r, title in (('cuts', 'only appends to a collection of cuts it did not create'), ('model', 'only reads a model it did not create')):
            ob.append(dict(name='frame of %s: %s' % (nm, title), ok=not bad[r], how='effect rules' if not bad[r] else 'sat', secs=0, where=rel, detail='; '.join(bad[r])[:1500]))
        out.append(dict(function=nm, file=rel, status='ok', reason='', obligations=ob, loops=0, inlined=[], library=[], secs=0))
    return out
