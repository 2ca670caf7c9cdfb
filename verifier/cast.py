"""Mechanical extraction of function bodies from /repo: clang's JSON AST of the real translation unit, loaded on every run."""
import json, os, subprocess, hashlib
REPO = os.environ.get('REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CONF = os.path.join(HERE, '..', 'tools', 'config')

class Unsupported(Exception):
    pass

def clang_args(src):
    return ["clang++", "-fsyntax-only", "-w", "-DNDEBUG", "-DHAVE_CONFIG_H", "-DCGLLIB_BUILD", "-I" + CONF, "-I" + REPO + "/src/CglCommon",
            "-I/usr/include/coin", "-I" + os.path.dirname(src)]

def nocomment(o):
    if 'inner' in o: o['inner'] = [c for c in o['inner'] if not (isinstance(c, dict) and c.get('kind') == 'FullComment')]
    return o

def declids(o):
    """ids of the records a typedef declaration names"""
    out = []; st = [o]
    while st:
        x = st.pop()
        for k in ('decl', 'ownedTagDecl'):
            if isinstance(x.get(k), dict) and x[k].get('kind') == 'CXXRecordDecl': out.append(x[k].get('id'))
        st.extend(c for c in x.get('inner', []) if isinstance(c, dict))
    return out
class TU:
    """One translation unit; declarations are fetched by name filter on demand."""
    cache = {}
    def __init__(self, rel, extra=()):
        self.src = os.path.join(REPO, rel); self.rel = rel
        if not os.path.exists(self.src): raise Unsupported('source file %s is gone' % rel)
        self.docs = {}; self.funcs = []; self.records = {}; self.byid = {}; self.enums = {}
        for f in extra: self.fetch(f)
    def fetch(self, filt):
        if filt in self.docs: return self.docs[filt]
        r = subprocess.run(clang_args(self.src) + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, self.src], capture_output=True, text=True)
        if r.returncode != 0: raise Unsupported('clang rejects %s: %s' % (self.rel, r.stderr[:500]))
        out = r.stdout; dec = json.JSONDecoder(object_hook=nocomment); i = 0; n = len(out); res = []
        while True:
            while i < n and out[i] in ' \n\r\t': i += 1
            if i >= n: break
            o, i = dec.raw_decode(out, i); res.append(o)
        self.docs[filt] = res
        names = {}
        for o in res:
            if o.get('kind') == 'TypedefDecl':
                for i in declids(o): names.setdefault(i, o.get('name'))
        for o in res:
            if o.get('kind') == 'CXXRecordDecl' and not o.get('name') and names.get(o.get('id'), filt) != filt: continue
            self.index(o, None, filt)
        return res
    def index(self, o, cls, alias=''):
        k = o.get('kind')
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = o.get('name') or alias.split('::')[-1]   # an unnamed struct is known by its typedef
            if o.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in o.get('inner', [])):
                flds = []
                for c in o.get('inner', []):
                    if c.get('kind') == 'FieldDecl': flds.append((c.get('name'), ty(c), c.get('isBitfield', False)))
                bases = [b['type']['qualType'] for b in o.get('bases', [])]
                self.records[name] = dict(name=name, fields=flds, bases=bases, node=o, id=o.get('id'))
            self.byid[o.get('id')] = o
            inner = o.get('inner', [])
            for i, c in enumerate(inner):
                al = ''
                if c.get('kind') == 'CXXRecordDecl' and not c.get('name'):
                    for d in inner[i + 1:i + 2]:
                        if d.get('kind') == 'TypedefDecl': al = d.get('name', '')
                self.index(c, name, al)
        elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in o.get('inner', []): self.index(c, cls)
        elif k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            o['_cls'] = cls
            self.byid[o.get('id')] = o
            self.funcs.append(o)
        elif k in ('FunctionTemplateDecl',):
            for c in o.get('inner', []): self.index(c, cls)
        elif k == 'EnumDecl':
            v = -1
            for c in o.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    val = find_const(c)
                    if val is not None: v = val
                    self.enums[c['name']] = v
        elif k == 'VarDecl':
            self.byid[o.get('id')] = o
    def clsof(self, f):
        if f.get('_cls'): return f['_cls']
        p = f.get('parentDeclContextId')
        if p and p in self.byid: return self.byid[p].get('name')
        pd = f.get('previousDecl')
        if pd and pd in self.byid: return self.byid[pd].get('_cls')
        return None
    @staticmethod
    def body(f):
        for c in f.get('inner', []) or []:
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
        return None
    @staticmethod
    def params(f):
        return [c for c in f.get('inner', []) or [] if c.get('kind') == 'ParmVarDecl']
    def find(self, name, cls=None, nparams=None, qual=None, pred=None, kinds=None):
        """definitions (with body) of a function"""
        res = []
        for f in self.funcs:
            if f.get('name') != name or self.body(f) is None: continue
            if kinds and f['kind'] not in kinds: continue
            if cls is not None and self.clsof(f) != cls: continue
            if nparams is not None and len(self.params(f)) != nparams: continue
            if qual is not None and f['type']['qualType'] != qual: continue
            if pred and not pred(f): continue
            if not any(g is f or g.get('id') == f.get('id') for g in res): res.append(f)
        # the same definition may have been fetched by two filters
        seen = {}; out = []
        for f in res:
            key = (f.get('mangledName'), f['type']['qualType'])
            if key in seen: continue
            seen[key] = 1; out.append(f)
        return out

def find_const(n):
    if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'): return int(n['value'])
    for c in n.get('inner', []) or []:
        v = find_const(c)
        if v is not None: return v
    return None

def ty(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''

def line(n):
    def g(d):
        if not isinstance(d, dict): return None
        if 'line' in d: return d['line']
        for k in ('expansionLoc', 'spellingLoc', 'begin'):
            if k in d:
                v = g(d[k])
                if v: return v
        return None
    return g(n.get('loc', {})) or g(n.get('range', {}).get('begin', {}))

def fingerprint(n):
    """structure of a function body, without ids and source positions (used only for reporting what was verified)"""
    h = hashlib.sha256()
    def w(x):
        if isinstance(x, dict):
            for k in ('kind', 'name', 'opcode', 'value', 'castKind'):
                if k in x: h.update(str(x[k]).encode())
            for c in x.get('inner', []) or []: w(c)
            h.update(b')')
    w(n)
    return h.hexdigest()[:12]
