"""Contract language: Python expressions over program variables, evaluated in a symbolic state."""
import z3, re, json, itertools, time, traceback
from . import prove as P
from .engine import *
from .cast import Unsupported, TU, ty

class NA(Exception): pass

class View:
    """a program object or pointer seen from a contract"""
    def __init__(self, ex, st, p, t):
        self.__dict__.update(_ex=ex, _st=st, _p=p, _t=strip(unref(t)))
    def _alt(self):
        al = [a for a in self._p.alts if a[1] is not None]
        if len(al) != 1: raise NA('ambiguous pointer')
        return al[0]
    def __getitem__(self, i):
        if isinstance(i, int): i = I(i)
        g, r, idx, path = self._alt()
        if isptr(self._t) or r.arr:
            t = pointee(self._t) if isptr(self._t) else r.ety
            ai = arrinfo(self._t)
            if ai: t = ai[0]
            j = idx[:-1] + (z3.simplify(idx[-1] + i),)
            if isptr(t) and r.dims == 2: return View(self._ex, self._st, Ptr([(TRUE, r, (j[0], I(0)), '')]), t)
            if self._ex.is_record(t): return View(self._ex, self._st, Ptr([(TRUE, r, j, path)]), t)
            return self._ex.read1(self._st, r, j, path, t)
        raise NA('index')
    def __getattr__(self, f):
        ex, st = self._ex, self._st
        if f == 'nonnull':
            gs = [a[0] for a in self._p.alts if a[1] is None]
            return z3.Not(z3.Or(gs)) if gs else TRUE
        g, r, idx, path = self._alt()
        t = pointee(self._t) if isptr(self._t) else self._t
        if f == 'arr':    # contents as a z3 array (offset must be 0)
            if r.dims == 2: return z3.Select(ex.load(st, r, path, r.ety), idx[0])
            o = z3.simplify(idx[-1])
            if not (z3.is_int_value(o) and o.as_long() == 0): raise NA('offset')
            return ex.load(st, r, path, r.ety)
        if f == 'off': return idx[-1]
        if f == 'base':
            return ex.load(st, r, path, r.ety)
        if f == 'size': return r.size
        if f == 'region': return r
        if f == 'nonnull':
            gs = [a[0] for a in self._p.alts if a[1] is None]
            return z3.Not(z3.Or(gs)) if gs else TRUE
        m = ex.models.fields(t)
        if m is not None and f in m:
            return ex.models.getfield(ex, st, self._p, t, f)
        rec = ex.record(t)
        if rec is None: raise NA('no record ' + t)
        for n, ft in ex.allfields(rec):
            if n == f:
                lv = ex.fld(Ptr([(TRUE, r, idx, path)]), f)
                if ex.is_record(ft): return View(ex, st, lv, ft)
                if arrinfo(ft): return View(ex, st, ptr(ex.subregion(r, (path + '.' if path else '') + f, ft)), ft)
                v = ex.read(st, lv, ft)
                return View(ex, st, v, ft) if isinstance(v, Ptr) else v
        raise NA('no field ' + f)

class Scope(dict):
    """name resolution for contract expressions"""
    def __init__(self, ex, st, st0=None, extra=None, frame=None):
        super().__init__(__builtins__={}); self.ex, self.st, self.st0, self.extra, self.fr = ex, st, st0, extra or {}, frame or ex.frame
    def __missing__(self, name):
        if name in self.extra:
            return self.extra[name]
        if name in BUILTINS: return BUILTINS[name]
        if name == 'old': return lambda f: self.at(self.ex.entry, f)
        if name == 'pre': return lambda f: self.at(self.st0, f)
        m = re.match(r'^arg(\d+)$', name)
        if m:     # a parameter by position
            f = self.fr
            while f.parent is not None: f = f.parent
            p = TU.params(f.func)[int(m.group(1))]; lv, t = f.env[p['id']]; return self.view(lv, t)
        v = self.var(name)
        if v is not None: return v
        if name in self.ex.ghosts:
            g = self.ex.ghosts[name]
            return g(self) if callable(g) and getattr(g, '_scoped', False) else g
        raise NA(name)
    def at(self, st, src):
        if st is None: raise NA('no state')
        return eval(src, Scope(self.ex, st, None, self.extra, self.fr)) if isinstance(src, str) else src
    def var(self, name):
        f = self.fr
        while f is not None:
            if name in f.names and f.names[name] in f.env:
                lv, t = f.env[f.names[name]]
                return self.view(lv, t)
            if name == 'this' and f.this is not None: return View(self.ex, self.st, f.this, (self.ex.clsname(f) or '') + ' *')
            if f.this is not None:
                cls = self.ex.clsname(f)
                rec = self.ex.record(cls) if cls else None
                if rec:
                    for n, ft in self.ex.allfields(rec):
                        if n == name:
                            return getattr(View(self.ex, self.st, f.this, cls + ' *'), name)
            f = f.parent
        return None
    def view(self, lv, t):
        ex, st = self.ex, self.st
        if ex.is_record(t): return View(ex, st, lv, t)
        if arrinfo(t): return View(ex, st, lv, t)
        # a variable that has no value yet is not in scope
        a = [x for x in lv.alts if x[1] is not None]
        if len(a) == 1 and a[0][1].fresh and (a[0][1].id, a[0][3]) not in st.store and not a[0][1].arr: raise NA('unset')
        v = ex.read(st, lv, t)
        if isinstance(v, Ptr): return View(ex, st, v, t)
        if isinstance(v, Opaque): raise NA('opaque')
        return v

def _clsname(self, f):
    fn = f.func
    if fn is None: return None
    if isinstance(fn, str): return fn
    for tu in self.tus:
        c = tu.clsof(fn)
        if c: return c
    return None
Engine.clsname = _clsname

def ifptr(ex, st, t):
    """ifptr(p, f): f holds of the object p points to, unless p is null"""
    return lambda p, f: z3.And([TRUE] + [z3.Implies(g, f(View(ex, st, Ptr([(TRUE, r, idx, path)]), t))) for g, r, idx, path in p.alts if r is not None])
def forall(f, sort=Int, pats=None):
    n = f.__code__.co_argcount
    vs = [P.fresh(f.__code__.co_varnames[i], sort) for i in range(n)]
    b = f(*vs)
    if isinstance(b, bool): return z3.BoolVal(b)
    return z3.ForAll(vs, b, patterns=pats(*vs)) if pats else z3.ForAll(vs, b)
def arr(v):
    if isinstance(v, View): return v.arr
    return v
def real(v): return z3.ToReal(v) if v.sort() == Int else v
def mkps(E, Ix, X, lo, hi): return P.PS(arr(E), arr(Ix), arr(X), lo, hi)
def mkds(C, X, lo, hi): return P.DS(arr(C), arr(X), lo, hi)
BUILTINS = dict(And=z3.And, Or=z3.Or, Not=z3.Not, Implies=z3.Implies, If=z3.If, forall=forall, ps=mkps, ds=mkds, arr=arr, real=real, ToReal=z3.ToReal, ToInt=z3.ToInt,
                IsInt=z3.IsInt, Select=z3.Select, Store=z3.Store, floor=P.floor, ceil=P.ceil, absr=P.absr, dvd=P.dvd, quo=P.quo, pow10=P.pow10, tdiv=P.tdiv, tmod=P.tmod,
                true=TRUE, false=FALSE, sm=lambda A, lo, hi: P.SM(arr(A), lo, hi), sps=lambda E, N, J, X, lo, hi: P.SPS(arr(E), arr(N), arr(J), arr(X), lo, hi), dis=lambda A, X, lo, hi: P.DIS(arr(A), arr(X), lo, hi), R=lambda v: z3.RealVal(v), int=int, len=len, range=range,
                minr=lambda a, b: z3.If(a <= b, a, b), maxr=lambda a, b: z3.If(a >= b, a, b), z3=z3, str=str)

def evalf(ex, st, src, st0=None, extra=None, frame=None):
    v = eval(src, Scope(ex, st, st0, extra, frame)) if isinstance(src, str) else src(Scope(ex, st, st0, extra, frame))
    if isinstance(v, bool): v = z3.BoolVal(v)
    return v

META = re.compile(r'\$([iraRIbv])(\d*)')
def expand(ex, st, mod):
    """instances of the candidate contracts at this loop: metavariables $i.. (modified integer locals), $r (modified real locals),
    $I (int arrays), $R (real arrays), $b (bool arrays) in scope"""
    out = []
    fr = ex.frame
    names = visible(ex, fr, st)
    for c in ex.cands:
        src = c
        ms = []
        for m in META.finditer(src):
            if m.group(0) not in ms: ms.append(m.group(0))
        pools = []
        for m in ms:
            k = m[1]
            if k == 'i': pools.append([n for n, (t, keys, ar) in names.items() if not ar and sort_of(t) == Int and keys & mod])
            elif k == 'r': pools.append([n for n, (t, keys, ar) in names.items() if not ar and sort_of(t) == Real and keys & mod])
            elif k == 'I': pools.append([n for n, (t, keys, ar) in names.items() if ar == 'int'])
            elif k == 'R': pools.append([n for n, (t, keys, ar) in names.items() if ar == 'real'])
            elif k == 'b': pools.append([n for n, (t, keys, ar) in names.items() if ar == 'bool'])
            elif k == 'v': pools.append([n for n, (t, keys, ar) in names.items() if ar == 'vec'])
            else: pools.append([])
        combos = itertools.product(*pools) if pools else [()]
        cnt = 0
        for combo in combos:
            if len(set(combo)) != len(combo): continue
            cnt += 1
            if cnt > 40: break
            s = src
            for m, n in sorted(zip(ms, combo), key=lambda x: -len(x[0])): s = s.replace(m, n)
            try: f = evalf(ex, st, s, st)
            except (NA, Unsupported, AttributeError, TypeError, z3.Z3Exception, ValueError) as e:
                if ex.trace == '3': print('       n/a:', s, repr(e)[:100])
                continue
            out.append((s, lambda a, b, s=s, fr=fr: evalf(ex, a, s, b, frame=fr)))
    return out
def visible(ex, fr, st):
    res = {}
    f = fr
    while f is not None:
        for n, d in f.names.items():
            if n in res or d not in f.env: continue
            lv, t = f.env[d]
            a = [x for x in lv.alts if x[1] is not None]
            if len(a) != 1: continue
            key = (a[0][1].id, a[0][3])
            ar = None
            tt = strip(unref(t))
            if isptr(tt):
                p = pointee(tt)
                s = sort_of(p)
                ar = {Int: 'int', Real: 'real', Bool: 'bool'}.get(s)
                if ar is None: continue
            elif ex.models.kind(tt) in ('vec', 'cut'):
                res[n] = (tt, {key}, 'vec'); continue
            elif sort_of(tt) is None: continue
            if key not in st.store and a[0][1].fresh: continue
            res[n] = (tt, {key}, ar)
        f = f.parent
    return res

class Contract:
    """requires / modifies / ensures of one function.  'modifies' lists contract expressions naming what may change:
       'b' (a scalar variable), '*p' (contents of an array), 'v.*' (a modelled object or struct)"""
    def __init__(self, name, file, cls=None, params=None, requires=(), modifies=(), ensures=(), inv=(), setup=None, qual=None, nparams=None, opts=None, result=None, kinds=None,
                 lemmas=(), pred=None, hooks=None, at_return=None, trusted=False, ctor=None, insert=None, frame=False, throws=None, recarrays=(), ghosts=None, locs=None):
        self.locs = locs or {}     # locals the invariants name, with their types: if one was renamed, the next unclaimed local of that type stands in
        self.name, self.file, self.cls = name, file, cls
        self.requires, self.modifies, self.ensures, self.inv, self.setup = list(requires), list(modifies), list(ensures), list(inv), setup
        self.qual, self.nparams, self.opts, self.kinds, self.lemmas, self.pred, self.hooks = qual, nparams, opts or {}, kinds, list(lemmas), pred, hooks or {}
        self.params = params; self.trusted = trusted; self.ctor = ctor; self.insert = insert
        self.frame = frame; self.throws = throws; self.recarrays = recarrays; self.ghosts = ghosts or {}
    def fullname(self): return (self.cls + '::' if self.cls else '') + self.name
    def find(self, tus):
        for tu in tus:
            fs = tu.find(self.name, cls=self.cls, nparams=self.nparams, qual=self.qual, kinds=self.kinds, pred=self.pred)
            if fs: return fs[0]
        for tu in tus:
            tu.fetch((self.cls + '::' if self.cls else '') + self.name)
            fs = tu.find(self.name, cls=self.cls, nparams=self.nparams, qual=self.qual, kinds=self.kinds, pred=self.pred)
            if fs: return fs[0]
        raise Unsupported('function %s not found' % self.fullname())
    def renamed(self, f, src):
        if not self.locs: return src
        if not hasattr(self, '_alias'):
            decl = []; st = [TU.body(f)]
            while st:
                n = st.pop()
                if not isinstance(n, dict): continue
                if n.get('kind') == 'VarDecl': decl.append((n.get('name'), strip(ty(n)), json.dumps(n.get('inner', []))))
                st.extend(reversed(n.get('inner', []) or []))
            names = {d[0] for d in decl}; used = set(self.locs) & names; self._alias = {}
            for n, t in self.locs.items():
                if n in names: continue
                t, _, hint = t.partition('<-')
                for m, mt, ini in decl:
                    if m not in used and mt == t and (not hint or '"%s"' % hint in ini): self._alias[n] = m; used.add(m); break
        for a, b in self._alias.items(): src = re.sub(r'(?<![\w.$])%s(?!\w)' % re.escape(a), b, src)
        return src
    # --- caller side
    def call(self, ex, st, this, vals, argnodes):
        f = self.find(ex.tus)
        ps = TU.params(f)
        fr = Frame(f, this, None, (ex.frame.tag if ex.frame else '') + '/call:' + self.name); fr.parent = None
        vals2 = []
        for p, v, a in zip(ps, vals, argnodes):
            pt = ty(p)
            if v is Default:
                d = ex.default_arg(f, ps.index(p)); v = ex.ev(d, st)
            if not isref(pt) and not ex.is_record(pt):
                if isinstance(v, Ptr) and not isptr(pt): v = ex.read(st, v, pt)
                elif isinstance(v, Ptr) and isptr(pt) and a.get('valueCategory') == 'lvalue' : v = ex.read(st, v, pt)
                elif not isinstance(v, (Ptr, Opaque)): v = NULL if isptr(pt) else ex.conv(v, pt)
            vals2.append(v)
        ex.bind_params(fr, f, vals2, st, ex.frame)
        old = ex.frame
        pre = st.copy()
        for i, r in enumerate(self.requires):
            g = evalf(ex, st, r, None, None, fr)
            ex.oblige(st, g, 'precondition of %s: %s' % (self.fullname(), r if isinstance(r, str) else 'requires[%d]' % i))
        for m in self.modifies: self.havoc_target(ex, st, m, fr)
        rt = f['type']['qualType'].split('(')[0].strip()
        res = None
        if rt not in ('void', ''):
            if sort_of(rt) is not None: res = ex.fresh('ret.' + self.name, sort_of(rt))
            elif isptr(rt) and strip(pointee(rt)) in ex.opts.get('single', ()):
                g = ex.fresh('null', Bool); r0 = ex.region(('ret', self.name, next(ex.cnt)), 'ret.' + self.name, False, strip(pointee(rt)), fresh=True)
                res = Ptr([(g, None, (I(0),), ''), (z3.Not(g), r0, (I(0),), '')])
            elif isptr(rt) or isref(rt): res = Opaque('result')
            else: res = ex.fresh('ret.' + self.name, Int)
        saved = ex.entry; ex.entry = pre
        try:
            for e in self.ensures:
                st.assume(evalf(ex, st, e, pre, {'result': res, 'ifptr': ifptr(ex, st, rt)}, fr))
        finally: ex.entry = saved
        return res if res is not None else I(0)
    def rett(self, ex): return ex.frame.func['type']['qualType'].split('(')[0].strip()
    def havoc_target(self, ex, st, m, fr):
        sc = Scope(ex, st, None, None, fr)
        if callable(m): return m(ex, st, sc)
        if m.startswith('*'):
            v = eval(m[1:], sc)
            for g, r, idx, path in v._p.alts:
                if r is None: continue
                if ex.is_record(r.ety):
                    ks = [k for k in ex.keyty if k[0] == r.id]
                    for k in ks: ex.havoc1(st, k); ex.written is not None and ex.written.add(k)
                    continue
                k = ex.keyfor(r, path, r.ety)
                cur = st.store.get(k)
                if isptr(r.ety) and not r.arr and (cur is None or isinstance(cur, Opaque) or isinstance(cur, Ptr) and all(a[1] is None for a in cur.alts)): st.store[k] = ex.mkval(ex.kname(k), r.ety, r, k)
                else: ex.havoc1(st, k)
                if ex.written is not None: ex.written.add(k)
            return
        if m.endswith('.*'):
            v = eval(m[:-2], sc)
            t = pointee(v._t) if isptr(v._t) else v._t
            if ex.models.is_model(t): ex.models.havoc(ex, st, v._p, t); return
            g, r, idx, path = v._alt()
            rec = ex.record(t)
            for n, ft in ex.allfields(rec):
                if sort_of(ft) is None and not ex.is_enum(ft): continue
                k = ex.keyfor(r, (path + '.' if path else '') + n, ft); ex.havoc1(st, k)
                if ex.written is not None: ex.written.add(k)
            return
        # scalar variable or field
        parts = m.split('.')
        lv, t = self.lvalue(ex, st, parts, fr)
        for g, r, idx, path in lv.alts:
            k = ex.keyfor(r, path, t); ex.havoc1(st, k)
            if ex.written is not None: ex.written.add(k)
    def lvalue(self, ex, st, parts, fr):
        n = parts[0]
        if re.match(r'^arg\d+$', n): lv, t = fr.env[TU.params(fr.func)[int(n[3:])]['id']]
        elif n in fr.names: lv, t = fr.env[fr.names[n]]
        else:
            cls = ex.clsname(fr); rec = ex.record(cls)
            t = dict(ex.allfields(rec))[n]; lv = ex.fld(fr.this, n)
        for p in parts[1:]:
            if isptr(t): lv = ex.read(st, lv, t); t = pointee(t)
            t = dict(ex.allfields(ex.record(t)))[p]; lv = ex.fld(lv, p)
        return lv, t
    # --- verification of the body
    def verify(self, ex):
        f = self.find(ex.tus)
        st = State()
        cls = ex.tus[0].clsof(f) or self.cls
        this = None
        if f['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and f.get('storageClass') != 'static':
            this = ptr(ex.region(('this',), 'this', False, cls))
        fr = Frame(f, this, None, self.name)
        fr.rtype = f['type']['qualType'].split('(')[0].strip()
        ex.frame = fr; ex.path = [self.fullname()]; ex.contract = self
        for p in TU.params(f):
            pt = ty(p); nm = p.get('name', 'arg%d' % len(fr.env))
            fr.names[nm] = p['id']
            if isref(pt) or ex.is_record(pt):
                t = unref(pt)
                if sort_of(t) is not None or isptr(t) : r = ex.region(('param', nm), nm, False, t)
                else: r = ex.region(('param', nm), nm, False, t)
                fr.env[p['id']] = (ptr(r), t)
                continue
            r = ex.region(('v', fr.tag, p['id']), nm, False, strip(pt), fresh=True)
            fr.env[p['id']] = (ptr(r), strip(pt))
            if isptr(pt):
                pp = pointee(pt)
                if ex.is_record(pp): reg = ex.region(('param', nm, '*'), nm, nm in getattr(self, 'recarrays', ()), pp)
                elif isptr(pp): reg = ex.region(('param', nm, '*'), nm, True, pointee(pp), ex.named(nm + '.size', Int), 2)
                elif pp == 'void' or '(' in pp or pp == '_IO_FILE':
                    ex.store(st, r, '', pt, Opaque(pp)); continue
                else: reg = ex.region(('param', nm, '*'), nm, True, pp, ex.named(nm + '.size', Int))
                ex.store(st, r, '', pt, ptr(reg))
            else:
                try: ex.store(st, r, '', pt, z3.Const(nm, ex.vsort(pt)))
                except Unsupported: ex.store(st, r, '', pt, Opaque(pt))
        ex.cands = [self.renamed(f, c) if isinstance(c, str) else c for c in self.inv]; ex.hooks.update(self.hooks)
        ex.opts.update(self.opts)
        P.lemmas.clear(); P.lemmas.update(ex.opts.get('lemmas', ()))
        if self.setup: self.setup(ex, st, fr)
        for r in self.requires: st.assume(evalf(ex, st, r))
        ex.entry = st.copy()
        if not ex.feasible(st): raise Unsupported('contradictory precondition of ' + self.fullname())
        if f['kind'] == 'CXXConstructorDecl': ex.ctor_inits(f, st, this)
        outs = ex.stmt(TU.body(f), st)
        nret = 0; feas = 0
        P.lemmas.update(ex.opts.get('post_lemmas', ()))
        for k, s in outs:
            if k == 't' and self.throws is not None:
                for e in self.throws:
                    ex.oblige(s, evalf(ex, s, e, None), 'exception of %s: %s' % (self.fullname(), e))
                if self.frame: self.check_frame(ex, s, ())
            if k not in ('n', 'r'): continue
            nret += 1
            if feas == 0 and ex.feasible(s): feas += 1
            for i, e in enumerate(self.ensures):
                try: g = evalf(ex, s, e, None, {'result': s.ret, 'ifptr': ifptr(ex, s, self.rett(ex))})
                except NA as x: raise Unsupported('postcondition names %s' % x)
                ex.oblige(s, g, 'postcondition of %s: %s' % (self.fullname(), e if isinstance(e, str) else getattr(e, '__name__', 'ensures[%d]' % i)))
            if self.frame: self.check_frame(ex, s, self.modifies)
        if nret and not feas: raise Unsupported('vacuous: no return of %s is reachable' % self.fullname())
        if not nret: raise Unsupported('%s never returns' % self.fullname())
        return ex
    def check_frame(self, ex, s, mods):
        """memory that existed at entry and is not listed under modifies has its entry value"""
        allowed = set()
        for m in mods:
            if callable(m): continue
            m = re.sub(r'^(\*?)arg(\d+)', lambda x: x.group(1) + TU.params(ex.frame.func)[int(x.group(2))].get('name', ''), m)
            if m.startswith('*') or m.endswith('.*'): allowed.add(m); continue
            lv, t = self.lvalue(ex, ex.entry, m.split('.'), ex.frame)
            for g, r, idx, path in lv.alts: allowed.add((r.id, path))
        goals = []; names = []
        for k, v in list(s.store.items()):
            t, r = ex.keyty[k]
            if r.fresh or k in allowed or (r.name + ('.' + k[1] if k[1] else '')) in allowed: continue
            if any(isinstance(a, str) and (a == '*' + r.name or (a.endswith('.*') and (r.name + '.' + k[1]).startswith(a[:-1]))) for a in allowed): continue
            try: v0 = ex.entry.store[k] if k in ex.entry.store else ex.initial(k, t, r)
            except Unsupported: continue
            if v is v0 or isinstance(v, Opaque): continue
            if isinstance(v, Ptr) or isinstance(v0, Ptr): g = ex.ptrop('==', v, v0, s)
            else: g = v == v0
            goals.append(g); names.append(ex.kname(k))
        if goals: ex.oblige(s, z3.And(goals), 'frame of %s: only %s may change (written: %s)' % (self.fullname(), list(mods), names))
        else: ex.oblige(s, TRUE, 'frame of %s' % self.fullname())
