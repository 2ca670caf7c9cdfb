"""Verification-condition generator: symbolic execution of clang ASTs of the real source, cut at loops (invariants found by
Houdini among candidate contracts) and at calls under contract.  ints are mathematical integers, doubles are mathematical reals."""
import z3, time, os, sys, itertools, re
from .cast import Unsupported, ty, TU
from . import prove as P

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
def I(n): return z3.IntVal(n)
def R(n): return z3.RealVal(n)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

INTS = {'int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char', 'long long',
        'unsigned long long', 'size_t', 'std::size_t', 'CoinBigIndex', 'int64_t', 'uint64_t', 'CoinInt64', 'ptrdiff_t', 'std::ptrdiff_t', 'CoinUInt64', 'time_t'}
REALS = {'double', 'float', 'long double', 'CoinWorkDouble', 'clock_t'}

def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'register '):
            if t.startswith(p): t = t[len(p):].strip(); ch = True
        for p in (' const', ' volatile', '*const', '* const'):
            if t.endswith(p): t = (t[:-len(p)] + ('*' if p.startswith('*') else '')).strip(); ch = True
    return t
def isref(t): return t.rstrip().endswith('&')
def unref(t):
    t = t.strip()
    while t.endswith('&'): t = t[:-1].strip()
    return strip(t)
def isptr(t): t = strip(t); return t.endswith('*') or ('(*)' in t)
def pointee(t):
    t = strip(t)
    if not t.endswith('*'): raise Unsupported('pointer type ' + t)
    return strip(t[:-1])
def arrinfo(t):
    m = re.match(r'^(.*?)((?:\[\d*\])+)$', strip(t))
    if not m: return None
    dims = [int(x) if x else None for x in re.findall(r'\[(\d*)\]', m.group(2))]
    return strip(m.group(1)), dims
def sort_of(t):
    t = strip(unref(t))
    if t in INTS: return Int
    if t in REALS: return Real
    if t in ('bool', '_Bool'): return Bool
    if t.startswith('enum '): return Int
    return None

_hq = {}
def has_quant(f):
    k = f.get_id()
    if k in _hq and _hq[k][0] is f: return _hq[k][1]
    seen = set(); st = [f]; r = False
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): r = True; break
        st.extend(t.children())
    _hq[k] = (f, r); return r
class Region:
    __slots__ = ('id', 'name', 'arr', 'dims', 'ety', 'size', 'const', 'fresh')
    def __init__(self, id, name, arr, ety, size=None, dims=1, const=False, fresh=False):
        self.id, self.name, self.arr, self.ety, self.size, self.dims, self.const, self.fresh = id, name, arr, ety, size, dims, const, fresh
    def __repr__(self): return 'Rg(%s)' % self.name

class Ptr:
    """guarded alternatives (guard, region or None, index tuple, path); also used for lvalues and object references"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Ptr%s' % (self.alts,)
NULL = Ptr([(TRUE, None, (I(0),), '')])
def ptr(region, off=0, path=''): return Ptr([(TRUE, region, (off if z3.is_expr(off) else I(off),), path)])

class Opaque:
    """a value the verifier does not interpret (strings, streams, function pointers)"""
    def __init__(self, why=''): self.why = why

class State:
    __slots__ = ('store', 'facts', 'ret')
    def __init__(self, store=None, facts=None, ret=None): self.store = dict(store or {}); self.facts = facts; self.ret = ret
    def copy(self): return State(self.store, self.facts, self.ret)
    def assume(self, f):
        if f is None or (z3.is_expr(f) and z3.is_true(f)): return
        self.facts = (self.facts, f)
    def factlist(self):
        r = []; n = self.facts
        while n is not None: r.append(n[1]); n = n[0]
        r.reverse(); return r

class Frame:
    n = 0
    def __init__(self, func, this=None, parent=None, tag=''):
        Frame.n += 1; self.func = func; self.this = this; self.env = {}; self.names = {}; self.parent = parent; self.tag = tag; self.scope = []
        self.rtype = ''

class Obligation:
    __slots__ = ('name', 'ok', 'how', 'secs', 'detail', 'where')
    def __init__(self, name, ok, how, secs, detail='', where=''): self.name, self.ok, self.how, self.secs, self.detail, self.where = name, ok, how, secs, detail, where

class Outcome: pass

class Engine:
    def __init__(self, tus, models, contracts=None, ghosts=None, opts=None):
        self.tus = tus if isinstance(tus, list) else [tus]
        self.models = models; self.contracts = contracts or {}
        self.ghosts = ghosts or {}
        self.regions = {}; self.keyty = {}; self.init = {}
        self.written = None; self.dry = 0; self.mute = 0
        self.obls = []; self.assumed_calls = {}; self.inlined = set(); self.loops = 0
        self.cands = []          # candidate invariants (strings)
        self.frame = None; self.path = []; self.cnt = itertools.count()
        self.opts = dict(max_paths=24, houdini_ms=1500, prove_ms=8000, depth=12, auto_pairs=True); self.opts.update(opts or {})
        self.global_facts = []
        self.loopcache = {}; self.pruned = {}
        self.hooks = {}
        self.t0 = time.time()
        self.entry = None
        self.trace = os.environ.get('VTRACE')
        self.bounds = False
        self.loopinfo = []; self.onfail = None
        self.deadline = None

    # ------------------------------------------------------------------ terms
    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.cnt)), sort)
    def asort(self, t, dims):
        s = sort_of(t)
        if s is None and not isptr(t) and self.is_enum(t) and not self.is_record(t): s = Int
        if s is None: raise Unsupported('array of ' + t)
        for _ in range(dims): s = z3.ArraySort(Int, s)
        return s
    def region(self, id, name, arr, ety, size=None, dims=1, **k):
        r = self.regions.get(id)
        if r is None:
            r = Region(id, name, arr, ety, size, dims, **k); self.regions[id] = r
        return r
    # initial (function entry) value of a memory key
    def initial(self, key, t, region):
        if key in self.init: return self.init[key]
        if key[1] == '#freed': return FALSE
        nm = '%s%s' % (region.name, ('.' + key[1]) if key[1] else '')
        v = self.mkval(nm, t, region, key, init=True)
        self.init[key] = v
        return v
    def mkval(self, nm, t, region, key, init=False):
        t = strip(unref(t))
        if region.arr:
            if isptr(t) and region.dims == 1:
                raise Unsupported('array of pointers ' + nm)
            s = self.asort(t, region.dims)
            return z3.Const(nm if init else '%s!%d' % (nm, next(self.cnt)), s)
        if isptr(t):
            pt = pointee(t)
            rid = (key, '*'); dims = 1
            if strip(pt) in self.opts.get('single', ()): return ptr(self.region(rid, nm + '*', False, strip(pt)))
            if isptr(pt): dims = 2; pt = pointee(pt)
            r = self.region(rid, nm + '*', True, pt, self.named(nm + '.size', Int), dims)
            return Ptr([(TRUE, r, (I(0),), '')])
        s = sort_of(t)
        if s is None:
            if self.is_enum(t): s = Int
            else: raise Unsupported('value of type %s (%s)' % (t, nm))
        return z3.Const(nm if init else '%s!%d' % (nm, next(self.cnt)), s)
    def named(self, nm, s): return z3.Const(nm, s)
    def is_enum(self, t):
        t = strip(unref(t)).replace('enum ', '')
        if t in self.models.classes or t in self.records_known(): return False
        return True
    def records_known(self):
        r = set()
        for tu in self.tus: r.update(tu.records.keys())
        return r
    def record(self, t):
        t = strip(unref(t)).split('::')[-1]
        for tu in self.tus:
            if t in tu.records: return tu.records[t]
        for tu in self.tus:
            docs = tu.fetch(t)
            if t in tu.records: return tu.records[t]
            for o in docs or []:       # typedef struct tag {...} name
                if o.get('kind') == 'TypedefDecl' and o.get('name') == t:
                    tag = o.get('type', {}).get('qualType', '').replace('struct ', '').strip()
                    if tag and tag != t and re.match(r'^\w+$', tag):
                        tu.fetch(tag)
                        if tag in tu.records: tu.records[t] = tu.records[tag]; return tu.records[t]
        return None
    def is_record(self, t):
        t = strip(unref(t))
        if sort_of(t) is not None or isptr(t) or arrinfo(t): return False
        if self.models.is_model(t): return True
        if t in ('void', ''): return False
        base = t.split('::')[-1].split('<')[0]
        for tu in self.tus:
            if base in tu.records: return True
        if t.startswith('enum '): return False
        return self.record(t) is not None
    # ------------------------------------------------------------------ memory
    def keyfor(self, region, path, t):
        key = (region.id, path)
        if key not in self.keyty: self.keyty[key] = (strip(unref(t)), region)
        return key
    def load(self, st, region, path, t):
        key = self.keyfor(region, path, t)
        if key in st.store: return st.store[key]
        v = self.initial(key, t, region)
        return v
    def store(self, st, region, path, t, v):
        key = self.keyfor(region, path, t)
        st.store[key] = v
        if self.written is not None: self.written.add(key)
    def check_bounds(self, st, region, idx, what):
        if not self.bounds or self.dry or self.mute or not region.arr or region.size is None: return
        i = idx[-1] if region.dims == len(idx) else idx[0]
        sz = region.size
        self.oblige(st, z3.And(i >= 0, i < sz), 'in-bounds ' + what)
    def read(self, st, lv, t):
        """value of the lvalue (scalar, pointer)"""
        t = strip(unref(t))
        vals = []
        for g, r, idx, path in lv.alts:
            if r is None: continue
            if z3.is_false(g): continue
            vals.append((g, self.read1(st, r, idx, path, t)))
        if not vals: raise Unsupported('read through null pointer')
        out = vals[-1][1]
        for g, v in reversed(vals[:-1]): out = self.ite(g, v, out)
        return out
    def read1(self, st, r, idx, path, t):
        if r.arr and r.dims == 2 and isptr(t) and not path:   # row pointer of a 2-d array
            return Ptr([(TRUE, r, (idx[0], I(0)), '')])
        if arrinfo(t):
            return ptr(self.subregion(r, path, t))
        if r.arr and isptr(t):
            h = self.hooks.get('ptrarray')
            if h:
                v = h(self, st, r, idx, path, t)
                if v is not None: return v
            raise Unsupported('array of pointers ' + r.name)
        c = self.load(st, r, path, t)
        if r.arr:
            self.check_bounds(st, r, idx, r.name)
            if r.dims == 2:
                if len(idx) != 2: raise Unsupported('2-d access')
                return z3.Select(z3.Select(c, idx[0]), idx[1])
            return z3.Select(c, idx[0])
        return c
    def subregion(self, r, path, t):
        base, dims = arrinfo(t)
        if r.arr: raise Unsupported('array inside array element')
        return self.region((r.id, path, '[]'), r.name + '.' + path if path else r.name, True, base, I(dims[0]) if dims[0] else None, len(dims))
    def write(self, st, lv, t, v):
        t = strip(unref(t))
        alts = [a for a in lv.alts if a[1] is not None and not z3.is_false(a[0])]
        if not alts: raise Unsupported('write through null pointer')
        for g, r, idx, path in alts:
            single = len(alts) == 1
            if r.arr and r.dims == 2 and isptr(t):
                if isinstance(v, Ptr) and v.alts[0][1] is not None and v.alts[0][1].fresh:
                    c = self.load(st, r, '', r.ety); nc = self.load(st, v.alts[0][1], '', r.ety)
                    self.store(st, r, '', r.ety, z3.Store(c, idx[0], nc))
                continue
            if r.arr and isptr(t):
                h = self.hooks.get('ptrarray_write')
                if h and h(self, st, r, idx, path, t, v): continue
                raise Unsupported('array of pointers ' + r.name)
            if r.const: self.oblige(st, FALSE, 'write to read-only ' + r.name)
            vv = v if isinstance(v, Ptr) else self.conv(v, t)
            if r.arr:
                self.check_bounds(st, r, idx, r.name)
                c = self.load(st, r, path, t)
                if r.dims == 2:
                    if len(idx) != 2: raise Unsupported('2-d access')
                    n = z3.Store(c, idx[0], z3.Store(z3.Select(c, idx[0]), idx[1], vv))
                else: n = z3.Store(c, idx[0], vv)
            else: n = vv
            if not single:
                n = self.ite(g, n, self.load(st, r, path, t))
            self.store(st, r, path, t, n)
    def conv(self, v, t):
        """C conversion of a scalar value to type t"""
        t = strip(unref(t))
        if isinstance(v, (Ptr, Opaque)): return v
        if isinstance(v, bool): v = z3.BoolVal(v)
        if isinstance(v, int): v = I(v)
        s = sort_of(t)
        if s is None:
            if t in ('void', ''): return v
            s = Int   # enum
        if v.sort() == s: return v
        if s == Real:
            if v.sort() == Int: return z3.ToReal(v)
            return z3.If(v, R(1), R(0))
        if s == Int:
            if v.sort() == Bool: return z3.If(v, I(1), I(0))
            return P.trunc(v)
        if s == Bool:
            if v.sort() == Int: return v != 0
            return v != R(0)
        raise Unsupported('conversion')
    def tobool(self, v):
        if isinstance(v, Ptr):
            gs = [g for g, r, i, p in v.alts if r is None]
            return z3.Not(z3.Or(gs)) if gs else TRUE
        if isinstance(v, Opaque): return self.fresh('opaque', Bool)
        if v.sort() == Bool: return v
        return z3.simplify(v != 0) if z3.is_int_value(v) else v != 0
    def ite(self, g, a, b):
        if a is b: return a
        if z3.is_true(g): return a
        if z3.is_false(g): return b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): return Opaque('mixed')
            la, lb = a.alts, b.alts
            if len(la) == 1 and len(lb) == 1 and la[0][1] is lb[0][1] and la[0][3] == lb[0][3] and len(la[0][2]) == len(lb[0][2]):
                if la[0][1] is None: return a
                idx = tuple(x if x.eq(y) else z3.If(g, x, y) for x, y in zip(la[0][2], lb[0][2]))
                return Ptr([(TRUE, la[0][1], idx, la[0][3])])
            out = []
            for gg, r, i, p in la: out.append((z3.simplify(z3.And(g, gg)), r, i, p))
            for gg, r, i, p in lb: out.append((z3.simplify(z3.And(z3.Not(g), gg)), r, i, p))
            # join identical alternatives
            res = []
            for alt in out:
                for k, o in enumerate(res):
                    if o[1] is alt[1] and o[3] == alt[3] and (o[1] is None or all(x.eq(y) for x, y in zip(o[2], alt[2]))):
                        res[k] = (z3.simplify(z3.Or(o[0], alt[0])), o[1], o[2], o[3]); break
                else: res.append(alt)
            if len(res) == 1: res = [(TRUE,) + res[0][1:]]
            return Ptr(res)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque()
        if a.eq(b): return a
        if a.sort() != b.sort():
            if Real in (a.sort(), b.sort()): a, b = self.conv(a, 'double'), self.conv(b, 'double')
            else: a, b = self.conv(a, 'int'), self.conv(b, 'int')
        return z3.If(g, a, b)
    def merge(self, states):
        if not states: return None
        if len(states) == 1: return states[0]
        while len(states) > 1:
            states = [self.merge2(states[i], states[i + 1]) if i + 1 < len(states) else states[i] for i in range(0, len(states), 2)]
        return states[0]
    def merge2(self, a, b):
        # common prefix of the fact lists
        ida = {}; n = a.facts
        while n is not None: ida[id(n)] = n; n = n[0]
        n = b.facts; sufb = []
        while n is not None and id(n) not in ida: sufb.append(n[1]); n = n[0]
        common = n; sufa = []; n = a.facts
        while n is not common: sufa.append(n[1]); n = n[0]
        sufa.reverse(); sufb.reverse()
        # a discriminating condition: use complementary first facts when present
        sel = None
        if sufa and sufb and z3.is_bool(sufa[0]) and (z3.Not(sufa[0]).eq(sufb[0])): sel = sufa[0]; sufa = sufa[1:]; sufb = sufb[1:]
        elif sufa and sufb and z3.Not(sufb[0]).eq(sufa[0]): sel = z3.Not(sufb[0]); sufa = sufa[1:]; sufb = sufb[1:]
        else: sel = self.fresh('sel', Bool)
        m = State(facts=common)
        for f in sufa: m.assume(z3.Implies(sel, f))
        for f in sufb: m.assume(z3.Implies(z3.Not(sel), f))
        keys = set(a.store) | set(b.store)
        for k in keys:
            if k in a.store and k in b.store:
                m.store[k] = self.ite(sel, a.store[k], b.store[k])
            else:
                s = a if k in a.store else b
                t, r = self.keyty[k]
                if k in self.init or self.preexisting(r):
                    try: o = self.initial(k, t, r)
                    except Unsupported: m.store[k] = s.store[k]; continue
                    m.store[k] = self.ite(sel, s.store[k], o) if s is a else self.ite(sel, o, s.store[k])
                else: m.store[k] = s.store[k]   # allocated / declared on one side only
        if a.ret is not None or b.ret is not None:
            m.ret = a.ret if b.ret is None else b.ret if a.ret is None else self.ite(sel, a.ret, b.ret)
        return m
    def preexisting(self, r): return not r.fresh

    # ------------------------------------------------------------------ obligations
    def facts_of(self, st): return self.global_facts + st.factlist()
    def oblige(self, st, goal, name, ms=None, node=None):
        if self.dry or self.mute: return True
        t = time.time()
        r = P.prove(self.facts_of(st), goal, ms or self.opts['prove_ms'], thorough=True)
        o = Obligation(name, r.ok, r.how, time.time() - t, r.detail if not r.ok else '', ' > '.join(self.path))
        if not r.ok and self.onfail: self.onfail(st, goal, name, r)
        self.obls.append(o)
        if not r.ok and os.environ.get('VDUMPO') and os.environ['VDUMPO'] in name: P.dump(self.facts_of(st), goal, '/tmp/w/dump.smt2'); P.debug(self.facts_of(st), goal)
        if self.trace: print('   [%s] %s %.2fs %s' % ('ok' if r.ok else 'FAIL ' + r.how, name, o.secs, o.where), file=sys.stderr)
        return r.ok
    def holds(self, st, goal, ms=None):
        return P.prove(self.facts_of(st), goal, ms or self.opts['houdini_ms']).ok
    def feasible(self, st):
        return not P.prove(self.facts_of(st), FALSE, 400).ok

    # ------------------------------------------------------------------ names for contracts
    def lookup(self, name):
        f = self.frame
        while f is not None:
            if name in f.names: return f, f.names[name]
            f = f.parent
        return None, None

    # ------------------------------------------------------------------ statements
    def run(self, stmts, st):
        """list of (kind, state)"""
        cur = [st]; out = []
        for s in stmts:
            nxt = []
            for c in cur:
                for k, s2 in self.stmt(s, c):
                    if k == 'n': nxt.append(s2)
                    else: out.append((k, s2))
            if not nxt: return out
            nxt = self.prune(nxt)
            if len(nxt) > self.opts['max_paths']:
                nxt = [self.merge(nxt)]
            cur = nxt
        out += [('n', c) for c in cur]
        return out
    def prune(self, states):
        if self.dry or len(states) < 2 or not self.opts.get('prune'): return states
        out = []
        for s in states:
            k = id(s.facts)
            if k in self.pruned and self.pruned[k][0] is s.facts: ok = self.pruned[k][1]
            else:
                sv = z3.Solver(); sv.set('timeout', 150); sv.add([f for f in s.factlist() if not has_quant(f)]); ok = sv.check() != z3.unsat
                self.pruned[k] = (s.facts, ok)
            if ok: out.append(s)
        return out or states[:1]
    def stmt(self, s, st):
        k = s.get('kind')
        if not k: return [('n', st)]
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
        m = getattr(self, 's_' + k, None)
        if m: return m(s, st)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k in ('ExprWithCleanups',):
            if k == 'CXXThrowExpr': return [('t', st)]
            inner = s
            while inner.get('kind') in ('ExprWithCleanups', 'ParenExpr'): inner = inner['inner'][0]
            if inner.get('kind') == 'CXXThrowExpr': return [('t', st)]
            if inner.get('kind') == 'ConditionalOperator' and ty(inner) == 'void': pass
            try:
                self.ev(s, st)
            except ThrowPath: return [('t', st)]
            return [('n', st)]
        raise Unsupported('statement ' + k)
    def s_CompoundStmt(self, s, st):
        return self.scoped(lambda: self.run(s.get('inner', []), st))
    def scoped(self, f):
        """names declared inside are out of scope afterwards"""
        fr = self.frame; n = dict(fr.names)
        try: return f()
        finally: fr.names.clear(); fr.names.update(n)
    def s_NullStmt(self, s, st): return [('n', st)]
    def s_AttributedStmt(self, s, st): return self.stmt(s['inner'][-1], st)
    def s_DeclStmt(self, s, st):
        for d in s.get('inner', []):
            if d['kind'] == 'VarDecl': self.declare(d, st)
            elif d['kind'] in ('TypedefDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'TypeAliasDecl', 'EnumDecl', 'UsingDecl', 'StaticAssertDecl'): pass
            else: raise Unsupported('declaration ' + d['kind'])
        return [('n', st)]
    def s_ReturnStmt(self, s, st):
        v = None
        if s.get('inner'):
            e = s['inner'][0]
            if isref(self.frame.rtype) or (self.is_record(ty(e)) and not isptr(ty(e))): v = self.evl(e, st)
            else: v = self.ev(e, st); v = self.conv(v, self.frame.rtype) if not isinstance(v, (Ptr, Opaque)) else v
        st.ret = v
        return [('r', st)]
    def s_BreakStmt(self, s, st): return [('b', st)]
    def s_ContinueStmt(self, s, st): return [('c', st)]
    def s_IfStmt(self, s, st):
        inner = [c for c in s.get('inner', [])]
        pre = []
        if s.get('hasInit'): pre.append(inner.pop(0))
        if s.get('hasVar'): pre.append(inner.pop(0))
        out = []
        for p in pre:
            for k, st2 in self.stmt(p, st): st = st2
        cond = inner[0]; then = inner[1]; els = inner[2] if len(inner) > 2 else None
        br = list(self.branch(cond, st))
        if self.opts.get('prune_if') and not self.dry and len(br) > 1:
            keep = {id(x) for x in self.prune([b[1] for b in br])}; br = [b for b in br if id(b[1]) in keep]
        for c, st1 in br:
            if c:
                out += self.stmt(then, st1)
            elif els is not None: out += self.stmt(els, st1)
            else: out.append(('n', st1))
        ns = [x for x in out if x[0] == 'n']
        if len(ns) > 1 and self.mergeable([x[1] for x in ns]):
            m = self.merge([x[1] for x in ns])
            out = [x for x in out if x[0] != 'n'] + [('n', m)]
        return out
    def mergeable(self, sts):
        if self.dry: return True
        if self.opts.get('merge') == 'always': return True
        if len(sts) > 6: return True
        # merge when only scalars differ and at most 3 of them
        base = sts[0]; diff = set()
        for o in sts[1:]:
            for k in set(base.store) | set(o.store):
                a, b = base.store.get(k), o.store.get(k)
                if a is b: continue
                if a is not None and b is not None and not isinstance(a, (Ptr, Opaque)) and not isinstance(b, (Ptr, Opaque)) and a.eq(b): continue
                diff.add(k)
        for k in diff:
            t, r = self.keyty[k]
            if r.arr: return False
        return len(diff) <= self.opts.get('merge_scalars', 2)
    def branch(self, cond, st):
        """evaluate a condition; yields (bool, state) for the outcomes that are not trivially impossible"""
        c = self.cond(cond, st)
        c = z3.simplify(c)
        if z3.is_true(c): return [(True, st)]
        if z3.is_false(c): return [(False, st)]
        s2 = st.copy()
        st.assume(c); s2.assume(z3.Not(c))
        return [(True, st), (False, s2)]
    def cond(self, e, st): return self.tobool(self.ev(e, st))
    def s_WhileStmt(self, s, st):
        inner = s['inner']
        if s.get('hasVar'): raise Unsupported('while with declaration')
        return self.loop(s, st, inner[0], inner[1], None, False)
    def s_DoStmt(self, s, st):
        return self.loop(s, st, s['inner'][1], s['inner'][0], None, True)
    def s_ForStmt(self, s, st): return self.scoped(lambda: self.forstmt(s, st))
    def forstmt(self, s, st):
        init, var, cond, inc, body = s['inner']
        if init.get('kind'):
            r = self.stmt(init, st)
            st = r[0][1]
        return self.loop(s, st, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None, False)
    def s_SwitchStmt(self, s, st):
        inner = s['inner']
        cond, body = inner[-2], inner[-1]
        v = self.ev(cond, st)
        items = []   # flat list: ('case', value|None) or stmt
        def flat(n):
            while n.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if n['kind'] == 'CaseStmt':
                    lab = n['inner'][0]
                    items.append(('case', lab)); n = n['inner'][-1]
                else:
                    items.append(('default', None)); n = n['inner'][-1]
            items.append(('stmt', n))
        for c in body.get('inner', []): flat(c)
        labs = []
        for i, (k, x) in enumerate(items):
            if k == 'case':
                labs.append((i, self.conv(self.ev(x, st), 'int')))
            elif k == 'default': labs.append((i, None))
        vi = self.conv(v, 'int')
        out = []
        others = [l for _, l in labs if l is not None]
        hasdef = False
        groups = {}
        for i, l in labs:
            # consecutive labels start at the same statement
            j = i
            while j < len(items) and items[j][0] != 'stmt': j += 1
            groups.setdefault(j, []).append(l)
        for j, ls in groups.items():
            conds = []
            for l in ls:
                if l is None: hasdef = True; conds.append(z3.And([vi != o for o in others]) if others else TRUE)
                else: conds.append(vi == l)
            c = z3.simplify(z3.Or(conds))
            if z3.is_false(c): continue
            s2 = st.copy(); s2.assume(c)
            for k, s3 in self.run([x for t, x in items[j:] if t == 'stmt'], s2):
                out.append(('n' if k == 'b' else k, s3))
        if not hasdef:
            s2 = st.copy(); s2.assume(z3.And([vi != o for o in others]) if others else TRUE)
            out.append(('n', s2))
        return out
    def s_CXXTryStmt(self, s, st):
        return self.stmt(s['inner'][0], st)
    def s_LabelStmt(self, s, st):
        return self.stmt(s['inner'][-1], st)
    # ------------------------------------------------------------------ loops
    def iterate(self, st, cond, body, inc, isdo):
        """one iteration from the loop head: (back-edge states, exit states, other outcomes)"""
        back, exits, others = [], [], []
        starts = [st]
        if not isdo and cond is not None:
            starts = []
            for c, s2 in self.branch(cond, st):
                (starts if c else exits).append(s2)
        ends = []
        for s2 in starts:
            for k, s3 in self.stmt(body, s2):
                if k in ('n', 'c'): ends.append(s3)
                elif k == 'b': exits.append(s3)
                else: others.append((k, s3))
        if len(ends) > self.opts['max_paths']: ends = [self.merge(ends)]
        for s3 in ends:
            if isdo:
                for c, s4 in self.branch(cond, s3): (back if c else exits).append(s4)
            else:
                if inc is not None: self.ev(inc, s3)
                back.append(s3)
        return back, exits, others
    def loop(self, node, st, cond, body, inc, isdo):
        depth_tag = (node.get('id'), tuple(self.path))
        if len(self.path) > 40: raise Unsupported('nesting')
        # dry run: which keys can change
        saved_w = self.written; mod = set(); ptrs = {}
        self.dry += 1
        nfr = len(self.frame.names)
        try:
            for rnd in range(4):
                self.written = set()
                s2 = st.copy(); self.havoc(s2, mod, ptrs, st)
                back, ex, oth = self.iterate(s2, cond, body, inc, isdo)
                w = set(self.written)
                newp = False
                for k in w:
                    t, r = self.keyty[k]
                    for b in back:
                        v = b.store.get(k)
                        if isinstance(v, Ptr):
                            for g, rr, idx, pth in v.alts:
                                tag = (rr.id if rr is not None else None, pth)
                                if tag not in ptrs.setdefault(k, {}): ptrs[k][tag] = (rr, pth, len(idx)); newp = True
                if w <= mod and not newp: break
                mod |= w
        finally:
            self.written = saved_w; self.dry -= 1
        # only keys that exist before the loop matter at the head, but the rest must be reset too
        if self.written is not None: self.written |= mod
        if self.dry:
            h = st.copy(); self.havoc(h, mod, ptrs, st)
            back, exits, others = self.iterate(h, cond, body, inc, isdo)
            if isdo and not exits: exits = back
            res = others
            if exits: res = res + [('n', self.merge(exits))]
            return res
        tloop = time.time()
        cands = self.candidates(node, st, mod, cond, body, inc)
        key = depth_tag
        if key in self.loopcache:      # a re-run of the same loop with fewer outer facts: the surviving set can only shrink
            alive = self.loopcache[key]; cands = [c for c in cands if c[0] in alive]
        # establishment
        good = []
        for c in cands:
            try: f = c[1](st, st)
            except Unsupported: continue
            except z3.Z3Exception: continue
            if f is None: continue
            if z3.is_true(z3.simplify(f)) or self.holds(st, f): good.append(c)
            else:
                if self.trace == '2': print('      not established:', c[0], file=sys.stderr)
                if os.environ.get('VDUMPE') and os.environ['VDUMPE'] in c[0]: P.dump(self.facts_of(st), f, '/tmp/w/dump.smt2'); P.debug(self.facts_of(st), f)
        cands = good
        self.mute += 1
        try:
            while True:
                h = st.copy(); self.havoc(h, mod, ptrs, st)
                for c in cands: h.assume(c[1](h, st))
                self.path.append('L')
                try: back, exits, others = self.iterate(h.copy(), cond, body, inc, isdo)
                finally: self.path.pop()
                if not cands: break
                keep = []; 
                dead = set()
                for b in back:
                    todo = [c for c in cands if c[0] not in dead]
                    if not todo: break
                    # all at once first
                    if len(todo) > 1 and 'absnl' not in P.lemmas and P.prove(self.facts_of(b), z3.And([c[1](b, st) for c in todo]), self.opts['houdini_ms'] * 2).ok: continue
                    for c in todo:
                        if not self.holds(b, c[1](b, st)):
                            dead.add(c[0])
                            if self.trace == '2': print('      not preserved:', c[0], file=sys.stderr)
                            if os.environ.get('VDUMP') and os.environ['VDUMP'] in c[0]:
                                P.dump(self.facts_of(b), c[1](b, st), '/tmp/w/dump.smt2'); print('dumped', c[0]); P.debug(self.facts_of(b), c[1](b, st))
                keep = [c for c in cands if c[0] not in dead]
                if len(keep) == len(cands): break
                cands = keep
                self.loopcache[key] = set(c[0] for c in cands)
        finally: self.mute -= 1
        self.loopcache[key] = set(c[0] for c in cands)
        h = st.copy(); self.havoc(h, mod, ptrs, st)
        for c in cands: h.assume(c[1](h, st))
        if self.trace and not self.mute:
            print('  loop %s line? mod=%s\n     inv: %s  (%.1fs)' % (node['kind'], sorted(self.kname(k) for k in mod), [c[0] for c in cands], time.time() - tloop), file=sys.stderr)
        if not self.mute:
            self.loops += 1
            self.loopinfo.append((node['kind'], len(cands)))
        self.path.append('L')
        try: back, exits, others = self.iterate(h, cond, body, inc, isdo)
        finally: self.path.pop()
        if not exits: return others
        if len(exits) > 1 and (self.mergeable(exits) or len(exits) > 6): exits = [self.merge(exits)]
        return others + [('n', e) for e in exits]
    def kname(self, k):
        t, r = self.keyty[k]
        return r.name + ('.' + k[1] if k[1] else '')
    def havoc(self, st, keys, ptrs, st0):
        for k in keys: self.havoc1(st, k, ptrs)
    def havoc1(self, st, k, ptrs={}):
        t, r = self.keyty[k]
        if k[1] == '#freed': st.store[k] = self.fresh('freed', Bool); return
        cur = st.store.get(k)
        if cur is None and k in self.init: cur = self.init[k]
        if isptr(t) and not r.arr or isinstance(cur, Ptr):
            alts = {}
            if isinstance(cur, Ptr):
                for g, rr, idx, p in cur.alts: alts[(rr.id if rr is not None else None, p)] = (rr, p, len(idx))
            for tag, x in ptrs.get(k, {}).items(): alts.setdefault(tag, x)
            if not alts:
                st.store[k] = self.mkval(self.kname(k), t, r, k); return
            out = []; left = TRUE
            items = list(alts.values())
            for i, (rr, p, n) in enumerate(items):
                last = i == len(items) - 1
                g = left if last else z3.And(left, self.fresh('pg', Bool)) if not z3.is_true(left) else self.fresh('pg', Bool)
                if not last: left = z3.And(left, z3.Not(g))
                if rr is None: out.append((g, None, (I(0),), ''))
                elif not rr.arr: out.append((g, rr, tuple(I(0) for _ in range(n)), p))
                else: out.append((g, rr, tuple(self.fresh('off.' + self.kname(k), Int) for _ in range(n)), p))
            if len(out) == 1: out = [(TRUE,) + out[0][1:]]
            st.store[k] = Ptr(out); return
        if isinstance(cur, Opaque): st.store[k] = Opaque(); return
        st.store[k] = self.mkval(self.kname(k), t, r, k)
    # candidate invariants: list of (text, fn(state, state0) -> formula)
    def candidates(self, node, st, mod, cond, body, inc):
        out = []; seen = set()
        def add(txt, fn):
            if txt not in seen: seen.add(txt); out.append((txt, fn))
        # generic: bounds of modified integer locals
        ints = []
        for k in mod:
            t, r = self.keyty[k]
            if r.arr or k not in st.store: continue
            if sort_of(t) == Int or (isptr(t) is False and sort_of(t) is None):
                v0 = st.store.get(k)
                if v0 is None or isinstance(v0, (Ptr, Opaque)): continue
                ints.append((k, t, r))
        def rd(s, k): return s.store[k]
        def rdp(s, k): return s.store[k]
        for k, t, r in ints:
            nm = self.kname(k)
            add('%s>=init' % nm, lambda s, s0, k=k: rd(s, k) >= s0.store[k])
            add('%s<=init' % nm, lambda s, s0, k=k: rd(s, k) <= s0.store[k])
            add('%s>=0' % nm, lambda s, s0, k=k: rd(s, k) >= 0)
            add('%s>=-1' % nm, lambda s, s0, k=k: rd(s, k) >= -1)
        # pointers that walk
        for k in mod:
            v0 = st.store.get(k)
            if isinstance(v0, Ptr) and len(v0.alts) == 1 and v0.alts[0][1] is not None and v0.alts[0][1].arr:
                def f(s, s0, k=k, le=False):
                    a, b = s.store[k], s0.store[k]
                    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or len(a.alts) != 1 or a.alts[0][1] is not b.alts[0][1]: return FALSE
                    return a.alts[0][2][-1] >= b.alts[0][2][-1]
                add('%s(ptr)>=init' % self.kname(k), f)
        # comparisons in the loop condition
        for a, op, b in self.compares(cond):
            for rel in ('<=', '>='):
                if (op in ('<', '<=') and rel == '>=') or (op in ('>', '>=') and rel == '<='): continue
                def f(s, s0, a=a, b=b, rel=rel, op=op):
                    x, y = self.pure(a, s, True), self.pure(b, s, True)
                    if x is None or y is None: return None
                    if x.sort() != y.sort(): x, y = self.conv(x, 'double'), self.conv(y, 'double')
                    if op == '<=' : return x <= y + 1
                    if op == '>=' : return x >= y - 1
                    if op == '>' : return x >= y
                    return x <= y if rel == '<=' else x >= y
                add('cond %s %s' % (self.txt(a) + op + self.txt(b), rel), f)
        if self.opts['auto_pairs'] and len(ints) <= 6:
            for (k1, t1, r1), (k2, t2, r2) in itertools.permutations(ints, 2):
                add('%s<=%s' % (self.kname(k1), self.kname(k2)), lambda s, s0, a=k1, b=k2: rd(s, a) <= rd(s, b))
                if self.kname(k1) < self.kname(k2):
                    add('%s-%s=init' % (self.kname(k1), self.kname(k2)), lambda s, s0, a=k1, b=k2: rd(s, a) - rd(s, b) == s0.store[a] - s0.store[b])
        from .spec import expand
        fr = self.frame
        for txt, fn in expand(self, st, mod):
            add(txt, fn)
        return out
    def compares(self, e):
        res = []
        def w(n):
            if not n: return
            if n.get('kind') == 'BinaryOperator':
                op = n.get('opcode')
                if op in ('<', '>', '<=', '>=', '!='): res.append((n['inner'][0], op, n['inner'][1]))
                elif op in ('&&', '||'): w(n['inner'][0]); w(n['inner'][1])
            elif n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'): w(n['inner'][0])
        w(e)
        return res
    def txt(self, e):
        k = e.get('kind')
        if k == 'DeclRefExpr': return e['referencedDecl'].get('name', '?')
        if k == 'MemberExpr': return e.get('name', '?')
        if k == 'IntegerLiteral': return str(e['value'])
        return '(' + ' '.join(self.txt(c) for c in e.get('inner', [])[:3]) + ')' if e.get('inner') else k or '?'
    def pure(self, e, st, off=False):
        """value of an expression in a state, without keeping side effects; None if not a scalar"""
        if self.impure(e): return None
        self.mute += 1; sw = self.written; self.written = None
        try: v = self.ev(e, st.copy())
        except (Unsupported, ThrowPath): return None
        finally: self.mute -= 1; self.written = sw
        if off and isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None and v.alts[0][1].arr: return v.alts[0][2][-1]
        if isinstance(v, (Ptr, Opaque)) or v is None: return None
        if v.sort() == Bool: return self.conv(v, 'int')
        return v
    def impure(self, e):
        k = e.get('kind')
        if k == 'UnaryOperator' and e.get('opcode') in ('++', '--'): return True
        if k == 'BinaryOperator' and e.get('opcode') == '=': return True
        if k == 'CompoundAssignOperator': return True
        return any(self.impure(c) for c in e.get('inner', []) or [] if isinstance(c, dict))

    # ------------------------------------------------------------------ declarations
    def var_region(self, d):
        fid = self.frame.tag
        rid = ('v', fid, d.get('id'))
        return rid
    def declare(self, d, st):
        t = ty(d); name = d.get('name', '?')
        init = d['inner'][-1] if d.get('inner') and d.get('init') else None
        if init is None and d.get('inner'):
            cand = [c for c in d['inner'] if c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal') or c.get('kind', '').endswith('Operator')]
            if cand: init = cand[-1]
        self.frame.names[name] = d['id']
        if isref(t):
            lv = self.evl(init, st)
            self.frame.env[d['id']] = (lv, unref(t)); return
        t = strip(t)
        if d.get('storageClass') == 'static': raise Unsupported('static local ' + name)
        ai = arrinfo(t)
        if ai:
            base, dims = ai
            r = Region(self.var_region(d), name, True, base, I(dims[0]) if dims[0] else None, len(dims), fresh=True)
            r = self.regions.setdefault(r.id, r)
            self.frame.env[d['id']] = (ptr(r), t)
            if self.is_record(base): raise Unsupported('local array of records')
            if isptr(base): raise Unsupported('local array of pointers')
            c = z3.Const('%s!%d' % (name, next(self.cnt)), self.asort(base, len(dims)))
            if init is not None: c = self.initlist(init, st, c, base)
            self.store(st, r, '', base, c)
            return
        if self.is_record(t):
            r = self.region(self.var_region(d), name, False, t, fresh=True)
            self.frame.env[d['id']] = (ptr(r), t)
            self.clear_object(st, r)
            if init is not None: self.construct(init, st, ptr(r), t)
            else: self.models.default_construct(self, st, ptr(r), t)
            return
        r = self.region(self.var_region(d), name, False, t, fresh=True)
        self.frame.env[d['id']] = (ptr(r), t)
        if init is not None:
            v = self.ev(init, st)
            if not isinstance(v, (Ptr, Opaque)): v = self.conv(v, t)
            self.store(st, r, '', t, v)
        else:
            try: self.store(st, r, '', t, Ptr([(TRUE, None, (I(0),), '')]) if isptr(t) else self.fresh(name, self.vsort(t)))
            except Unsupported: self.store(st, r, '', t, Opaque(t))
    def vsort(self, t):
        s = sort_of(t)
        if s is None:
            if self.is_enum(t): return Int
            raise Unsupported('type ' + t)
        return s
    def clear_object(self, st, r):
        pass
    def initlist(self, init, st, c, base):
        while init.get('kind') in ('ExprWithCleanups', 'ImplicitCastExpr'): init = init['inner'][0]
        if init.get('kind') != 'InitListExpr': raise Unsupported('array initialiser ' + init.get('kind', ''))
        items = init.get('inner') or []
        if init.get('array_filler'):
            items = [x for x in init['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
            z = {Int: I(0), Real: R(0), Bool: FALSE}[sort_of(base)]
            c = z3.K(Int, z)
        for i, e in enumerate(items):
            v = {Int: I(0), Real: R(0), Bool: FALSE}[sort_of(base)] if e.get('kind') == 'ImplicitValueInitExpr' else self.conv(self.ev(e, st), base)
            c = z3.Store(c, I(i), v)
        return c
    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + e['kind'], None)
        if not m: raise Unsupported('expression ' + e['kind'])
        return m(e, st)
    def evl(self, e, st):
        m = getattr(self, 'l_' + e['kind'], None)
        if m: return m(e, st)
        # rvalue of record type (temporary) or pointer-like
        v = self.ev(e, st)
        if isinstance(v, Ptr): return v
        # temporary for a scalar bound to a const reference
        t = strip(unref(ty(e)))
        r = self.region(('tmp', self.frame.tag, e.get('id')), 'tmp', False, t, fresh=True)
        self.store(st, r, '', t, v if isinstance(v, Opaque) else self.conv(v, t))
        return ptr(r)
    def e_ParenExpr(self, e, st): return self.ev(e['inner'][0], st)
    def l_ParenExpr(self, e, st): return self.evl(e['inner'][0], st)
    def e_ExprWithCleanups(self, e, st): return self.ev(e['inner'][0], st)
    def l_ExprWithCleanups(self, e, st): return self.evl(e['inner'][0], st)
    def e_ConstantExpr(self, e, st): return self.ev(e['inner'][0], st)
    def e_CXXBindTemporaryExpr(self, e, st): return self.ev(e['inner'][0], st)
    def l_CXXBindTemporaryExpr(self, e, st): return self.evl(e['inner'][0], st)
    def e_MaterializeTemporaryExpr(self, e, st): return self.ev(e['inner'][0], st)
    def l_MaterializeTemporaryExpr(self, e, st): return self.evl(e['inner'][0], st)
    def e_SubstNonTypeTemplateParmExpr(self, e, st): return self.ev(e['inner'][-1], st)
    def e_IntegerLiteral(self, e, st): return I(int(e['value']))
    def e_CharacterLiteral(self, e, st): return I(int(e['value']))
    def e_CXXBoolLiteralExpr(self, e, st): return z3.BoolVal(bool(e['value']))
    def e_FloatingLiteral(self, e, st):
        from fractions import Fraction
        f = Fraction(repr(float(e['value'])))   # the decimal number written in the source
        return z3.RealVal(str(f))
    def e_StringLiteral(self, e, st): return Opaque('string')
    def l_StringLiteral(self, e, st): return Opaque('string')
    def e_CXXNullPtrLiteralExpr(self, e, st): return NULL
    def e_GNUNullExpr(self, e, st): return I(0)
    def e_ImplicitValueInitExpr(self, e, st):
        t = strip(ty(e))
        if isptr(t): return NULL
        return {Int: I(0), Real: R(0), Bool: FALSE}[self.vsort(t)]
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_CXXDefaultArgExpr(self, e, st):
        if e.get('inner'): return self.ev(e['inner'][0], st)
        return Default
    def l_CXXDefaultArgExpr(self, e, st):
        if e.get('inner'): return self.evl(e['inner'][0], st)
        return Default
    def e_CXXThisExpr(self, e, st): return self.frame.this
    def e_CXXThrowExpr(self, e, st): raise ThrowPath()
    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        t = (e.get('argType') or {}).get('qualType') or (ty(e['inner'][0]) if e.get('inner') else '')
        if strip(t) == 'char' or strip(t) == 'bool': return I(1)
        return self.named('sizeof:' + strip(t), Int)
    def l_DeclRefExpr(self, e, st):
        d = e['referencedDecl']
        f = self.frame
        while f is not None:
            if d['id'] in f.env: return f.env[d['id']][0]
            f = None
        # global variable
        if d['kind'] == 'VarDecl':
            t = d.get('type', {}).get('desugaredQualType') or d['type']['qualType']
            for tu in self.tus:
                g = tu.byid.get(d['id'])
            if 'const' in d['type']['qualType']:
                v = self.global_const(d)
                if v is not None:
                    r = self.region(('g', d['name']), d['name'], False, strip(t)); r.fresh = True   # a constant
                    st.store[self.keyfor(r, '', t)] = v
                    return ptr(r)
            ai = arrinfo(strip(t))
            if ai:
                r = self.region(('g', d['name']), d['name'], True, ai[0], I(ai[1][0]) if ai[1][0] else None, len(ai[1]))
                return ptr(r)
            return ptr(self.region(('g', d['name']), d['name'], False, strip(t)))
        raise Unsupported('reference to %s %s' % (d['kind'], d.get('name')))
    def global_const(self, d):
        key = ('const', d['name'])
        if key in self.loopcache: return self.loopcache[key]
        v = None
        m = self.models.constants.get(d['name'])
        if m is not None: v = m(self)
        else:
            for tu in self.tus:
                for o in tu.fetch(d['name']):
                    if o.get('kind') == 'VarDecl' and o.get('name') == d['name'] and o.get('inner'):
                        try: v = self.conv(self.ev(o['inner'][-1], State()), ty(o))
                        except (Unsupported, KeyError): v = None
        self.loopcache[key] = v
        return v
    def e_DeclRefExpr(self, e, st):
        d = e['referencedDecl']
        if d['kind'] == 'EnumConstantDecl': return self.enumconst(d)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('function ' + d['name'])
        lv = self.evl(e, st)
        t = ty(e)
        if self.is_record(t): return lv
        return self.read(st, lv, t)
    def enumconst(self, d):
        for tu in self.tus:
            if d['name'] in tu.enums: return I(tu.enums[d['name']])
        h = self.loopcache.setdefault('enums', {})
        if d['name'] not in h: h[d['name']] = 1000 + len(h)
        return I(h[d['name']])
    def l_MemberExpr(self, e, st):
        base = e['inner'][0]; name = e.get('name')
        if e.get('isArrow'): o = self.ev(base, st)
        else: o = self.evl(base, st)
        if isinstance(o, Opaque): return o
        if not isinstance(o, Ptr): raise Unsupported('member of ' + str(o))
        # reference member / static
        return Ptr([(g, r, idx, (p + '.' + name) if p else name) for g, r, idx, p in o.alts])
    def e_MemberExpr(self, e, st):
        if e.get('referencedMemberDecl') and ty(e) == '<bound member function type>': return Opaque('method')
        b = e['inner'][0]
        lv = self.evl(e, st)
        if isinstance(lv, Opaque): return lv
        t = ty(e)
        if self.is_record(t): return lv
        return self.read(st, lv, t)
    def l_ArraySubscriptExpr(self, e, st):
        a, i = e['inner']
        p = self.ev(a, st)
        if not isinstance(p, Ptr): p, i = self.ev(i, st), a
        iv = self.conv(self.ev(i, st), 'int')
        return self.padd(p, iv)
    def padd(self, p, iv):
        if isinstance(p, Opaque): raise Unsupported('pointer arithmetic on opaque value')
        out = []
        for g, r, idx, path in p.alts:
            if r is None: out.append((g, r, idx, path)); continue
            out.append((g, r, idx[:-1] + (z3.simplify(idx[-1] + iv),), path))
        return Ptr(out)
    def e_ArraySubscriptExpr(self, e, st):
        lv = self.evl(e, st)
        t = ty(e)
        if self.is_record(t): return lv
        if arrinfo(t): # row of a 2-d local array
            return Ptr([(g, r, (idx[-1], I(0)), p) for g, r, idx, p in lv.alts])
        return self.read(st, lv, t)
    def l_UnaryOperator(self, e, st):
        op = e['opcode']
        if op == '*': 
            return self.ev(e['inner'][0], st)
        if op in ('++', '--'):
            self.e_UnaryOperator(e, st); return self.evl(e['inner'][0], st)
        raise Unsupported('lvalue ' + op)
    def e_UnaryOperator(self, e, st):
        op = e['opcode']; a = e['inner'][0]
        if op == '*':
            lv = self.ev(a, st)
            if self.is_record(ty(e)): return lv
            if isinstance(lv, Opaque): return lv
            return self.read(st, lv, ty(e))
        if op == '&':
            if a.get('kind') == 'DeclRefExpr' and a['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('function')
            return self.evl(a, st)
        if op in ('++', '--'):
            lv = self.evl(a, st); t = ty(a); v = self.read(st, lv, t)
            if isinstance(v, Ptr): n = self.padd(v, I(1 if op == '++' else -1))
            else:
                one = R(1) if v.sort() == Real else I(1)
                if v.sort() == Bool: v = self.conv(v, 'int')
                n = v + one if op == '++' else v - one
                n = z3.simplify(n)
            self.write(st, lv, t, n)
            return v if e.get('isPostfix') else n
        v = self.ev(a, st)
        if op == '!': return z3.Not(self.tobool(v))
        if isinstance(v, (Ptr, Opaque)): raise Unsupported('unary ' + op)
        if op == '-':
            v = self.conv(v, ty(e)); return z3.simplify(-v) if (z3.is_int_value(v) or z3.is_rational_value(v)) else -v
        if op == '+': return v
        if op == '~': return P.bnot(self.conv(v, 'int'))
        if op == '__extension__': return v
        raise Unsupported('unary ' + op)
    def e_BinaryOperator(self, e, st):
        op = e['opcode']; a, b = e['inner']
        if op == '=':
            t = ty(a)
            if self.is_record(t):
                src = self.evl(b, st); dst = self.evl(a, st); self.copy_record(st, dst, src, t); return dst
            v = self.ev(b, st); lv = self.evl(a, st)
            if isinstance(lv, Opaque): return v
            if not isinstance(v, (Ptr, Opaque)):
                if isptr(t): v = NULL
                else: v = self.conv(v, t)
            self.write(st, lv, t, v)
            return v
        if op in ('&&', '||'):
            x = self.tobool(self.ev(a, st))
            x = z3.simplify(x)
            if op == '&&' and z3.is_false(x): return FALSE
            if op == '||' and z3.is_true(x): return TRUE
            if (op == '&&' and z3.is_true(x)) or (op == '||' and z3.is_false(x)): return self.tobool(self.ev(b, st))
            s2 = st.copy(); s2.assume(x if op == '&&' else z3.Not(x))
            y = self.tobool(self.ev(b, s2))
            if self.changed(st, s2) or s2.facts[0] is not st.facts:
                s1 = st.copy(); s1.assume(z3.Not(x) if op == '&&' else x)
                s2.ret, s1.ret, r0 = y, (FALSE if op == '&&' else TRUE), st.ret
                m = self.merge2(s2, s1); r = m.ret
                st.store, st.facts, st.ret = m.store, m.facts, r0
                return r
            return z3.And(x, y) if op == '&&' else z3.Or(x, y)
        if op == ',':
            self.ev(a, st); return self.ev(b, st)
        x = self.ev(a, st); y = self.ev(b, st)
        return self.binop(op, x, y, ty(e), st, ty(a), ty(b))
    def l_BinaryOperator(self, e, st):
        if e['opcode'] == '=': self.ev(e, st); return self.evl(e['inner'][0], st)
        if e['opcode'] == ',': self.ev(e['inner'][0], st); return self.evl(e['inner'][1], st)
        return self.ev(e, st)
    def changed(self, a, b):
        if len(a.store) != len(b.store): return True
        for k, v in b.store.items():
            if a.store.get(k) is not v: return True
        return False
    def binop(self, op, x, y, t, st, ta='', tb=''):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ('==', '!=', '<', '>', '<=', '>='): return self.fresh('opaque', Bool)
            return Opaque()
        if isinstance(x, Ptr) or isinstance(y, Ptr): return self.ptrop(op, x, y, st)
        if op in ('+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!='):
            if Real in (x.sort(), y.sort()): x, y = self.conv(x, 'double'), self.conv(y, 'double')
            elif op in ('==', '!=') and x.sort() == Bool and y.sort() == Bool: pass
            else: x, y = self.conv(x, 'int'), self.conv(y, 'int')
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == '/':
            if x.sort() == Real: return x / y
            return P.tdiv(x, y)
        if op == '%': return P.tmod(x, y)
        if op == '<': return x < y
        if op == '>': return x > y
        if op == '<=': return x <= y
        if op == '>=': return x >= y
        if op == '==': return x == y
        if op == '!=': return x != y
        if op in ('&', '|', '^') and x.sort() == Bool and y.sort() == Bool:
            return self.conv({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y), t)
        if op in ('&', '|', '^', '<<', '>>'): return P.bitop(op, self.conv(x, 'int'), self.conv(y, 'int'))
        raise Unsupported('operator ' + op)
    def ptrop(self, op, x, y, st):
        if op == '+':
            if isinstance(x, Ptr): return self.padd(x, self.conv(y, 'int'))
            return self.padd(y, self.conv(x, 'int'))
        if op == '-':
            if not isinstance(y, Ptr): return self.padd(x, -self.conv(y, 'int'))
            xa = [a for a in x.alts if a[1] is not None]; ya = [a for a in y.alts if a[1] is not None]
            if len(xa) == 1 and len(ya) == 1 and xa[0][1] is ya[0][1]: return xa[0][2][-1] - ya[0][2][-1]
            return self.fresh('ptrdiff', Int)
        if not isinstance(x, Ptr): x = NULL
        if not isinstance(y, Ptr): y = NULL
        if op in ('==', '!='):
            conds = []
            for g1, r1, i1, p1 in x.alts:
                for g2, r2, i2, p2 in y.alts:
                    if r1 is not r2: continue
                    if r1 is None: conds.append(z3.And(g1, g2)); continue
                    if p1 != p2: continue
                    conds.append(z3.And(g1, g2, *[a == b for a, b in zip(i1, i2)]) if r1.arr else z3.And(g1, g2))
            r = z3.simplify(z3.Or(conds)) if conds else FALSE
            return r if op == '==' else z3.simplify(z3.Not(r))
        if op in ('<', '>', '<=', '>='):
            xa = [a for a in x.alts if a[1] is not None]; ya = [a for a in y.alts if a[1] is not None]
            if len(xa) == 1 and len(ya) == 1 and xa[0][1] is ya[0][1]: return self.binop(op, xa[0][2][-1], ya[0][2][-1], 'int', st)
        raise Unsupported('pointer operator ' + op)
    def e_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]; a, b = e['inner']
        y = self.ev(b, st); lv = self.evl(a, st); t = ty(a)
        x = self.read(st, lv, t)
        ct = (e.get('computeResultType') or {}).get('qualType', t)
        v = self.binop(op, x, y, ct, st)
        if not isinstance(v, (Ptr, Opaque)): v = self.conv(v, t)
        self.write(st, lv, t, v)
        return v
    def l_CompoundAssignOperator(self, e, st):
        self.e_CompoundAssignOperator(e, st); return self.evl(e['inner'][0], st)
    def e_ConditionalOperator(self, e, st):
        c, a, b = e['inner']
        x = z3.simplify(self.cond(c, st))
        if z3.is_true(x): return self.ev(a, st)
        if z3.is_false(x): return self.ev(b, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(x); s2.assume(z3.Not(x))
        va, vb = self.ev(a, s1), self.ev(b, s2)
        t = ty(e)
        if t == 'void': va = vb = TRUE
        if isinstance(va, Ptr) != isinstance(vb, Ptr):
            if isptr(t): va = va if isinstance(va, Ptr) else NULL; vb = vb if isinstance(vb, Ptr) else NULL
        if not isinstance(va, (Ptr, Opaque)): va = self.conv(va, t)
        if not isinstance(vb, (Ptr, Opaque)): vb = self.conv(vb, t)
        if self.changed(st, s1) or self.changed(st, s2) or s1.facts[0] is not st.facts or s2.facts[0] is not st.facts:
            r0 = st.ret; s1.ret, s2.ret = va, vb
            m = self.merge2(s1, s2); r = m.ret
            st.store, st.facts, st.ret = m.store, m.facts, r0
            return r
        return self.ite(x, va, vb)
    def l_ConditionalOperator(self, e, st):
        c, a, b = e['inner']
        x = z3.simplify(self.cond(c, st))
        return self.ite(x, self.evl(a, st), self.evl(b, st))
    def e_cast(self, e, st):
        ck = e.get('castKind'); a = e['inner'][0]; t = ty(e)
        if ck == 'LValueToRValue':
            if self.is_record(t): return self.evl(a, st)
            # enumerators, ternaries etc.
            lv = self.evl(a, st)
            if isinstance(lv, Opaque): return lv
            if z3.is_expr(lv): return lv     # std::min, std::max: the value itself
            return self.read(st, lv, t)
        if ck == 'BitCast' and isptr(t):
            al = self.callee(a, ('calloc', 'malloc'))
            if al: return self.alloc(st, a, al, pointee(t))
        if ck in ('NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic'):
            if e.get('valueCategory') == 'lvalue' or self.is_record(t): return self.evl(a, st)
            if ck == 'BitCast' and isptr(t) and isptr(ty(a)) and self.is_record(pointee(ty(a))) and sort_of(pointee(t)) is not None:
                # an array of structs with one scalar field seen as an array of that field
                rec = self.record(pointee(ty(a))); fs = self.allfields(rec) if rec else []
                v = self.ev(a, st)
                if len(fs) == 1 and isinstance(v, Ptr) and strip(fs[0][1]) == strip(pointee(t)): return self.fld(v, fs[0][0])
                raise Unsupported('struct pointer seen as scalar pointer')
            return self.ev(a, st)
        if ck == 'NullToPointer': return NULL
        if ck == 'ArrayToPointerDecay':
            if a.get('kind') == 'StringLiteral': return Opaque('string')
            lv = self.evl(a, st)
            if isinstance(lv, Opaque): return lv
            at = ty(a)
            out = []
            for g, r, idx, p in lv.alts:
                if r.arr and p == '' :
                    if r.dims == 2 and arrinfo(at) and len(arrinfo(at)[1]) == 1: out.append((g, r, (idx[-1], I(0)), p))
                    else: out.append((g, r, idx, p))
                else:
                    out.append((g, self.subregion(r, p, at), (I(0),), ''))
            return Ptr(out)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return Opaque('function')
        if ck == 'ToVoid': self.ev(a, st); return I(0)
        if ck in ('ConstructorConversion', 'UserDefinedConversion'): return self.ev(a, st)
        v = self.ev(a, st)
        if isinstance(v, (Ptr,)):
            if ck in ('PointerToBoolean',): return self.tobool(v)
            if ck == 'PointerToIntegral': return self.fresh('ptr2int', Int)
            return v
        if isinstance(v, Opaque): return v
        if ck == 'FloatingToIntegral':
            h = self.hooks.get('f2i')
            if h: h(self, st, v, t)
            return P.trunc(v)
        if ck in ('IntegralToFloating', 'IntegralCast', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return self.conv(v, t)
        if ck == 'IntegralToPointer': return NULL
        raise Unsupported('cast ' + str(ck))
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXFunctionalCastExpr = e_CXXDynamicCastExpr = e_cast
    def l_cast(self, e, st):
        ck = e.get('castKind')
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'ConstructorConversion', 'Dynamic'):
            return self.evl(e['inner'][0], st)
        v = self.ev(e, st)
        if isinstance(v, (Ptr, Opaque)) and self.is_record(ty(e)): return v
        if isinstance(v, Ptr) and not isptr(ty(e)): return v
        t = strip(unref(ty(e)))
        r = self.region(('tmp', self.frame.tag, e.get('id')), 'tmp', False, t, fresh=True)
        self.store(st, r, '', t, v)
        return ptr(r)
    l_ImplicitCastExpr = l_CStyleCastExpr = l_CXXStaticCastExpr = l_CXXConstCastExpr = l_CXXReinterpretCastExpr = l_CXXFunctionalCastExpr = l_CXXDynamicCastExpr = l_cast
    # ------------------------------------------------------------------ new / delete / construct
    def e_CXXNewExpr(self, e, st):
        t = pointee(ty(e)); site = ('new', self.frame.tag, e.get('id'))
        inner = e.get('inner', [])
        if e.get('isArray'):
            n = self.conv(self.ev(inner[0], st), 'int')
            dims = 1
            if isptr(t): dims = 2; t2 = pointee(t)
            else: t2 = t
            nm = 'new@' + str(e.get('id'))[-4:]
            r = Region(site, nm, True, t2, n, dims, fresh=True)
            self.regions[site] = r
            st.store.pop((site, '#freed'), None)
            if self.is_record(t2):
                # forget all previous fields
                for k in [k for k in st.store if k[0] == site]: del st.store[k]
                self.havoc_record_array(st, r, t2, nm)
            else:
                c = z3.Const('%s!%d' % (nm, next(self.cnt)), self.asort(t2, dims))
                self.store(st, r, '', t2, c)
            if e.get('hasInitializer') or e.get('initStyle') == 'call':
                if not self.is_record(t2) and dims == 1:
                    z = {Int: I(0), Real: R(0), Bool: FALSE}[sort_of(t2)]
                    self.store(st, r, '', t2, z3.K(Int, z))
            return ptr(r)
        r = self.region(site, 'new@' + str(e.get('id'))[-4:], False, t, fresh=True)
        if self.is_record(t):
            if inner: self.construct(inner[0], st, ptr(r), t)
            return ptr(r)
        v = self.conv(self.ev(inner[0], st), t) if inner else self.fresh('new', self.vsort(t))
        self.store(st, r, '', t, v)
        return ptr(r)
    def callee(self, e, names):
        while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'): e = e['inner'][0]
        if e.get('kind') != 'CallExpr': return None
        f = e['inner'][0]
        while f.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): f = f['inner'][0]
        n = (f.get('referencedDecl') or {}).get('name')
        return (n, e) if n in names else None
    def alloc(self, st, node, al, t):
        """malloc/calloc of an array or a record, given the type the result is cast to; never fails"""
        n, e = al; site = ('new', self.frame.tag, e.get('id')); nm = 'new@' + str(e.get('id'))[-4:]; args = e['inner'][1:]
        if isptr(t): raise Unsupported('allocation of an array of pointers')
        cnt = self.conv(self.ev(args[0], st), 'int') if n == 'calloc' else None
        for k in [k for k in st.store if k[0] == site]: del st.store[k]
        if self.is_record(t):
            if n != 'calloc' or not (z3.is_int_value(z3.simplify(cnt)) and z3.simplify(cnt).as_long() == 1): raise Unsupported('allocation of records')
            r = self.region(site, nm, False, t, fresh=True); o = ptr(r)
            for f, ft, bf in self.record(t)['fields']:
                if isptr(ft): self.write(st, self.fld(o, f), ft, NULL)
                elif sort_of(ft) is not None: self.write(st, self.fld(o, f), ft, {Int: I(0), Real: R(0), Bool: FALSE}[sort_of(ft)])
            return o
        r = Region(site, nm, True, t, cnt if cnt is not None else self.fresh('size', Int), 1, fresh=True); self.regions[site] = r
        self.store(st, r, '', t, z3.K(Int, {Int: I(0), Real: R(0), Bool: FALSE}[sort_of(t)]) if n == 'calloc' else z3.Const('%s!%d' % (nm, next(self.cnt)), self.asort(t, 1)))
        return ptr(r)
    def havoc_record_array(self, st, r, t, nm):
        rec = self.record(t)
        if rec is None: return
        for f, ft, bf in rec['fields']:
            if sort_of(ft) is not None:
                self.store(st, r, f, ft, z3.Const('%s.%s!%d' % (nm, f, next(self.cnt)), z3.ArraySort(Int, sort_of(ft))))
            elif self.is_record(ft) and self.record(ft):
                for g, gt, _ in self.record(ft)['fields']:
                    if sort_of(gt) is not None: self.store(st, r, f + '.' + g, gt, z3.Const('%s.%s.%s!%d' % (nm, f, g, next(self.cnt)), z3.ArraySort(Int, sort_of(gt))))
    def e_CXXDeleteExpr(self, e, st):
        return self.release(st, self.ev(e['inner'][0], st))
    def release(self, st, v):
        if isinstance(v, Ptr):
            for g, r, idx, p in v.alts:
                if r is None: continue
                k = self.keyfor(r, '#freed', 'bool'); old = st.store.get(k, FALSE)
                st.store[k] = z3.simplify(z3.Or(old, g))
                if self.written is not None: self.written.add(k)
        return I(0)
    def leaves(self, t, pre=''):
        """scalar components of a record type: (path, type)"""
        rec = self.record(t)
        if rec is None: raise Unsupported('record ' + t)
        out = []
        for n, ft in self.allfields(rec):
            if self.is_record(ft): out += self.leaves(ft, pre + n + '.')
            elif isptr(ft) or arrinfo(ft): raise Unsupported('pointer or array inside a copied record')
            else: out.append((pre + n, ft))
        return out
    def construct(self, init, st, obj, t):
        """initialise object obj (Ptr) of record type t from the initialiser expression"""
        k = init.get('kind')
        if k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr', 'CXXFunctionalCastExpr') or (k == 'ImplicitCastExpr' and init.get('castKind') in ('NoOp', 'ConstructorConversion', 'DerivedToBase', 'UncheckedDerivedToBase')):
            return self.construct(init['inner'][0], st, obj, t)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            args = init.get('inner', []) or []
            if len(args) == 1 and strip(unref(ty(args[0]))).split('::')[-1] == strip(t).split('::')[-1] and init.get('elidable'):
                return self.construct(args[0], st, obj, t)
            return self.call_ctor(init, st, obj, t, args)
        if k == 'InitListExpr':
            rec = self.record(t)
            for (f, ft, bf), e in zip(rec['fields'], init.get('inner', [])):
                self.write(st, self.fld(obj, f), ft, self.ev(e, st))
            return
        if k == 'CXXDefaultArgExpr' : return self.models.default_construct(self, st, obj, t)
        # some expression yielding a record: copy
        src = self.evl(init, st)
        self.copy_record(st, obj, src, t)
    def fld(self, obj, f): return Ptr([(g, r, i, (p + '.' + f) if p else f) for g, r, i, p in obj.alts])
    def e_CXXConstructExpr(self, e, st):
        t = strip(ty(e))
        r = self.region(('tmp', self.frame.tag, e.get('id')), 'tmp', False, t, fresh=True)
        args = e.get('inner', []) or []
        if not self.is_record(t): return Opaque('temporary ' + t)
        if len(args) == 1 and strip(unref(ty(args[0]))).split('::')[-1] == t.split('::')[-1] and e.get('elidable'): return self.evl(args[0], st)
        self.call_ctor(e, st, ptr(r), t, args)
        return ptr(r)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def l_CXXConstructExpr(self, e, st): return self.e_CXXConstructExpr(e, st)
    l_CXXTemporaryObjectExpr = l_CXXConstructExpr
    def call_ctor(self, e, st, obj, t, args):
        t = strip(t); base = t.split('::')[-1]
        if self.models.is_model(t): return self.models.construct(self, st, obj, t, args, e)
        fs = []
        qt = (e.get('ctorType') or {}).get('qualType')
        for tu in self.tus:
            fs += [f for f in tu.find(base, cls=base, kinds=('CXXConstructorDecl',)) if qt is None or f['type']['qualType'] == qt]
        if not fs:
            rec = self.record(base)
            for tu in self.tus:
                fs += [f for f in tu.find(base, cls=base, kinds=('CXXConstructorDecl',)) if qt is None or f['type']['qualType'] == qt]
        if fs:
            f = fs[0]
            vals = self.args_for(f, args, st)
            self.inline(f, st, obj, vals, ctor=t)
            return
        # implicit constructors
        if len(args) == 1 and strip(unref(ty(args[0]))).split('::')[-1] == base:
            self.copy_record(st, obj, self.evl(args[0], st), t); return
        if not args: return self.models.default_construct(self, st, obj, t)
        raise Unsupported('constructor of ' + t)
    def copy_record(self, st, dst, src, t):
        t = strip(unref(t))
        if self.models.is_model(t): return self.models.copy(self, st, dst, src, t)
        rec = self.record(t)
        if rec is None: raise Unsupported('copy of record ' + t)
        for f, ft in self.allfields(rec):
            if self.is_record(ft): self.copy_record(st, self.fld(dst, f), self.fld(src, f), ft)
            elif arrinfo(ft): 
                a, b = self.subregion(self.only(dst)[1], (self.only(dst)[3] + '.' if self.only(dst)[3] else '') + f, ft), self.subregion(self.only(src)[1], (self.only(src)[3] + '.' if self.only(src)[3] else '') + f, ft)
                self.store(st, a, '', a.ety, self.load(st, b, '', b.ety))
            else: self.write(st, self.fld(dst, f), ft, self.read(st, self.fld(src, f), ft))
    def only(self, p):
        al = [a for a in p.alts if a[1] is not None]
        if len(al) != 1: raise Unsupported('ambiguous object')
        return al[0]
    def allfields(self, rec):
        out = []
        for b in rec['bases']:
            br = self.record(b)
            if br: out += self.allfields(br)
        return out + [(f, ft) for f, ft, bf in rec['fields']]
    # ------------------------------------------------------------------ calls
    def callee_name(self, c):
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        return c
    def e_CallExpr(self, e, st, lvalue=False):
        c = self.callee_name(e['inner'][0])
        if c.get('kind') != 'DeclRefExpr': raise Unsupported('call through pointer')
        d = c['referencedDecl']; name = d['name']; args = e['inner'][1:]
        if name in self.contracts: return self.contracts[name].call(self, st, None, [self.arg(a, st) for a in args], args)
        r = self.models.call(self, st, name, args, e)
        if r is not NotModelled: return r
        f = self.find_func(name, d)
        if f is not None: return self.inline(f, st, None, self.args_for(f, args, st))
        return self.unknown_call(e, st, name, [self.arg(a, st) for a in args], args)
    def l_CallExpr(self, e, st): return self.e_CallExpr(e, st)
    def find_func(self, name, d=None, cls=None, nargs=None):
        q = d['type']['qualType'] if d else None
        for tu in self.tus:
            fs = tu.find(name, cls=cls, qual=q, nparams=nargs)
            if fs: return fs[0]
        for tu in self.tus:
            tu.fetch((cls + '::' + name) if cls else name)
            fs = tu.find(name, cls=cls, qual=q, nparams=nargs)
            if fs: 
                f = fs[0]
                if self.in_repo(f): return f
        return None
    def in_repo(self, f): return True
    def arg(self, a, st):
        t = ty(a)
        if a.get('kind') == 'CXXDefaultArgExpr': return Default
        if a.get('valueCategory') == 'lvalue' or self.is_record(t): return self.evl(a, st)
        return self.ev(a, st)
    def args_for(self, f, args, st):
        """evaluate call arguments against the parameters of the definition"""
        ps = TU.params(f); vals = []
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            pt = ty(p)
            if a is None or a.get('kind') == 'CXXDefaultArgExpr':
                d = self.default_arg(f, i)
                if d is None: raise Unsupported('default argument')
                a = d
            if isref(pt): vals.append(self.evl(a, st))
            elif self.is_record(pt): vals.append(('rec', a))
            else:
                v = self.ev(a, st)
                if not isinstance(v, (Ptr, Opaque)): v = NULL if isptr(pt) else self.conv(v, pt)
                vals.append(v)
        return vals
    def default_arg(self, f, i):
        cands = [f]
        for tu in self.tus:
            if f.get('previousDecl') in tu.byid: cands.append(tu.byid[f['previousDecl']])
        for g in cands:
            p = TU.params(g)[i]
            if p.get('inner'): return p['inner'][-1]
        return None
    def inline(self, f, st, this, vals, ctor=None):
        name = f.get('name')
        if len([1 for x in self.path if x == name + '@' + str(f.get('id'))]) >= 1: raise Unsupported('recursive call of %s without contract' % name)
        if len(self.path) > self.opts['depth'] * 4: raise Unsupported('inlining depth')
        self.inlined.add(name)
        body = TU.body(f)
        old = self.frame
        tag = (old.tag if old else '') + '/' + name + '@' + str(sum(1 for x in self.path))
        fr = Frame(f, this, None, tag); fr.parent = old
        self.bind_params(fr, f, vals, st, old)
        fr.rtype = f['type']['qualType'].split('(')[0].strip() if not ctor else 'void'
        self.frame = fr; self.path.append(name + '@' + str(f.get('id')))
        try:
            if ctor: self.ctor_inits(f, st, this)
            outs = self.stmt(body, st.copy()) if True else []
        finally:
            self.frame = old; self.path.pop()
        rets = [s for k, s in outs if k in ('n', 'r')]
        if not rets: raise ThrowPath()
        r0 = st.ret
        for s in rets:
            if s.ret is r0 and False: pass
        m = self.merge(rets)
        res = m.ret
        st.store, st.facts, st.ret = m.store, m.facts, r0
        return res
    def bind_params(self, fr, f, vals, st, old):
        for p, v in zip(TU.params(f), vals):
            pt = ty(p)
            fr.names[p.get('name', '')] = p['id']
            if isref(pt): fr.env[p['id']] = (v, unref(pt)); continue
            rid = ('v', fr.tag, p['id'])
            if isinstance(v, tuple) and v[0] == 'rec':
                r = self.region(rid, p.get('name', 'arg'), False, strip(pt), fresh=True)
                fr.env[p['id']] = (ptr(r), strip(pt))
                self.construct(v[1], st, ptr(r), strip(pt)); continue
            r = self.region(rid, p.get('name', 'arg'), False, strip(pt), fresh=True)
            fr.env[p['id']] = (ptr(r), strip(pt))
            if isinstance(v, Ptr) and self.is_record(pt):
                fr.env[p['id']] = (v, strip(pt)); continue
            self.store(st, r, '', pt, v)
    def ctor_inits(self, f, st, obj):
        done = set()
        for c in f.get('inner', []) or []:
            if c.get('kind') != 'CXXCtorInitializer': continue
            e = c['inner'][0] if c.get('inner') else None
            if c.get('anyInit'):
                fl = c['anyInit']; t = fl['type'].get('desugaredQualType') or fl['type']['qualType']
                done.add(fl['name'])
                if e is None: continue
                if e.get('kind') == 'CXXDefaultInitExpr':
                    continue
                if isref(t): raise Unsupported('reference member')
                if self.is_record(t): self.construct(e, st, self.fld(obj, fl['name']), strip(t)); continue
                if arrinfo(strip(t)): continue
                v = self.ev(e, st)
                if not isinstance(v, (Ptr, Opaque)): v = NULL if isptr(t) else self.conv(v, t)
                self.write(st, self.fld(obj, fl['name']), t, v)
            elif c.get('baseInit') is not None:
                bt = c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType']
                if e is not None: self.construct(e, st, obj, strip(bt))
    def e_CXXMemberCallExpr(self, e, st):
        m = e['inner'][0]; args = e['inner'][1:]
        while m.get('kind') in ('ParenExpr',): m = m['inner'][0]
        if m.get('kind') != 'MemberExpr': raise Unsupported('member call through ' + m.get('kind', ''))
        name = m['name']; base = m['inner'][0]
        bt = ty(base); cls = strip(unref(pointee(bt) if isptr(bt) else bt)).split('::')[-1]
        obj = self.ev(base, st) if m.get('isArrow') else self.evl(base, st)
        for q in ((cls + '::' + name), name):
            if q in self.contracts: return self.contracts[q].call(self, st, obj, [self.arg(a, st) for a in args], args)
        # a base-class subobject cast hides the derived class: use the uncast type for models
        if isinstance(obj, Opaque):
            for a in args: self.arg(a, st)
            self.assumed_calls[cls + '::' + name] = 1
            t = ty(e)
            return self.anyvalue(t, name, st)
        r = self.models.method(self, st, cls, name, obj, args, e)
        if r is not NotModelled: return r
        f = self.find_method(cls, name, m, len(args))
        if f is not None: return self.inline(f, st, obj, self.args_for(f, args, st))
        return self.unknown_call(e, st, cls + '::' + name, [self.arg(a, st) for a in args], args)
    l_CXXMemberCallExpr = e_CXXMemberCallExpr
    def find_method(self, cls, name, m, nargs):
        mid = m.get('referencedMemberDecl')
        for tu in self.tus:
            for f in tu.funcs:
                if f.get('name') == name and TU.body(f) is not None and (f.get('id') == mid or f.get('previousDecl') == mid): return f
        def look():
            for tu in self.tus:
                fs = [f for f in tu.find(name, cls=cls) if len(TU.params(f)) >= nargs]
                if fs: return fs[0]
            return None
        f = look()
        if f is None:
            for tu in self.tus: tu.fetch(cls + '::' + name)
            f = look()
        if f is None:
            rec = self.record(cls)
            if rec:
                for b in rec['bases']:
                    g = self.find_method(strip(b).split('::')[-1], name, {}, nargs)
                    if g is not None: return g
        return f
    def e_CXXOperatorCallExpr(self, e, st):
        c = self.callee_name(e['inner'][0]); name = c['referencedDecl']['name']; args = e['inner'][1:]
        t0 = strip(unref(ty(args[0])))
        if self.models.is_model(t0):
            r = self.models.operator(self, st, t0, name, args, e)
            if r is not NotModelled: return r
        if name == 'operator=' and self.is_record(t0):
            cls = t0.split('::')[-1]
            if ('%s::operator=' % cls) in self.contracts: return self.contracts['%s::operator=' % cls].call(self, st, self.evl(args[0], st), [self.evl(args[1], st)], args)
            f = self.find_method(cls, 'operator=', {'referencedMemberDecl': c['referencedDecl']['id']}, 1)
            if f is not None and not f.get('explicitlyDefaulted'):
                return self.inline(f, st, self.evl(args[0], st), self.args_for(f, args[1:], st))
            src = self.evl(args[1], st); dst = self.evl(args[0], st); self.copy_record(st, dst, src, t0); return dst
        if self.is_record(t0):
            cls = t0.split('::')[-1]
            f = self.find_method(cls, name, {'referencedMemberDecl': c['referencedDecl']['id']}, len(args) - 1)
            if f is not None: return self.inline(f, st, self.evl(args[0], st), self.args_for(f, args[1:], st))
        f = self.find_func(name, c['referencedDecl'])
        if f is not None: return self.inline(f, st, None, self.args_for(f, args, st))
        if name in ('operator<<',):
            return Opaque('stream')
        raise Unsupported('operator call %s on %s' % (name, t0))
    def l_CXXOperatorCallExpr(self, e, st): return self.e_CXXOperatorCallExpr(e, st)
    def anyvalue(self, t, name, st):
        t0 = strip(unref(t))
        if t0 in ('void', ''): return I(0)
        s = sort_of(t0)
        if s is not None:
            v = self.fresh(name, s)
            if isref(t):
                r = self.region(('unk', name, next(self.cnt)), name, False, t0, fresh=True); self.store(st, r, '', t0, v); return ptr(r)
            return v
        return Opaque(t)
    def unknown_call(self, e, st, name, vals, args):
        if name in self.models.noeffect: 
            return self.anyvalue(ty(e), name, st)
        raise Unsupported('call of %s: no contract, no model, no body' % name)

class ThrowPath(Exception): pass
class _Default: pass
Default = _Default()
class _NM: pass
NotModelled = _NM()
