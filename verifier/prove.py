"""Discharging proof obligations: z3 with ground instances of the sum lemmas, then other z3 settings, then cvc5."""
import z3, time, os
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI, AR, AB = z3.ArraySort(Int, Int), z3.ArraySort(Int, Real), z3.ArraySort(Int, Bool)
SCALE = float(os.environ.get('VSCALE', '1'))     # solver time limits are multiplied by this
stats = dict(queries=0, z3=0, alt=0, cvc5=0, failed=0, solver_s=0.0)

def trunc(v):
    if z3.is_rational_value(v):
        from math import trunc as tr
        return z3.IntVal(tr(v.as_fraction()))
    if v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
def floor(v):
    if v.sort() == Int: return z3.ToReal(v)
    if v.decl().kind() == z3.Z3_OP_TO_REAL: return v
    return z3.ToReal(z3.ToInt(v))
def ceil(v):
    if v.sort() == Int: return z3.ToReal(v)
    return -z3.ToReal(z3.ToInt(-v))
def absr(v): return z3.If(v >= 0, v, -v)
tdiv_f = z3.Function('tdiv', Int, Int, Int)
tmod_f = z3.Function('tmod', Int, Int, Int)
def tdiv(a, b):
    if z3.is_int_value(b) and b.as_long() != 0:
        return z3.If(a >= 0, a / b, -((-a) / b)) if b.as_long() > 0 else -z3.If(a >= 0, a / (-b), -((-a) / (-b)))
    return tdiv_f(a, b)
def tmod(a, b):
    if z3.is_int_value(b) and b.as_long() != 0:
        return a - b * tdiv(a, b)
    return tmod_f(a, b)
band = z3.Function('band', Int, Int, Int); bor = z3.Function('bor', Int, Int, Int); bxor = z3.Function('bxor', Int, Int, Int)
shl = z3.Function('shl', Int, Int, Int); shr = z3.Function('shr', Int, Int, Int); bnot_f = z3.Function('bnot', Int, Int)
def bnot(a):
    if z3.is_int_value(a): return z3.IntVal(~a.as_long())
    return -a - 1
def lowzeros(t):
    """a power of two (> 1) that divides t, by its form"""
    if z3.is_int_value(t):
        v = t.as_long()
        return (1 << 62) if v == 0 else v & -v if v & -v > 1 else 0
    if z3.is_mul(t):
        best = max([lowzeros(c) for c in t.children()] + [0]); return best
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = lowzeros(t.arg(1)), lowzeros(t.arg(2)); return min(a, b)
    return 0
def bitop(op, a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        x, y = a.as_long(), b.as_long()
        return z3.IntVal({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y >= 0 else 0, '>>': x >> y if y >= 0 else 0}[op])
    if op in '&|^' and z3.is_int_value(a): a, b = b, a
    if op == '&' and z3.is_int_value(b) and b.as_long() >= 0:
        m = b.as_long()
        if m & (m + 1) == 0: return a % (m + 1)                      # low bits
        if m & (m - 1) == 0: return ((a / m) % 2) * m                # one bit
    if op == '|' and z3.is_int_value(b) and b.as_long() > 0 and b.as_long() & (b.as_long() - 1) == 0:
        m = b.as_long(); return a + m * (1 - (a / m) % 2)
    if op == '|':
        for x, y in ((a, b), (b, a)):
            k = lowzeros(x)
            if k: return z3.If(z3.And(y >= 0, y < k), x + y, bor(a, b))      # disjoint bits
    if op == '<<' and z3.is_int_value(b): return a * (1 << b.as_long())
    if op == '>>' and z3.is_int_value(b): return a / (1 << b.as_long())
    return {'&': band, '|': bor, '^': bxor, '<<': shl, '>>': shr}[op](a, b)
pow10 = z3.Function('pow10', Int, Real)
dvd = z3.Function('dvd', Int, Int, Bool)     # dvd(g,a): g divides a
quo = z3.Function('quo', Int, Int, Int)      # witness: dvd(g,a) => a == g*quo(g,a)

class SumKind:
    kinds = {}
    def __init__(self, name, sorts, coef, xv, pointwise):
        self.name, self.sorts, self.coef, self.xv, self.pw = name, sorts, coef, xv, pointwise
        self.term = lambda a, k: coef(a, k) * xv(a, k)
        self.f = z3.Function(name, *(list(sorts) + [Int, Int, Real]))
        SumKind.kinds[name] = self
    def __call__(self, *a):
        a = [z3.IntVal(v) if isinstance(v, int) else v for v in a]
        return self.f(*a)
S_ = z3.Select
PS = SumKind('ps', [AR, AI, AR], lambda a, k: S_(a[0], k), lambda a, k: S_(a[2], S_(a[1], k)), (0, 1))
DS = SumKind('ds', [AR, AR], lambda a, k: S_(a[0], k), lambda a, k: S_(a[1], k), (0, 1))
SM = SumKind('sm', [AR], lambda a, k: S_(a[0], k), lambda a, k: z3.RealVal(1), (0,))
DIS = SumKind('dis', [AI, AR], lambda a, k: z3.ToReal(S_(a[0], k)), lambda a, k: S_(a[1], k), (0, 1))
PIS = SumKind('pis', [AI, AI, AR], lambda a, k: z3.ToReal(S_(a[0], k)), lambda a, k: S_(a[2], S_(a[1], k)), (0, 1))
# signed: coefficient negated where the flag of its column is set
SPS = SumKind('sps', [AR, AB, AI, AR], lambda a, k: z3.If(S_(a[1], S_(a[2], k)), -S_(a[0], k), S_(a[0], k)), lambda a, k: S_(a[3], S_(a[2], k)), (0, 2))
# sum of x over an index list
GS = SumKind('gs', [AI, AR], lambda a, k: z3.RealVal(1), lambda a, k: S_(a[1], S_(a[0], k)), (0,))
lemmas = set()       # optional lemma schemas: 'termwise', 'scale', 'int', 'mono', 'nonneg'
extra = []           # problem-specific instantiations: functions (formulas) -> axioms

def collect(fs, names):
    seen = set(); out = {n: {} for n in names}
    stack = list(fs)
    while stack:
        t = stack.pop()
        if not z3.is_expr(t): continue
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t): stack.append(t.body()); continue
        if z3.is_app(t):
            n = t.decl().name()
            if n in out: out[n][i] = t
            stack.extend(t.children())
    return out
def hasvar(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): return True
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False
_w = [0]
def fresh(n, s):
    _w[0] += 1
    return z3.Const('%s?%d' % (n, _w[0]), s)

def sum_axioms(fs, pairs=True, maxpairs=60):
    names = list(SumKind.kinds)
    got = collect(fs, names)
    if not any(got.values()): return []
    ax = []; done = set(); terms = []
    work = []
    for n in names:
        for t in got[n].values():
            if not hasvar(t): work.append((SumKind.kinds[n], t, True))
    while work:
        K, t, unf = work.pop()
        key = (t.get_id(), unf)
        if key in done: continue
        done.add(key)
        ch = t.children(); a, lo, hi = ch[:-2], ch[-2], ch[-1]
        if z3.is_int_value(lo) and z3.is_int_value(hi) and 0 < hi.as_long() - lo.as_long() <= 4:      # a fixed small range: written out
            ax.append(t == z3.Sum([z3.simplify(K.coef(a, z3.IntVal(i))) * z3.simplify(K.xv(a, z3.IntVal(i))) for i in range(lo.as_long(), hi.as_long())])); done.add((t.get_id(), 'e')); continue
        if (t.get_id(), 'e') not in done:
            done.add((t.get_id(), 'e'))
            terms.append((K, t, a, lo, hi))
            ax.append(z3.Implies(hi <= lo, t == 0))
            for p in K.pw:
                s = a[p]
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_STORE:
                    b = list(a); b[p] = s.arg(0); u = K.f(*(b + [lo, hi])); i = s.arg(1)
                    ax.append(t == u + z3.If(z3.And(lo <= i, i < hi), K.term(a, i) - K.term(b, i), 0))
                    if 'dist' in lemmas: ax.append(t == u + z3.If(z3.And(lo <= i, i < hi), z3.simplify(K.coef(a, i)) * K.xv(a, i) - K.term(b, i), 0))
                    work.append((K, u, False)); break
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
                    b = list(a); c = list(a); b[p] = s.arg(1); c[p] = s.arg(2)
                    u, v = K.f(*(b + [lo, hi])), K.f(*(c + [lo, hi]))
                    ax.append(z3.Implies(s.arg(0), t == u)); ax.append(z3.Implies(z3.Not(s.arg(0)), t == v))
                    work.append((K, u, unf)); work.append((K, v, unf)); break
        if unf:
            h1 = z3.simplify(hi - 1)
            u = K.f(*(list(a) + [lo, h1]))
            ax.append(z3.Implies(hi > lo, t == u + K.term(a, h1)))
            work.append((K, u, False))
    if pairs:
        base = [x for x in terms if not any(z3.is_app(x[2][p]) and x[2][p].decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE) for p in x[0].pw)]
        base = base[:40]
        cnt = 0
        for i in range(len(base)):
            for j in range(i + 1, len(base)):
                K1, t1, a1, l1, h1 = base[i]; K2, t2, a2, l2, h2 = base[j]
                if K1 is not K2 or (not (K1.pw and all(a1[q].eq(a2[q]) for q in range(len(a1)) if q not in K1.pw)) and len(lemmas)):
                    if 'termwise' in lemmas:
                        cnt += 1
                        if cnt > maxpairs: break
                        w = fresh('w', Int)
                        bad = z3.And(w >= 0, w < h1 - l1, z3.Or(K1.coef(a1, l1 + w) != K2.coef(a2, l2 + w), K1.xv(a1, l1 + w) != K2.xv(a2, l2 + w)))
                        ax.append(z3.Implies(z3.And(h1 - l1 == h2 - l2, z3.Not(bad)), t1 == t2))
                    continue
                if all(x.eq(y) for x, y in zip(a1, a2)):
                    if not l1.eq(l2) or h1.eq(h2): continue
                    # same arrays, different upper ends: equal when the ends agree
                    ax.append(z3.Implies(z3.And(l1 == l2, h1 == h2), t1 == t2)); continue
                # only arrays of equal non-pointwise arguments
                if any((q not in K1.pw) and not a1[q].eq(a2[q]) for q in range(len(a1))): continue
                cnt += 1
                if cnt > maxpairs: break
                w = fresh('w', Int)
                bad = z3.And(w >= 0, w < h1 - l1, z3.Or([z3.Select(a1[q], l1 + w) != z3.Select(a2[q], l2 + w) for q in K1.pw if not (a1[q].eq(a2[q]) and l1.eq(l2))] or [z3.BoolVal(False)]))
                ax.append(z3.Implies(z3.And(h1 - l1 == h2 - l2, z3.Not(bad)), t1 == t2))
    if 'termwise' in lemmas:
        st = [x for x in terms if any(z3.is_app(c) and c.decl().kind() == z3.Z3_OP_STORE for c in x[2])][:8]; cnt = 0
        for x in st:
            for y in terms:
                if x is y or cnt > 40 or (y[0] is x[0] and all(x[2][q].eq(y[2][q]) for q in range(len(x[2])) if q not in x[0].pw)): continue
                K1, t1, a1, l1, h1 = x; K2, t2, a2, l2, h2 = y; w = fresh('w', Int); cnt += 1
                bad = z3.And(w >= 0, w < h1 - l1, z3.Or(K1.coef(a1, l1 + w) != K2.coef(a2, l2 + w), K1.xv(a1, l1 + w) != K2.xv(a2, l2 + w)))
                ax.append(z3.Implies(z3.And(h1 - l1 == h2 - l2, z3.Not(bad)), t1 == t2))
    if 'neg' in lemmas:        # pointwise negated coefficients
        base = [x for x in terms if not any(z3.is_app(x[2][p]) and x[2][p].decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE) for p in x[0].pw)][:12]; cnt = 0
        for i in range(len(base)):
            for j in range(i + 1, len(base)):
                K1, t1, a1, l1, h1 = base[i]; K2, t2, a2, l2, h2 = base[j]
                if K1 is not K2 or a1[0].eq(a2[0]) or cnt > 30: continue
                w = fresh('w', Int); cnt += 1; bad = z3.And(w >= 0, w < h1 - l1, z3.Or(K1.coef(a1, l1 + w) != -K2.coef(a2, l2 + w), K1.xv(a1, l1 + w) != K2.xv(a2, l2 + w)))
                ax.append(z3.Implies(z3.And(h1 - l1 == h2 - l2, z3.Not(bad)), t1 == -t2))
    if 'half' in lemmas:       # pointwise doubled coefficients
        base = [x for x in terms if not any(z3.is_app(x[2][p]) and x[2][p].decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE) for p in x[0].pw)][:12]; cnt = 0
        for x in base:
            for y in base:
                K1, t1, a1, l1, h1 = x; K2, t2, a2, l2, h2 = y
                if x is y or K1 is not K2 or a1[0].eq(a2[0]) or cnt > 30: continue
                w = fresh('w', Int); cnt += 1; bad = z3.And(w >= 0, w < h1 - l1, z3.Or(K1.coef(a1, l1 + w) != 2 * K2.coef(a2, l2 + w), K1.xv(a1, l1 + w) != K2.xv(a2, l2 + w)))
                ax.append(z3.Implies(z3.And(h1 - l1 == h2 - l2, z3.Not(bad)), t1 == 2 * t2))
    if 'int' in lemmas:
        for K, t, a, lo, hi in terms:
            w = fresh('w', Int); bad = z3.And(w >= lo, w < hi, z3.Not(z3.And(z3.IsInt(K.coef(a, w)), z3.IsInt(K.xv(a, w)))))
            ax.append(z3.Implies(z3.Not(bad), z3.IsInt(t)))
    if 'zero' in lemmas:       # all coefficients of the range are zero
        for K, t, a, lo, hi in terms:
            w = fresh('w', Int); ax.append(z3.Implies(z3.Not(z3.And(w >= lo, w < hi, K.coef(a, w) != 0)), t == 0))
    if 'nonneg' in lemmas:
        for K, t, a, lo, hi in terms:
            w = fresh('w', Int); bad = z3.And(w >= lo, w < hi, K.term(a, w) < 0)
            ax.append(z3.Implies(z3.Not(bad), t >= 0))
    if 'scalediv' in lemmas:      # sums that differ by a quotient occurring in the problem
        dvs = {}; seen = set(); sk = list(fs)
        while sk:
            t = sk.pop()
            if not z3.is_expr(t) or t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): sk.append(t.body()); continue
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)) and not hasvar(t): dvs[t.get_id()] = t
            sk.extend(t.children())
        base = [x for x in terms if not any(z3.is_app(x[2][p]) and x[2][p].decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE) for p in x[0].pw)][:12]; cnt = 0
        for x in base:
            for y in base:
                if x is y: continue
                for c in list(dvs.values())[:3]:
                    cnt += 1
                    if cnt > 60: break
                    K1, t1, a1, l1, h1 = x; K2, t2, a2, l2, h2 = y; w = fresh('w', Int)
                    bad = z3.And(w >= 0, w < h1 - l1, z3.Or(K1.coef(a1, l1 + w) != K2.coef(a2, l2 + w) * c, K1.xv(a1, l1 + w) != K2.xv(a2, l2 + w)))
                    ax.append(z3.Implies(z3.And(h1 - l1 == h2 - l2, z3.Not(bad)), t1 == t2 * c))
    if 'scale' in lemmas:
        got = collect(fs, ['pow10', 'quo', 'tdiv', 'dvd'])
        ps = [t for t in got['pow10'].values() if not hasvar(t)]; gs = {}
        for n, i in (('quo', 0), ('dvd', 0), ('tdiv', 1)):
            for t in got[n].values():
                if not hasvar(t.arg(i)): gs[t.arg(i).get_id()] = t.arg(i)
        base = [x for x in terms if not any(z3.is_app(x[2][p]) and x[2][p].decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE) for p in x[0].pw)][:12]
        cnt = 0
        for x in base:
            for y in base:
                if x is y: continue
                for c2 in ps:
                    for g in gs.values():
                        cnt += 1
                        if cnt > 40: break
                        K1, t1, a1, l1, h1 = x; K2, t2, a2, l2, h2 = y; c1 = z3.ToReal(g)
                        w = fresh('w', Int)
                        bad = z3.And(w >= 0, w < h1 - l1, z3.Or(c1 * K1.coef(a1, l1 + w) != c2 * K2.coef(a2, l2 + w), K1.xv(a1, l1 + w) != K2.xv(a2, l2 + w)))
                        ax.append(z3.Implies(z3.And(h1 - l1 == h2 - l2, z3.Not(bad)), c1 * t1 == c2 * t2))
    return ax

def misc_axioms(fs):
    got = collect(fs, ['tdiv', 'tmod', 'pow10', 'dvd', 'quo', 'band', 'shl', 'shr'])
    ax = []
    for t in got['tdiv'].values():
        if hasvar(t): continue
        a, b = t.children()
        ax += [z3.Implies(dvd(b, a), t == quo(b, a)), z3.Implies(z3.And(b != 0, a >= 0, b > 0), z3.And(t >= 0, t * b <= a, a < t * b + b))]
        ax.append(z3.Implies(dvd(b, a), z3.And(a == b * quo(b, a), z3.ToReal(a) == z3.ToReal(b) * z3.ToReal(t))))
    for t in got['tmod'].values():
        if hasvar(t): continue
        a, b = t.children()
        ax += [z3.Implies(z3.And(a >= 0, b > 0), z3.And(t >= 0, t < b)), z3.Implies(b != 0, a == b * tdiv_f(a, b) + t), z3.Implies(z3.And(b != 0, t == 0), dvd(b, a))]
    for t in got['dvd'].values():
        if hasvar(t): continue
        g, a = t.children()
        ax.append(z3.Implies(t, a == g * quo(g, a)))
        ax.append(z3.Implies(a == 0, t)); ax.append(z3.Implies(a == g, t))
        for s in got['dvd'].values():
            if not hasvar(s) and s.arg(0).eq(g) and not s.eq(t): ax.append(z3.Implies(z3.And(s, dvd(s.arg(1), a)), t))
        for s in got['tmod'].values():
            if hasvar(s): continue
            x, y = s.children()
            # g | y and g | x mod y  =>  g | x ;  and the converse
            ax.append(z3.Implies(z3.And(y != 0, dvd(g, y), dvd(g, s)), dvd(g, x)))
    for t in got['pow10'].values():
        if hasvar(t): continue
        k = t.arg(0)
        ax.append(t > 0)
        ax.append(z3.Implies(k >= 0, z3.And(t >= 1, z3.IsInt(t))))
        for i in range(0, 16 if 'absnl' not in lemmas or 'p10' in lemmas else 0): ax.append(z3.Implies(k == i, t == z3.RealVal(10 ** i)))
        ax.append(z3.Implies(k >= 16, t >= z3.RealVal(10 ** 16)))
    for t in got['band'].values():
        if hasvar(t): continue
        a, b = t.children()
        ax.append(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(t >= 0, t <= a, t <= b)))
        ax.append(z3.Implies(z3.Or(a == 0, b == 0), t == 0))
    return ax

def factors(t):
    """non-numeral factors of a product term"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_MUL:
        out = []
        for c in t.children(): out += factors(c)
        return out
    if k == z3.Z3_OP_UMINUS: return factors(t.arg(0))
    if z3.is_rational_value(t) or z3.is_int_value(t): return []
    if k == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)): return []
    return [t]
def prod_axioms(fs, limit=80):
    """monotonicity of products with a common factor"""
    seen = set(); st = list(fs); pr = {}; dv = []
    while st:
        t = st.pop()
        if not z3.is_expr(t) or t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)) and not hasvar(t):
            f = [t, t.arg(1)]; f.sort(key=lambda x: x.get_id()); pr[(f[0].get_id(), f[1].get_id())] = f
            dv.append(z3.Implies(t.arg(1) != 0, t * t.arg(1) == t.arg(0)))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            f = factors(t)
            if len(f) == 2 and f[0].sort() == Real and f[1].sort() == Real and not hasvar(t):
                f.sort(key=lambda x: x.get_id()); pr[(f[0].get_id(), f[1].get_id())] = f
        st.extend(t.children())
    by = {}
    for f in pr.values():
        for a, b in ((f[0], f[1]), (f[1], f[0])): by.setdefault(a.get_id(), (a, []))[1].append(b)
    ax = dv
    for a, xs in by.values():
        for i in range(len(xs)):
            for j in range(i + 1, len(xs)):
                x, y = xs[i], xs[j]
                if len(ax) > limit + len(dv): return ax
                ax.append(z3.And(z3.Implies(z3.Or(z3.And(a >= 0, x <= y), z3.And(a <= 0, x >= y)), a * x <= a * y), z3.Implies(z3.Or(z3.And(a >= 0, x >= y), z3.And(a <= 0, x <= y)), a * x >= a * y),
                                 z3.Implies(z3.And(a > 0, x < y), a * x < a * y), z3.Implies(z3.And(a > 0, x > y), a * x > a * y)))
    return ax

mul_f = z3.Function('mul', Real, Real, Real); imul_f = z3.Function('imul', Int, Int, Int); dv_f = z3.Function('dv', Real, Real, Real)
_x, _y = z3.Real('x?m'), z3.Real('y?m'); _p, _q = z3.Int('p?m'), z3.Int('q?m')
MULAX = [z3.ForAll([_x, _y], mul_f(_x, _y) == mul_f(_y, _x), patterns=[mul_f(_x, _y)]), z3.ForAll([_p, _q], imul_f(_p, _q) == imul_f(_q, _p), patterns=[imul_f(_p, _q)])]
MULAX += [z3.ForAll([_x, _y], z3.And(z3.Implies(z3.And(_x > 0, _y > 0), mul_f(_x, _y) > 0), z3.Implies(z3.And(_x >= 0, _y >= 0), mul_f(_x, _y) >= 0)), patterns=[mul_f(_x, _y)])]
isint_f = z3.Function('isint', Real, Bool)
MULAX += [z3.ForAll([_x], z3.Implies(isint_f(_x), _x == z3.ToReal(z3.ToInt(_x))), patterns=[isint_f(_x)]), z3.ForAll([_p], isint_f(z3.ToReal(_p)), patterns=[isint_f(z3.ToReal(_p))]),
          z3.ForAll([_x], isint_f(_x) == isint_f(-_x), patterns=[isint_f(_x)]), z3.ForAll([_x, _y], mul_f(_x, -_y) == -mul_f(_x, _y), patterns=[mul_f(_x, _y)]), z3.ForAll([_x, _y], z3.Implies(z3.And(isint_f(_x), isint_f(_y)), isint_f(mul_f(_x, _y))), patterns=[z3.MultiPattern(mul_f(_x, _y), isint_f(_x), isint_f(_y))])]
_z = z3.Real('z?m')
MULAX += [z3.ForAll([_x, _y, _z], z3.And(z3.Implies(z3.And(_x > 0, _y < _z), mul_f(_x, _y) < mul_f(_x, _z)), z3.Implies(z3.And(_x >= 0, _y <= _z), mul_f(_x, _y) <= mul_f(_x, _z)), z3.Implies(z3.And(_x <= 0, _y <= _z), mul_f(_x, _y) >= mul_f(_x, _z))), patterns=[z3.MultiPattern(mul_f(_x, _y), mul_f(_x, _z))]),
          z3.ForAll([_x, _y], z3.Implies(_y != 0, mul_f(dv_f(_x, _y), _y) == _x), patterns=[dv_f(_x, _y)])]
MULAX += [z3.ForAll([_x, _p], z3.And(z3.Implies(z3.And(isint_f(_x), _x > z3.ToReal(_p)), _x >= z3.ToReal(_p) + 1), z3.Implies(z3.And(isint_f(_x), _x < z3.ToReal(_p)), _x <= z3.ToReal(_p) - 1)), patterns=[z3.MultiPattern(isint_f(_x), z3.ToReal(_p))])]
DVAX = [z3.ForAll([_x, _y], z3.Implies(_y > 0, z3.And(z3.Implies(_x > 0, dv_f(_x, _y) > 0), z3.Implies(_x >= 0, dv_f(_x, _y) >= 0), z3.Implies(_x <= 0, dv_f(_x, _y) <= 0))), patterns=[dv_f(_x, _y)])]
ASSOC = [z3.ForAll([_x, _y, _z], mul_f(mul_f(_x, _y), _z) == mul_f(_x, mul_f(_y, _z)), patterns=[mul_f(mul_f(_x, _y), _z)])]
UNIT = [z3.ForAll([_x, _y], z3.And(z3.Implies(_x == 0, mul_f(_x, _y) == 0), z3.Implies(_x == 1, mul_f(_x, _y) == _y)), patterns=[mul_f(_x, _y)])]
def nlax():
    return MULAX + (UNIT if 'unit' in lemmas else []) + (DVAX if 'dv' in lemmas else []) + (ASSOC if 'assoc' in lemmas else [])
_abs = {}
def absnl(t):
    """non-linear products and quotients as uninterpreted terms; (term, changed?)"""
    k = t.get_id()
    if k in _abs and _abs[k][0].eq(t) and _abs[k][2] == ('dist' in lemmas): return _abs[k][1]
    if z3.is_quantifier(t):
        vs = [fresh('a', t.var_sort(i)) for i in range(t.num_vars())]; rv = list(reversed(vs))
        b = absnl(z3.substitute_vars(t.body(), *rv)); ps = []
        for i in range(t.num_patterns()):
            p = z3.substitute_vars(t.pattern(i), *rv) if False else t.pattern(i)
            ps.append(z3.MultiPattern(*[absnl(z3.substitute_vars(c, *rv)) for c in p.children()]))
        r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, b, patterns=ps) if not t.is_lambda() else t
    elif z3.is_app(t) and t.num_args():
        ch = [absnl(c) for c in t.children()]; kd = t.decl().kind()
        if kd == z3.Z3_OP_MUL:
            num = 1; fs = []
            for c in ch:
                if z3.is_rational_value(c): num = num * c.as_fraction()
                elif z3.is_int_value(c): num = num * c.as_long()
                elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UMINUS: num = -num; fs.append(c.arg(0))
                else: fs.append(c)
            real = t.sort() == Real
            it = [i for i, c in enumerate(fs) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE] if len(fs) >= 2 else []
            if it:
                c = fs[it[0]]; rest = fs[:it[0]] + fs[it[0] + 1:]; nv = z3.RealVal(num) if real else z3.IntVal(int(num))
                r = z3.If(c.arg(0), absnl(z3.Product([nv, c.arg(1)] + rest)), absnl(z3.Product([nv, c.arg(2)] + rest)))
            elif 'dist' in lemmas and len(fs) >= 2 and any(z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) for c in fs):
                i = [i for i, c in enumerate(fs) if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB)][0]; c = fs[i]; rest = fs[:i] + fs[i + 1:]; nv = z3.RealVal(num) if real else z3.IntVal(int(num))
                tm = [absnl(z3.Product([nv, x] + rest)) for x in c.children()]
                if c.decl().kind() == z3.Z3_OP_SUB: tm = [tm[0]] + [-x for x in tm[1:]]
                r = z3.Sum(tm)
            elif len(fs) < 2: r = t.decl()(*ch) if len(ch) == 2 else z3.Product(ch)
            else:
                f = mul_f if real else imul_f; r = fs[0]
                for c in fs[1:]: r = f(r, c)
                if num != 1: r = (z3.RealVal(num) if real else z3.IntVal(int(num))) * r
        elif kd == z3.Z3_OP_TO_REAL and 'dist' in lemmas and z3.is_app(ch[0]) and ch[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            tm = [absnl(z3.ToReal(c)) for c in ch[0].children()]
            r = z3.Sum(tm) if ch[0].decl().kind() == z3.Z3_OP_ADD else tm[0] - z3.Sum(tm[1:])
        elif kd == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]): r = z3.RealVal(ch[0].as_long())
        elif kd == z3.Z3_OP_UMINUS and z3.is_rational_value(ch[0]): r = z3.RealVal(-ch[0].as_fraction())
        elif kd == z3.Z3_OP_IS_INT: r = isint_f(ch[0])
        elif kd == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]): r = dv_f(ch[0], ch[1])
        elif all(a.eq(b) for a, b in zip(ch, t.children())): r = t
        elif z3.is_and(t): r = z3.And(ch)
        elif z3.is_or(t): r = z3.Or(ch)
        elif kd in (z3.Z3_OP_ADD,): r = z3.Sum(ch)
        elif kd == z3.Z3_OP_DISTINCT: r = z3.Distinct(ch)
        else: r = t.decl()(*ch)
    else: r = t
    _abs[k] = (t, r, 'dist' in lemmas); return r
class Result:
    def __init__(self, ok, how, detail=''): self.ok, self.how, self.detail = ok, how, detail

def skolem(g):
    """the goal with its outermost universal quantifiers replaced by fresh constants: list of (extra hypotheses, goal)"""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [fresh(g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
        return skolem(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
        return z3.Implies(g.arg(0), skolem(g.arg(1)))
    if z3.is_and(g): return z3.And([skolem(c) for c in g.children()])
    return g
_sy = {}
def syms(t):
    k = t.get_id()
    if k in _sy and _sy[k][0].eq(t): return _sy[k][1]
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
    _sy[k] = (t, out); return out
COMMON = {'nC', 'nR', 'pow10', 'EPS', 'infinity', 'coltype'}
def cone(fs, goal, depth):
    cur = syms(goal) - COMMON; keep = set()
    for d in range(depth):
        new = set()
        for i, f in enumerate(fs):
            if i in keep: continue
            sy = syms(f) - COMMON
            if sy & cur or not sy: keep.add(i); new |= sy
        cur = cur | new
    return [f for i, f in enumerate(fs) if i in keep]
def conj(g):
    if z3.is_and(g): return [y for c in g.children() for y in conj(c)]
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
        r = conj(g.arg(1)); return [z3.Implies(g.arg(0), y) for y in r] if len(r) > 1 else [g]
    return [g]
def prove(facts, goal, ms=4000, thorough=False):
    stats['queries'] += 1
    if z3.is_true(z3.simplify(goal)): return Result(True, 'trivial')
    t0 = time.time()
    fs = list(facts)
    goal = skolem(goal)
    if 'absnl' in lemmas:
        gs = conj(goal)
        if len(gs) > 1:
            how = 'z3'
            for g in gs:
                r = prove(facts, g, ms, thorough)
                if not r.ok: return r
            return Result(True, how)
    neg = z3.Not(goal)
    ax = []
    def build(fs):
        lvl = fs + [neg]
        ax1 = misc_axioms(lvl)
        for f in extra: ax1 = ax1 + f(lvl)
        ax2 = sum_axioms(lvl + ax1)
        ax3 = misc_axioms(ax2) if ax2 else []
        if 'prod' in lemmas and 'absnl' not in lemmas: ax3 = ax3 + prod_axioms(lvl + ax1 + ax2)
        return fs + ax1 + ax2 + ax3
    if 'absnl' in lemmas:
        built = {}
        for depth, sd, mb, frac in ((1, 0, False, 2), (2, 0, False, 2), (9, 0, False, 1), (9, 11, False, 2)) + (((1, 7, True, 2), (2, 5, True, 2), (9, 23, False, 1), (9, 0, True, 1)) if thorough else ()):
            sub = fs if depth == 9 else cone(fs, goal, depth)
            if depth != 9 and len(sub) == len(fs): continue
            s = z3.SimpleSolver(); s.set('timeout', int(SCALE * max(1500, ms // frac))); s.set('random_seed', sd); s.set('auto_config', False); s.set('mbqi', mb)
            if depth not in built: built[depth] = nlax() + [absnl(f) for f in build(sub) + [neg]]
            s.add(built[depth]); t1 = time.time(); r = s.check()
            if os.environ.get('VSLOW') and time.time() - t0 > 0.5: print('SLOW %.2f (%.2f) depth %d %s %s' % (time.time() - t1, time.time() - t0, depth, r, str(goal).replace('\n', ' ')[:160]))
            if r == z3.unsat: stats['z3'] += 1; stats['solver_s'] += time.time() - t0; return Result(True, 'z3')
            if r == z3.sat and depth == 9: break
        if not thorough: stats['failed'] += 1; stats['solver_s'] += time.time() - t0; return Result(False, 'sat' if r == z3.sat else 'unknown')
    allf = build(fs)
    key = (tuple(f.get_id() for f in fs), goal.get_id())
    s = z3.Solver(); s.set('timeout', int(SCALE * ms))
    s.add(allf); s.add(neg)
    r = s.check()
    stats['solver_s'] += time.time() - t0
    if r == z3.unsat: stats['z3'] += 1; return Result(True, 'z3')
    if r == z3.sat and not thorough: stats['failed'] += 1; return Result(False, 'sat')
    detail = ''
    if r == z3.sat:
        try: detail = modeltext(s.model(), goal)
        except Exception as e: detail = 'model: ' + str(e)
    if thorough and r != z3.sat:
        for opt in (dict(arith_solver=2), dict(arith_solver=6, random_seed=7), dict(mbqi=False, random_seed=3)):
            t1 = time.time()
            s2 = z3.SolverFor('AUFNIRA') if False else z3.Solver()
            s2.set('timeout', int(SCALE * ms))
            if 'arith_solver' in opt: s2.set('smt.arith.solver', opt['arith_solver']) if False else s2.set('arith.solver', opt['arith_solver'])
            if 'random_seed' in opt: s2.set('random_seed', opt['random_seed'])
            if 'mbqi' in opt: s2.set('mbqi', opt['mbqi'])
            s2.add(allf); s2.add(neg)
            r2 = s2.check(); stats['solver_s'] += time.time() - t1
            if r2 == z3.unsat: stats['alt'] += 1; return Result(True, 'z3 ' + str(opt))
            if r2 == z3.sat:
                r = r2
                try: detail = modeltext(s2.model(), goal)
                except Exception: pass
                break
        if r != z3.sat:
            t1 = time.time()
            ok = cvc5_check(s, ms)
            stats['solver_s'] += time.time() - t1
            if ok: stats['cvc5'] += 1; return Result(True, 'cvc5')
    stats['failed'] += 1
    how = 'sat' if r == z3.sat else 'unknown'
    return Result(False, how, detail or str(s.reason_unknown() if r != z3.sat else ''))

def modeltext(m, goal):
    out = []
    names = set()
    def w(t):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: names.add(t)
        for c in t.children(): w(c)
    w(goal)
    for t in sorted(names, key=str)[:40]:
        try: out.append('%s = %s' % (t, str(m.eval(t, model_completion=False))[:120]))
        except Exception: pass
    return 'counterexample: ' + '; '.join(out)

def cvc5_check(solver, ms):
    try:
        import cvc5
        txt = solver.to_smt2()
        txt = txt.replace('(check-sat)', '')
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        s = cvc5.Solver(tm) if tm else cvc5.Solver()
        s.setOption('tlimit-per', str(ms)); s.setLogic('ALL')
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            c.invoke(s, sm)
        return s.checkSat().isUnsat()
    except Exception as e:
        return False

def dump(facts, goal, path):
    goal = skolem(goal); neg = z3.Not(goal); lvl = list(facts) + [neg]
    ax1 = misc_axioms(lvl)
    for f in extra: ax1 = ax1 + f(lvl)
    ax2 = sum_axioms(lvl + ax1)
    ax3 = misc_axioms(ax2) if ax2 else []
    if 'prod' in lemmas and 'absnl' not in lemmas: ax3 = ax3 + prod_axioms(lvl + ax1 + ax2)
    s = z3.Solver(); allf = lvl + ax1 + ax2 + ax3
    s.add(allf if 'absnl' not in lemmas else nlax() + [absnl(f) for f in allf])
    open(path, 'w').write(s.to_smt2())
    open(path + '.txt', 'w').write('\n'.join(str(f) for f in facts) + '\n=====\n' + str(goal) + '\n')

def debug(facts, goal):
    for i, g in enumerate(conj(skolem(goal))):
        neg = z3.Not(g)
        for depth in (1, 2, 9):
            fs = list(facts) if depth == 9 else cone(list(facts), g, depth)
            lvl = fs + [neg]; ax1 = misc_axioms(lvl)
            for f in extra: ax1 = ax1 + f(lvl)
            ax2 = sum_axioms(lvl + ax1); ax3 = misc_axioms(ax2) if ax2 else []
            if 'prod' in lemmas and 'absnl' not in lemmas: ax3 = ax3 + prod_axioms(lvl + ax1 + ax2)
            for mb in (False, True):
                s = z3.SimpleSolver(); s.set('timeout', 3000); s.set('auto_config', False); s.set('mbqi', mb); s.add(nlax() + [absnl(f) for f in lvl + ax1 + ax2 + ax3]); t = time.time(); r = s.check()
                print('DBG', i, depth, mb, r, round(time.time() - t, 2), len(fs), len(ax1), len(ax2), len(ax3), str(g).replace('\n', ' ')[:int(os.environ.get("VDBGN", 150))])
            if depth == 1: open('/tmp/w/d%d.smt2' % i, 'w').write(s.to_smt2())
