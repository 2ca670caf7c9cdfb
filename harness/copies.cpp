// C13: copy construction, clone, assignment and self-assignment of every class, compared through the public interface:
// getters, generateCpp text and the cuts generated on small instances.  Built with the address sanitizer.
#include "cases.hpp"
#include "families.hpp"
#include <functional>
#include "CglSimpleRounding.hpp"
#include "CglClique.hpp"
#include "CglOddHole.hpp"
#include "CglMixedIntegerRounding.hpp"
#include "CglRedSplit.hpp"
#include "CglZeroHalf.hpp"
#include "CglKnapsackCover.hpp"
#include "CglAllDifferent.hpp"
#include "CglDuplicateRow.hpp"
#include "CglLiftAndProject.hpp"
#include "CglStored.hpp"
#include "CglGMIParam.hpp"
#include "CglRedSplit2Param.hpp"
#include "CglLandPValidator.hpp"
extern "C" const char *__asan_default_options() { return "exitcode=77:detect_leaks=0:abort_on_error=0:alloc_dealloc_mismatch=0"; }
typedef std::ostringstream OS;
template <class T> static void put(OS &o, const char *n, T v) { o << n << "=" << v << ";"; }
struct AnyGenerator : CglCutGenerator { void generateCuts(const OsiSolverInterface &, OsiCuts &, const CglTreeInfo) override {} CglCutGenerator *clone() const override { return new AnyGenerator(*this); } };
static const double V[] = { 1e-6, 1e-4, 0.01, 0.05, 0.1, 0.25, 0.3, 0.5, 1, 1.5, 2, 3, 5, 11, 20, 100, 1000, 1e5 };
static double val(Rng &r) { return V[r.in(0, 17)]; }
#include "copies_tables.inc"
// what a generator shows in general
static void base(OS &o, CglCutGenerator &g) { put(o, "aggressive", g.getAggressiveness()); put(o, "global", g.canDoGlobalCuts()); put(o, "seconds", g.getMaxSeconds()); put(o, "original", g.originalSolver() ? g.originalSolver()->getNumCols() : -1); if (g.originalSolver()) put(o, "obj", g.originalSolver()->getObjCoefficients()[0]); put(o, "optimalBasis", g.needsOptimalBasis()); put(o, "inTree", g.mayGenerateRowCutsInTree()); put(o, "length", g.maximumLengthOfCutInTree());
  char *buf = nullptr; size_t len = 0; FILE *f = open_memstream(&buf, &len); std::string nm = g.generateCpp(f); fclose(f); o << nm << "{" << std::string(buf, len) << "}"; free(buf); }
static void setBase(CglCutGenerator &g, Rng &r) { if (r.chance(70)) g.setAggressiveness(r.in(0, 200)); if (r.chance(70)) g.setGlobalCuts(r.chance(50)); if (r.chance(70)) g.setMaxSeconds(100 + r.in(1, 50)); }
static void showCuts(OS &o, const OsiCuts &cs) { o.precision(17); for (int i = 0; i < cs.sizeRowCuts(); ++i) { o << cutText(*cs.rowCutPtr(i)) << "|"; } for (int i = 0; i < cs.sizeColCuts(); ++i) { const OsiColCut &c = cs.colCut(i); for (int k = 0; k < c.lbs().getNumElements(); ++k) o << "x" << c.lbs().getIndices()[k] << ">=" << c.lbs().getElements()[k] << "|"; for (int k = 0; k < c.ubs().getNumElements(); ++k) o << "x" << c.ubs().getIndices()[k] << "<=" << c.ubs().getElements()[k] << "|"; } }
static void cutsOn(OS &o, CglCutGenerator &g, const Mip &p, bool refresh = false, bool inTree = false) {
  OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); si.setHintParam(OsiDoReducePrint, true); p.load(si); si.initialSolve(); if (!si.isProvenOptimal()) { o << "(not optimal)"; return; }
  if (refresh) g.refreshSolver(&si); OsiCuts cs; CglTreeInfo info; info.formulation_rows = p.m; info.inTree = inTree; g.generateCuts(si, cs, info); o << "cuts:"; showCuts(o, cs); g_checked++;
}
template <class C> struct H { // make an object from a stream of random numbers, change it, show it
  static C *make(Rng &r); static void change(C &c, Rng &r); static void show(OS &o, C &c, Rng &r);
};
typedef LAP::Validator Val;
struct Mr { CglMixedIntegerRounding g; Mip p; };
struct Zh { CglZeroHalf g; Mip p; };
#define DECL(C) template <> C *H<C>::make(Rng &r); template <> void H<C>::change(C &c, Rng &r); template <> void H<C>::show(OS &o, C &c, Rng &);
DECL(CglParam) DECL(CglRedSplitParam) DECL(CglGMIParam) DECL(CglRedSplit2Param) DECL(Val) DECL(AnyGenerator) DECL(CglSimpleRounding) DECL(CglClique) DECL(CglOddHole) DECL(CglMixedIntegerRounding) DECL(CglRedSplit) DECL(CglZeroHalf) DECL(CglKnapsackCover) DECL(CglAllDifferent) DECL(CglDuplicateRow) DECL(CglLiftAndProject) DECL(CglTreeProbingInfo) DECL(CglTreeInfo) DECL(CglStored) DECL(Mr) DECL(Zh)
#define SIMPLEPARAM(C) template <> C *H<C>::make(Rng &r) { C *c = new C; change(*c, r); return c; } template <> void H<C>::change(C &c, Rng &r) { for (int k = 0; k < 6; ++k) rnd(c, r); } template <> void H<C>::show(OS &o, C &c, Rng &) { shw(o, c); g_checked++; }
SIMPLEPARAM(CglParam) SIMPLEPARAM(CglRedSplitParam) SIMPLEPARAM(CglGMIParam) SIMPLEPARAM(CglRedSplit2Param)
static OsiClpSolverInterface *valSolver(Mip &p) { static OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si); return &si; }
static int clean(Val &v, Rng &r, OsiRowCut &rc) { int n = 4; Mip p; for (int j = 0; j < n; ++j) p.addCol(0, 1, true, 1); p.addRow({ 0 }, { 1 }, 0, 1); OsiSolverInterface *si = valSolver(p); double x[4] = { 0.5, 0.25, 1, 0 }; std::vector<int> i; std::vector<double> e; for (int j = 0; j < n; ++j) if (r.chance(60)) { i.push_back(j); e.push_back(r.pick({ 1, -1, 1e-6, 300, 2 })); } if (i.empty()) { i.push_back(0); e.push_back(1); } double s = 0; for (size_t k = 0; k < i.size(); ++k) s += e[k] * x[i[k]]; rc.setRow((int)i.size(), i.data(), e.data()); rc.setLb(s + r.pick({ 0, 0.01, 0.3, 1 })); rc.setUb(COIN_DBL_MAX); CglParam par; return r.chance(50) ? v.cleanCut(rc, x, *si, par, nullptr, nullptr) : v.cleanCut2(rc, x, *si, par, nullptr, nullptr); }
template <> Val *H<Val>::make(Rng &r) { Val *v = new Val(r.pick({ 1, 0.5 }), r.pick({ 1e8, 100, 1e3 }), r.pick({ 0, 0.1 }), false, r.pick({ 1, 10 })); change(*v, r); return v; }
template <> void H<Val>::change(Val &v, Rng &r) { if (r.chance(50)) v.setMaxFillIn(r.pick({ 1, 0.5, 0.3 })); if (r.chance(50)) v.setMaxRatio(r.pick({ 1e8, 100, 1e4 })); if (r.chance(50)) v.setMinViolation(r.pick({ 0, 0.1, 0.02 })); if (r.chance(50)) v.setRhsScale(r.pick({ 1, 7, 0.1 })); int k = r.in(0, 4); for (int i = 0; i < k; ++i) { OsiRowCut rc; clean(v, r, rc); } }
template <> void H<Val>::show(OS &o, Val &v, Rng &r) { put(o, "fill", v.getMaxFillIn()); put(o, "ratio", v.getMaxRatio()); put(o, "viol", v.getMinViolation()); for (int c = 0; c < Val::DummyEnd; ++c) o << v.numRejected(c) << ","; for (int k = 0; k < 4; ++k) { OsiRowCut rc; int q = clean(v, r, rc); o << q << ":" << (q ? std::string() : cutText(rc)) << ";"; } g_checked++; }
template <> AnyGenerator *H<AnyGenerator>::make(Rng &r) { AnyGenerator *g = new AnyGenerator; change(*g, r); return g; }
static OsiClpSolverInterface *slot(int k) { static OsiClpSolverInterface a, b; return k ? &a : &b; }
template <> void H<AnyGenerator>::change(AnyGenerator &g, Rng &r) { setBase(g, r); if (r.chance(50)) { Mip p; int k = r.in(1, 4); for (int j = 0; j < k; ++j) p.addCol(0, 1, true, r.in(1, 9)); p.addRow({ 0 }, { 1 }, 0, 1); OsiClpSolverInterface *si = new OsiClpSolverInterface; si->messageHandler()->setLogLevel(0); p.load(*si); delete g.swapOriginalSolver(si); } }
template <> void H<AnyGenerator>::show(OS &o, AnyGenerator &g, Rng &) { base(o, g); g_checked++; }
#define GEN(C) template <> C *H<C>::make(Rng &r) { C *g = new C; change(*g, r); return g; }
GEN(CglSimpleRounding)
template <> void H<CglSimpleRounding>::change(CglSimpleRounding &g, Rng &r) { setBase(g, r); }
template <> void H<CglSimpleRounding>::show(OS &o, CglSimpleRounding &g, Rng &r) { base(o, g); cutsOn(o, g, randomMip(r, false, true)); }
template <> CglClique *H<CglClique>::make(Rng &r) { bool sp = r.chance(30), jo = r.chance(30); CglClique *g = new CglClique(sp, jo); g->setStarCliqueReport(false); g->setRowCliqueReport(false); change(*g, r); return g; }
template <> void H<CglClique>::change(CglClique &g, Rng &r) { setBase(g, r); if (r.chance(50)) g.setStarCliqueNextNodeMethod((CglClique::scl_next_node_method)r.in(0, 2)); if (r.chance(50)) g.setStarCliqueCandidateLengthThreshold(r.in(1, 14)); if (r.chance(50)) g.setRowCliqueCandidateLengthThreshold(r.in(1, 14)); if (r.chance(40)) g.setDoStarClique(r.chance(50)); if (r.chance(40)) g.setDoRowClique(r.chance(50)); if (r.chance(50)) g.setMinViolation(r.pick({ 0.01, 0.1, 0.3, 1e-5 })); if (r.chance(30)) g.setMaxNumber(r.in(1, 3)); if (r.chance(30)) { OS o; Rng q(r.next()); cutsOn(o, g, oddCycle(q, false)); } }
template <> void H<CglClique>::show(OS &o, CglClique &g, Rng &r) { base(o, g); put(o, "minviol", g.getMinViolation()); cutsOn(o, g, setPacking(r, true)); cutsOn(o, g, oddCycle(r, false)); Mip p = setPacking(r, true); Mip q = p; cutsOn(o, g, q, false, true); }
GEN(CglOddHole)
template <> void H<CglOddHole>::change(CglOddHole &g, Rng &r) { setBase(g, r); rnd(g, r); rnd(g, r);
  if (r.chance(50)) { std::vector<int> w; for (int i = 0; i < 7; ++i) if (r.chance(80)) w.push_back(i); g.createRowList((int)w.size(), w.data()); }
  else if (r.chance(40)) { Rng q(r.next()); Mip p = oddCycle(q, false); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si); g.createRowList(si); }
  if (r.chance(40)) { int st[4] = { 0, 2, 4, 6 }, mb[6]; int b = r.in(0, 3); for (int k = 0; k < 3; ++k) { mb[2 * k] = b + k; mb[2 * k + 1] = b + (k + 1) % 3; } g.createCliqueList(3, st, mb); } }
template <> void H<CglOddHole>::show(OS &o, CglOddHole &g, Rng &r) { base(o, g); shw(o, g); put(o, "possible", g.numberPossible());
  Mip p; for (int j = 0; j < 7; ++j) p.addCol(0, 1, true, -5 - r.in(0, 2)); for (int i = 0; i < 7; ++i) p.addRow({ i, (i + 1) % 7 }, { 1, 1 }, -INF, 1); for (int i = 0; i < 2; ++i) p.addRow({ i, i + 2 }, { 1, 1 }, -INF, 1);
  int np = g.numberPossible(); if (np <= 9) cutsOn(o, g, p); }
template <> CglMixedIntegerRounding *H<CglMixedIntegerRounding>::make(Rng &r) { int a = r.in(1, 4), c = r.in(1, 3), d = r.in(-1, 1); bool m = r.chance(50); CglMixedIntegerRounding *g = new CglMixedIntegerRounding(a, m, c, d); change(*g, r); return g; }
template <> void H<CglMixedIntegerRounding>::change(CglMixedIntegerRounding &g, Rng &r) { setBase(g, r); if (r.chance(40)) g.setMAXAGGR_(r.in(1, 4)); if (r.chance(40)) g.setMULTIPLY_(r.chance(50)); if (r.chance(40)) g.setCRITERION_(r.in(1, 3)); if (r.chance(50)) g.setDoPreproc(r.in(-1, 1)); }
static Mip fixedMirInstance(Rng &r) { Mip p = fixedCharge(r); return p; }
template <> void H<CglMixedIntegerRounding>::show(OS &o, CglMixedIntegerRounding &g, Rng &r) { base(o, g); shw(o, g); Mip p = fixedMirInstance(r); g.setDoPreproc(1); cutsOn(o, g, p); cutsOn(o, g, p); }
GEN(CglRedSplit)
template <> void H<CglRedSplit>::change(CglRedSplit &g, Rng &r) { setBase(g, r); for (int k = 0; k < 4; ++k) rnd(g, r); if (r.chance(40)) { CglRedSplitParam p; for (int k = 0; k < 5; ++k) rnd(p, r); g.setParam(p); } }
template <> void H<CglRedSplit>::show(OS &o, CglRedSplit &g, Rng &r) { base(o, g); shw(o, g); CglRedSplitParam p = g.getParam(); shw(o, p); cutsOn(o, g, randomMip(r, true, false, 5, 3)); }
GEN(CglZeroHalf)
static Mip zhInstance(Rng &r) { Rng q(r.in(1, 3)); return parityRows(q); }
template <> void H<CglZeroHalf>::change(CglZeroHalf &g, Rng &r) { setBase(g, r); shwset(g, r); Mip p = zhInstance(r); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si); g.refreshSolver(&si); }
template <> void H<CglZeroHalf>::show(OS &o, CglZeroHalf &g, Rng &r) { base(o, g); shw(o, g); put(o, "sparse", g.getSepGraphSparseThreshold()); put(o, "pairs", g.getRowMaxPairCount()); put(o, "frac", g.getRowMaxFractionalCount()); (void)r; }
template <> CglKnapsackCover *H<CglKnapsackCover>::make(Rng &r) { CglKnapsackCover *g = new CglKnapsackCover; change(*g, r); return g; }
template <> void H<CglKnapsackCover>::change(CglKnapsackCover &g, Rng &r) { setBase(g, r); rnd(g, r); if (r.chance(50)) { if (r.chance(50)) g.switchOnExpensive(); else g.switchOffExpensive(); } if (r.chance(50)) { std::vector<int> w; for (int i = 0; i < 1; ++i) w.push_back(i); if (r.chance(20)) w.clear(); g.setTestedRowIndices((int)w.size(), w.data()); } if (r.chance(40)) { Mip p; for (int j = 0; j < 6; ++j) p.addCol(0, 1, true, -1); int k = r.in(0, 3); p.addRow({ k, k + 1, k + 2 }, { 1, 1, 1 }, -INF, 1); p.addRow({ 0, 5 }, { 1, 1 }, 1, 1); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si); g.createCliques(si, 2, 100, false); } }
template <> void H<CglKnapsackCover>::show(OS &o, CglKnapsackCover &g, Rng &r) { base(o, g); shw(o, g); put(o, "max", g.getMaxInKnapsack()); Mip p; do p = knapsacks(r); while (p.m < 1 || p.n < 6); cutsOn(o, g, p); cutsOn(o, g, p, true); }
template <> CglAllDifferent *H<CglAllDifferent>::make(Rng &r) { CglAllDifferent *g; { int ns = r.in(1, 3); std::vector<int> st = { 0 }, wh; for (int s = 0; s < ns; ++s) { int a = r.in(0, 4), b; do b = r.in(0, 4); while (b == a); wh.push_back(a); wh.push_back(b); for (int j = 0; j < 5; ++j) if (j != a && j != b && r.chance(40)) wh.push_back(j); st.push_back((int)wh.size()); } g = new CglAllDifferent(ns, st.data(), wh.data()); } change(*g, r); return g; }
template <> void H<CglAllDifferent>::change(CglAllDifferent &g, Rng &r) { setBase(g, r); if (r.chance(50)) g.setLogLevel(0); if (r.chance(50)) g.setMaxLook(r.in(1, 3)); }
template <> void H<CglAllDifferent>::show(OS &o, CglAllDifferent &g, Rng &r) { base(o, g); shw(o, g); for (int k = 0; k < 3; ++k) { Mip p; for (int j = 0; j < 5; ++j) { int l = r.in(0, 2); p.addCol(l, l + r.in(0, 2), true, 1); } p.addRow({ 0, 1 }, { 1, 1 }, -INF, 100); cutsOn(o, g, p); } }
template <> CglDuplicateRow *H<CglDuplicateRow>::make(Rng &r) { CglDuplicateRow *g; if (r.chance(20)) g = new CglDuplicateRow; else { Rng q(r.next()); Mip p = dupRows(q); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si); g = new CglDuplicateRow(&si); } change(*g, r); return g; }
template <> void H<CglDuplicateRow>::change(CglDuplicateRow &g, Rng &r) { setBase(g, r); rnd(g, r); rnd(g, r); g.setLogLevel(0); }
template <> void H<CglDuplicateRow>::show(OS &o, CglDuplicateRow &g, Rng &) { base(o, g); shw(o, g); put(o, "rows", g.numberOriginalRows()); put(o, "dyn", g.sizeDynamic()); if (g.duplicate()) for (int i = 0; i < g.numberOriginalRows(); ++i) o << g.duplicate()[i] << ","; else o << "none"; g_checked++; }
GEN(CglLiftAndProject)
template <> void H<CglLiftAndProject>::change(CglLiftAndProject &g, Rng &r) { setBase(g, r); if (r.chance(60)) g.setBeta(r.chance(50) ? 1 : -1); }
template <> void H<CglLiftAndProject>::show(OS &o, CglLiftAndProject &g, Rng &) { base(o, g); shw(o, g); g_checked++; }
static CglTreeProbingInfo *someInfo(Rng &r) { Mip p; for (int j = 0; j < 6; ++j) if (r.chance(70)) p.addCol(0, 1, true, 1); else p.addCol(0, 3, r.chance(50), 1); p.addRow({ 0, 1 }, { 1, 1 }, -INF, 9); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si); CglTreeProbingInfo *t = r.chance(20) ? new CglTreeProbingInfo(&si) : new CglTreeProbingInfo; if (r.chance(10)) return t; t->initializeFixing(&si); int k = r.in(0, 12); for (int i = 0; i < k; ++i) { int a = r.in(0, 5), b = r.in(0, 5); bool up = r.chance(50), lo = r.chance(50); if (a != b) t->fixes(a, up ? 1 : -1, b, lo); } return t; }
template <> CglTreeProbingInfo *H<CglTreeProbingInfo>::make(Rng &r) { CglTreeProbingInfo *t = someInfo(r); change(*t, r); return t; }
template <class I> static void infoSet(I &t, Rng &r) { t.level = r.in(0, 9); t.pass = r.in(0, 9); t.formulation_rows = r.in(0, 9); t.options = r.in(0, 99); t.inTree = r.chance(50); t.hasParent = r.in(0, 2); t.parentSolver = r.chance(50) ? slot(0) : nullptr; }
template <class I> static void infoShow(OS &o, I &t) { o << t.level << "," << t.pass << "," << t.formulation_rows << "," << t.options << "," << t.inTree << "," << t.hasParent << "," << (void *)t.parentSolver << "," << (void *)t.originalColumns << "," << (void *)t.strengthenRow << "," << (void *)t.randomNumberGenerator << ";"; }
template <> void H<CglTreeProbingInfo>::change(CglTreeProbingInfo &t, Rng &r) { infoSet(t, r); if (t.numberVariables() && r.chance(40)) t.toZero(); else if (t.numberVariables() && r.chance(30)) t.packDown(); }
template <> void H<CglTreeProbingInfo>::show(OS &o, CglTreeProbingInfo &t, Rng &) { infoShow(o, t); o << t.numberVariables() << "," << t.numberIntegers() << ":"; int n = t.numberIntegers(); for (int j = 0; j < t.numberVariables(); ++j) o << t.backward()[j] << ","; for (int j = 0; j < n; ++j) o << t.integerVariable()[j] << ","; const int *z = t.toZero(), *u = t.toOne(); const CliqueEntry *e = t.fixEntries(); if (!z) o << "none"; else { for (int k = 0; k < n; ++k) { o << z[k] << "/" << u[k] << ","; } o << z[n]; for (int k = 0; k < z[n]; ++k) o << " " << sequenceInCliqueEntry(e[k]) << (oneFixesInCliqueEntry(e[k]) ? "+" : "-"); } g_checked++; }
template <> CglTreeInfo *H<CglTreeInfo>::make(Rng &r) { CglTreeInfo *t = new CglTreeInfo; infoSet(*t, r); return t; }
template <> void H<CglTreeInfo>::change(CglTreeInfo &t, Rng &r) { infoSet(t, r); }
template <> void H<CglTreeInfo>::show(OS &o, CglTreeInfo &t, Rng &) { infoShow(o, t); g_checked++; }
template <> CglStored *H<CglStored>::make(Rng &r) { CglStored *s = new CglStored(6); change(*s, r); return s; }
template <> void H<CglStored>::change(CglStored &s, Rng &r) { setBase(s, r); if (r.chance(60)) s.setRequiredViolation(r.pick({ 1e-5, 0.1, 0.4, 1e-3 })); int k = r.in(0, 3); for (int i = 0; i < k; ++i) { int n = r.in(1, 3); std::vector<int> id; std::vector<double> e; for (int j = 0; j < n; ++j) { id.push_back(2 * j + r.in(0, 1)); e.push_back(r.in(1, 5)); } s.addCut(-COIN_DBL_MAX, r.in(0, 4), n, id.data(), e.data()); }
  if (r.chance(50)) { std::vector<double> a, b, c; for (int j = 0; j < 6; ++j) { a.push_back(r.in(0, 9)); b.push_back(r.in(0, 9)); c.push_back(r.in(0, 9)); } bool sol = r.chance(70); double obj = r.in(0, 99); s.saveStuff(obj, sol ? a.data() : nullptr, b.data(), c.data()); }
  if (r.chance(40)) s.setProbingInfo(someInfo(r)); }
template <> void H<CglStored>::show(OS &o, CglStored &s, Rng &r) { base(o, s); put(o, "req", s.getRequiredViolation()); for (int i = 0; i < s.sizeRowCuts(); ++i) o << cutText(*s.rowCutPointer(i)) << "/" << s.rowCutPointer(i)->effectiveness() << ";"; o << (s.bestSolution() != nullptr) << (s.tightLower() != nullptr);
  if (s.bestSolution()) { o << s.bestObjective(); for (int j = 0; j < 6; ++j) o << s.bestSolution()[j] << ","; } if (s.tightLower()) for (int j = 0; j < 6; ++j) o << s.tightLower()[j] << "," << s.tightUpper()[j] << ",";
  Mip p; for (int j = 0; j < 6; ++j) p.addCol(0, 1, true, 1); p.addRow({ 0, 1 }, { 1, 1 }, 0, 2); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si); double x[6]; for (double &v : x) v = r.in(0, 8) / 8.0; si.setColSolution(x); OsiCuts cs; s.generateCuts(si, cs); showCuts(o, cs); g_checked++; }
// zero-half keeps a copy of the model it was refreshed with; cuts are generated for that model
template <class C> static C *cloneOf(const C &c) { return new C(c); }
template <class C> static C *cloneGen(const C &c) { return dynamic_cast<C *>(static_cast<const CglCutGenerator &>(c).clone()); }
template <class C, bool assignable = true> static std::string test(Rng &r, const char *nm, std::function<C *(const C &)> cl, bool = true) {
  uint64_t s = r.next(), s2 = r.next(), s3 = r.next(), s4 = r.next(); int how = r.in(0, 3), side = r.in(0, 2); if (!assignable && how > 1) how -= 2;
  OS log; log << nm << (how == 0 ? " copy constructor" : how == 1 ? " clone" : how == 2 ? " assignment" : " self-assignment") << ", then " << (side == 0 ? "source changed and destroyed" : side == 1 ? "copy changed and destroyed" : "both kept"); g_case = log.str();
  auto mk = [&](uint64_t z) { Rng q(z); return H<C>::make(q); }; auto show = [&](C &c) { Rng q(s4); OS o; o.precision(17); H<C>::show(o, c, q); return o.str(); };
  C *ref = mk(s), *ref2 = mk(s), *a = mk(s), *b; std::string want = show(*ref), sane = show(*ref2); delete ref; delete ref2;
  if (want != sane) { delete a; return ""; }
  if (how == 0) b = new C(*a); else if (how == 1) b = cl(*a); else if constexpr (assignable) { if (how == 2) { b = mk(s2); C &t = (*b = *a); if (&t != b) return std::string(nm) + ": assignment does not return the object"; } else { C &t = *a; *a = t; b = nullptr; } } else b = nullptr;
  std::string got, which; if (how == 1 && !b) return std::string(nm) + ": clone is of another class";
  Rng q3(s3);
  if (!b) { got = show(*a); which = "the object after self-assignment"; }
  else if (side == 0) { H<C>::change(*a, q3); delete a; a = nullptr; got = show(*b); which = "the copy"; }
  else if (side == 1) { H<C>::change(*b, q3); delete b; b = nullptr; got = show(*a); which = "the source"; }
  else { std::string g2 = show(*b); got = show(*a); which = "the source or copy"; if (got == want) got = g2; }
  delete a; delete b;
  if (got != want) { size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k; size_t f = k > 40 ? k - 40 : 0; return std::string(nm) + ": " + which + " shows ..." + got.substr(f, 120) + " instead of ..." + want.substr(f, 120); }
  return "";
}
template <> Zh *H<Zh>::make(Rng &r) { Zh *z = new Zh; z->p = r.chance(70) ? parityRows(r) : oddCycle(r, false); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); z->p.load(si); z->g.refreshSolver(&si); setBase(z->g, r); shwset(z->g, r); return z; }
template <> void H<Zh>::change(Zh &z, Rng &r) { z.p = parityRows(r); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); z.p.load(si); z.g.refreshSolver(&si); shwset(z.g, r); }
template <> void H<Zh>::show(OS &o, Zh &z, Rng &r) { H<CglZeroHalf>::show(o, z.g, r); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); z.p.load(si); z.g.refreshSolver(&si); cutsOn(o, z.g, z.p); }
template <> Mr *H<Mr>::make(Rng &r) { Mr *z = new Mr; z->p = fixedCharge(r); H<CglMixedIntegerRounding>::change(z->g, r); if (r.chance(70)) { z->g.setDoPreproc(-1); OS o; cutsOn(o, z->g, z->p); } return z; }
template <> void H<Mr>::change(Mr &z, Rng &r) { z.p = fixedCharge(r); z.g.setDoPreproc(1); OS o; cutsOn(o, z.g, z.p); H<CglMixedIntegerRounding>::change(z.g, r); }
template <> void H<Mr>::show(OS &o, Mr &z, Rng &) { base(o, z.g); shw(o, z.g); z.g.setDoPreproc(-1); cutsOn(o, z.g, z.p); }
static std::string runCase(Rng &r) {
  switch (r.in(0, 19)) {
  case 0: return test<CglParam>(r, "CglParam", [](const CglParam &c) { return c.clone(); });
  case 1: return test<CglRedSplitParam>(r, "CglRedSplitParam", [](const CglRedSplitParam &c) { return dynamic_cast<CglRedSplitParam *>(static_cast<const CglParam &>(c).clone()); });
  case 2: return test<CglGMIParam>(r, "CglGMIParam", [](const CglGMIParam &c) { return dynamic_cast<CglGMIParam *>(static_cast<const CglParam &>(c).clone()); });
  case 3: return test<CglRedSplit2Param>(r, "CglRedSplit2Param", [](const CglRedSplit2Param &c) { return dynamic_cast<CglRedSplit2Param *>(static_cast<const CglParam &>(c).clone()); });
  case 4: return test<Val>(r, "LAP::Validator", cloneOf<Val>);
  case 5: return test<AnyGenerator>(r, "CglCutGenerator", cloneGen<AnyGenerator>);
  case 6: return test<CglSimpleRounding>(r, "CglSimpleRounding", cloneGen<CglSimpleRounding>);
  case 7: return test<CglClique, false>(r, "CglClique", cloneGen<CglClique>);
  case 8: return test<CglOddHole>(r, "CglOddHole", cloneGen<CglOddHole>);
  case 9: return test<CglMixedIntegerRounding>(r, "CglMixedIntegerRounding", cloneGen<CglMixedIntegerRounding>);
  case 10: return test<CglRedSplit>(r, "CglRedSplit", cloneGen<CglRedSplit>);
  case 11: return test<Zh>(r, "CglZeroHalf", [](const Zh &z) { Zh *n = new Zh; n->p = z.p; CglZeroHalf *c = cloneGen<CglZeroHalf>(z.g); if (!c) { delete n; return (Zh *)nullptr; } n->g = *c; delete c; return n; });
  case 12: return test<CglKnapsackCover>(r, "CglKnapsackCover", cloneGen<CglKnapsackCover>);
  case 13: return test<CglAllDifferent>(r, "CglAllDifferent", cloneGen<CglAllDifferent>);
  case 14: return test<CglDuplicateRow>(r, "CglDuplicateRow", cloneGen<CglDuplicateRow>);
  case 15: return test<CglLiftAndProject>(r, "CglLiftAndProject", cloneGen<CglLiftAndProject>);
  case 16: return test<CglTreeProbingInfo>(r, "CglTreeProbingInfo", [](const CglTreeProbingInfo &c) { return dynamic_cast<CglTreeProbingInfo *>(static_cast<const CglTreeInfo &>(c).clone()); });
  case 17: return test<CglTreeInfo>(r, "CglTreeInfo", [](const CglTreeInfo &c) { return c.clone(); });
  case 18: return test<Mr>(r, "CglMixedIntegerRounding", [](const Mr &z) { Mr *n = new Mr; n->p = z.p; CglMixedIntegerRounding *c = cloneGen<CglMixedIntegerRounding>(z.g); if (!c) { delete n; return (Mr *)nullptr; } n->g = *c; delete c; return n; });
  default: return test<CglStored>(r, "CglStored", cloneGen<CglStored>);
  }
}
int main(int argc, char **argv) { return cases_main(argc, argv); }
