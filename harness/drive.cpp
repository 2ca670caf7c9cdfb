// drive GEN seed count [tag]     : search small MIPs for a cut that removes a feasible solution
// drive GEN --replay FILE        : re-run one saved instance
// exit 0 nothing found, 1 violation (instance + cut + witness printed), 2 usage
#include "families.hpp"
#include "CglCutGenerator.hpp"
#ifdef G_SIMPLE
#include "CglSimpleRounding.hpp"
#endif
#ifdef G_CLIQUE
#include "CglClique.hpp"
#endif
#ifdef G_ODDHOLE
#include "CglOddHole.hpp"
#endif
#ifdef G_MIR
#include "CglMixedIntegerRounding.hpp"
#endif
#ifdef G_REDSPLIT
#include "CglRedSplit.hpp"
#endif
#ifdef G_ZEROHALF
#include "CglZeroHalf.hpp"
#endif
#ifdef G_KNAPSACK
#include "CglKnapsackCover.hpp"
#endif
#ifdef G_ALLDIFF
#include "CglAllDifferent.hpp"
#endif
#ifdef G_DUPROW
#include "CglDuplicateRow.hpp"
#include "CglStored.hpp"
#endif
#ifdef G_STORED
#include "CglStored.hpp"
#endif
#ifdef G_LAP
#include "CglLiftAndProject.hpp"
#endif
#include <unistd.h>
#include <fcntl.h>
static double g_tol = 1e-6;

// ---------------------------------------------------------------- per generator
struct Gen { // one generator object used over a whole history of instances
  std::string name;
#ifdef G_SIMPLE
  CglSimpleRounding simple;
#endif
#ifdef G_CLIQUE
  CglClique clique[4] = { CglClique(false, false), CglClique(true, false), CglClique(false, true), CglClique(true, true) };
#endif
#ifdef G_ODDHOLE
  CglOddHole odd;
#endif
#ifdef G_MIR
  CglMixedIntegerRounding mir;
#endif
#ifdef G_REDSPLIT
  CglRedSplit rs;
#endif
#ifdef G_ZEROHALF
  CglZeroHalf zh;
#endif
#ifdef G_KNAPSACK
  CglKnapsackCover kc;
#endif
};

static Mip makeInstance(const std::string &g, Rng &r) {
  Mip p;
  if (g == "simple") p = r.chance(50) ? mixedRows(r) : randomMip(r, r.chance(50), r.chance(40));
  else if (g == "clique") { bool pure = r.chance(35); p = r.chance(30) ? oddCycle(r, false) : r.chance(30) ? (r.chance(10) ? bigPacking(r, 18, 26) : bigPacking(r)) : setPacking(r, pure); }
  else if (g == "oddhole") { int k = r.in(0, 5); p = k == 0 ? setPacking(r, false) : k == 1 ? setCover(r) : k == 5 ? (r.chance(10) ? bigPacking(r, 18, 26) : bigPacking(r)) : oddCycle(r, k >= 3); }
  else if (g == "mir") { int k = r.in(0, 6); p = k < 2 ? fixedCharge(r) : k < 5 ? variableBounds(r) : k == 5 ? randomMip(r, true, false, 5, 4) : knapsacks(r); }
  else if (g == "redsplit") { int k = r.in(0, 3); p = k < 2 ? randomMip(r, true, false, 6, 4) : k == 2 ? fixedCharge(r) : knapsacks(r); }
  else if (g == "zerohalf") { int k = r.in(0, 3); p = k == 0 ? oddCycle(r, false) : k == 1 ? setPacking(r, false) : parityRows(r); }
  else if (g == "knapsack") { int k = r.in(0, 9); p = k < 4 ? knapsacks(r) : k < 8 ? knapsackVub(r) : r.chance(20) ? longKnapsack(r, 20, 27) : longKnapsack(r); }
  else if (g == "duprow") p = dupRows(r);
  else if (g == "stored") p = randomMip(r, true, false);
  else if (g == "alldiff") {
    int n = r.in(3, 6); for (int j = 0; j < n; ++j) { int l = r.in(0, 3) - (r.chance(20) ? 2 : 0); p.addCol(l, l + r.in(0, 4), true, r.in(-9, 9)); }
    int ns = r.in(1, 3); p.opt.push_back(0); p.opt.push_back(ns); std::vector<long> st = { 0 }, wh;
    for (int s = 0; s < ns; ++s) { std::vector<int> v; for (int j = 0; j < n; ++j) if (r.chance(70)) v.push_back(j); while (v.size() < 2) { int j = r.in(0, n - 1); if (std::find(v.begin(), v.end(), j) == v.end()) v.push_back(j); } if (r.chance(30)) std::reverse(v.begin(), v.end()); for (int j : v) wh.push_back(j); st.push_back((long)wh.size()); }
    for (long v : st) p.opt.push_back(v); for (long v : wh) p.opt.push_back(v);
    p.addRow({ 0, 1 }, { 1, 1 }, -INF, p.up[0] + p.up[1]);
    return p;
  } else if (g == "lap") {
    // canonical form Ax>=b with all bounds stated as rows
    int n = r.in(2, 4), m = r.in(1, 3);
    for (int j = 0; j < n; ++j) { bool c = r.chance(20); p.addCol(c ? 0 : 0, c ? 3 : 1, !c, r.in(-9, 9)); }
    for (int i = 0; i < m; ++i) { std::vector<int> ind; std::vector<double> el; double mx = 0, mn = 0; for (int j = 0; j < n; ++j) if (r.chance(80)) { double a = coef(r, 0); ind.push_back(j); el.push_back(a); if (a > 0) mx += a * p.up[j]; else mn += a * p.up[j]; } if (ind.empty()) { ind = { 0 }; el = { 1 }; mx = 1; } p.addRow(ind, el, mn + (mx - mn) * r.in(20, 70) / 100.0, INF); }
    for (int j = 0; j < n; ++j) { p.addRow({ j }, { 1 }, p.lo[j], INF); p.addRow({ j }, { -1 }, -p.up[j], INF); }
  }
  if ((g == "oddhole" && r.chance(30)) || (g == "clique" && r.chance(15)) || ((g == "simple" || g == "mir" || g == "redsplit" || g == "zerohalf" || g == "knapsack") && r.chance(12))) addFixed(p, r);
  p.opt.clear();
  int node = r.chance(35) ? 1 : 0;
  p.opt.push_back(node); p.opt.push_back(r.in(0, 63)); p.opt.push_back((long)(r.next() & 0x7fffffff));
  return p;
}

// returns true on violation
static bool runOne(Gen &G, Mip &p, std::ostream &log) {
  const std::string &g = G.name;
  OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); si.setHintParam(OsiDoReducePrint, true);
  long flags = p.opt.size() > 1 ? p.opt[1] : 0; Rng r2(p.opt.size() > 2 ? (uint64_t)p.opt[2] : 7), r3(p.opt.size() > 2 ? (uint64_t)p.opt[2] + 99 : 8);
  if (g == "alldiff") flags = 0;
  p.load(si);
  si.initialSolve();
  if (!si.isProvenOptimal()) return false;
  Mip q = p; // the subproblem at which cuts are generated
  CglTreeInfo info; info.formulation_rows = p.m;
  if (p.opt.size() && p.opt[0] == 1 && g != "lap") {
    int j = -1; for (int t = 0; t < p.n; ++t) { int c = r2.in(0, p.n - 1); if (p.isInt[c] && p.up[c] > p.lo[c]) { j = c; break; } }
    if (j >= 0) { double v = si.getColSolution()[j]; if (r2.chance(50)) q.up[j] = std::max(q.lo[j], floor(v)); else q.lo[j] = std::min(q.up[j], ceil(v)); si.setColBounds(j, q.lo[j], q.up[j]); si.resolve(); if (!si.isProvenOptimal()) return false; info.inTree = true; info.level = 1; info.pass = r2.in(0, 3); }
  }
  if (!info.inTree) info.pass = r3.in(0, 2);
  info.options = (int)((flags & 3) == 1 ? 4 : (flags & 3) == 2 ? 16 : 0);
  if (g == "redsplit") { // the contract of the solver: a nonbasic column sits at the bound its status names (Clp's postsolve does not always say so)
    std::vector<int> cs0(p.n), rs0(p.m); si.getBasisStatus(cs0.data(), rs0.data()); const double *x = si.getColSolution(), *ra = si.getRowActivity();
    for (int j = 0; j < p.n; ++j) if (cs0[j] == 0 || (cs0[j] == 2 && fabs(x[j] - q.up[j]) > 1e-7) || (cs0[j] == 3 && fabs(x[j] - q.lo[j]) > 1e-7)) return false;
    if (std::count(cs0.begin(), cs0.end(), 1) + std::count(rs0.begin(), rs0.end(), 1) != p.m) return false;
    for (int i = 0; i < p.m; ++i) if (rs0[i] == 0 || (rs0[i] > 1 && fabs(ra[i] - p.rlo[i]) > 1e-6 && fabs(ra[i] - p.rup[i]) > 1e-6)) return false;
  }
  OsiCuts cs;
  // a pre-existing (trivially valid) cut: must survive untouched
  OsiRowCut pre; { int i0[1] = { 0 }; double e0[1] = { 1.0 }; pre.setRow(1, i0, e0); pre.setLb(-1e25); pre.setUb(12345.0); } cs.insert(pre);
#ifdef FRAME
  // C15: several cuts of all kinds are there before, an arbitrary point may take the place of the LP solution
  std::vector<OsiRowCut> preR; std::vector<OsiColCut> preC; preR.push_back(pre);
  { int k = r2.in(0, 3); for (int t = 0; t < k; ++t) { int i = r2.in(0, p.m - 1); OsiRowCut c; c.setRow((int)p.ind[i].size(), p.ind[i].data(), p.el[i].data()); c.setLb(r2.chance(50) ? p.rlo[i] : -1e30); c.setUb(p.rup[i] + r2.in(0, 2)); c.setEffectiveness(r2.in(0, 3)); if (r2.chance(30)) c.setGloballyValid(); cs.insert(c); preR.push_back(c); }
    int kc = r2.in(0, 2); for (int t = 0; t < kc; ++t) { OsiColCut c; int j = r2.in(0, p.n - 1); double b = r2.in(-1, 2); if (r2.chance(50)) c.setLbs(1, &j, &b); else c.setUbs(1, &j, &b); cs.insert(c); preC.push_back(c); } }
  bool tab = g == "redsplit" || g == "lap";
  if (!tab && r2.chance(25)) { std::vector<double> y; for (int j = 0; j < p.n; ++j) { double L = std::max(q.lo[j], -9.0), U = std::min(q.up[j], 9.0); if (U < L) U = L; y.push_back(L + (U - L) * r2.in(0, 6) / 6.0); } si.setColSolution(y.data()); }
  CoinPackedMatrix M0(*si.getMatrixByRow()); std::vector<double> RL(si.getRowLower(), si.getRowLower() + p.m), RU(si.getRowUpper(), si.getRowUpper() + p.m), CL(si.getColLower(), si.getColLower() + p.n), CU(si.getColUpper(), si.getColUpper() + p.n), OB(si.getObjCoefficients(), si.getObjCoefficients() + p.n); double sense0 = si.getObjSense(), val0 = si.getObjValue();
  std::vector<int> I0; for (int j = 0; j < p.n; ++j) I0.push_back(si.isInteger(j));
#endif
  CoinThreadRandom rnd(12345); if (r3.chance(20)) info.randomNumberGenerator = &rnd;
#ifndef FRAME
  // a cut must hold whatever the point is that it was separated from: another point of the relaxation, or (knapsack rows apart) any point of the box
  if (g != "redsplit" && g != "lap" && g != "alldiff" && r3.chance(30)) {
    std::vector<double> y(si.getColSolution(), si.getColSolution() + p.n);
    if (g == "knapsack" || r3.chance(50)) { OsiClpSolverInterface s3; s3.messageHandler()->setLogLevel(0); q.load(s3); for (int j = 0; j < p.n; ++j) s3.setObjCoeff(j, r3.in(-9, 9)); s3.initialSolve(); double w = r3.in(0, 4) / 4.0; if (s3.isProvenOptimal()) for (int j = 0; j < p.n; ++j) y[j] = w * y[j] + (1 - w) * s3.getColSolution()[j]; }
    else for (int j = 0; j < p.n; ++j) if (r3.chance(60)) { double L = std::max(q.lo[j], -9.0), U = std::min(q.up[j], 9.0); if (U < L) U = L; y[j] = L + (U - L) * r3.in(0, 6) / 6.0; }
    si.setColSolution(y.data());
  }
#endif
  std::vector<double> xs(si.getColSolution(), si.getColSolution() + p.n);
  // the same object may have been used just before at a deeper node, with tighter bounds that no longer hold
  OsiClpSolverInterface sb; sb.messageHandler()->setLogLevel(0); sb.setHintParam(OsiDoReducePrint, true); bool before = false; Rng r4(p.opt.size() > 2 ? (uint64_t)p.opt[2] + 4711 : 9);
  if (g != "redsplit" && g != "lap" && g != "alldiff" && r4.chance(25)) {
    Mip b = q; for (int j = 0; j < p.n; ++j) if (p.isInt[j] && q.up[j] > q.lo[j] && r4.chance(30)) { double v = std::floor(xs[j] + 1e-7); if (r4.chance(50)) b.up[j] = std::max(b.lo[j], v); else b.lo[j] = std::min(b.up[j], v + 1); }
    b.load(sb); sb.initialSolve(); before = sb.isProvenOptimal();
  }
  auto cuts = [&](auto &gen) { if (before) { OsiCuts c0; CglTreeInfo i0 = info; i0.inTree = true; i0.level = 2; gen.generateCuts(sb, c0, i0); } gen.generateCuts(si, cs, info); }; (void)cuts;
  if (g == "@none") {}
#ifdef G_SIMPLE
  else if (g == "simple") cuts(G.simple);
#endif
#ifdef G_CLIQUE
  else if (g == "clique") {
    bool pure = true; for (int j = 0; j < p.n; ++j) if (!(p.isInt[j] && p.lo[j] >= 0 && p.up[j] <= 1)) pure = false;
    for (int i = 0; i < p.m; ++i) { if (p.rup[i] != 1 || p.rlo[i] > 1) pure = false; for (double a : p.el[i]) if (a != 1) pure = false; }
    int w = (pure && (flags & 4) ? 1 : 0) + (r3.chance(20) ? 2 : 0); CglClique &c = G.clique[w]; if (w & 2) info.formulation_rows = r3.in(1, p.m);
    c.setStarCliqueReport(false); c.setRowCliqueReport(false);
    c.setStarCliqueCandidateLengthThreshold(flags & 8 ? 2 : 12); c.setRowCliqueCandidateLengthThreshold(flags & 16 ? 1 : 12);
    c.setStarCliqueNextNodeMethod(flags & 32 ? CglClique::SCL_MIN_DEGREE : flags & 2 ? CglClique::SCL_MAX_DEGREE : CglClique::SCL_MAX_XJ_MAX_DEG); c.setDoStarClique(!r3.chance(8)); c.setDoRowClique(!r3.chance(8));
    cuts(c);
  }
#endif
#ifdef G_ODDHOLE
  else if (g == "oddhole") { G.odd.refreshSolver(&si); G.odd.setMinimumViolation(0.005); G.odd.setMinimumViolationPer(0.00002); G.odd.setMaximumEntries(flags & 8 ? 4 : 200); if (flags & 4) G.odd.createRowList(si); else if (flags & 16) { std::vector<int> w(p.m); for (int &v : w) v = r3.chance(80); G.odd.createRowList(p.m, w.data()); } else { CglOddHole none; G.odd = none; } cuts(G.odd); }
#endif
#ifdef G_MIR
  else if (g == "mir") { G.mir.refreshSolver(&si); G.mir.setMAXAGGR_(1 + (flags & 3)); G.mir.setMULTIPLY_(flags & 4); G.mir.setCRITERION_(1 + ((flags >> 3) % 3)); G.mir.setDoPreproc(flags & 32 ? 1 : r3.chance(30) ? 0 : -1); cuts(G.mir); }
#endif
#ifdef G_REDSPLIT
  else if (g == "redsplit") {
    CglRedSplitParam pr; pr.setUSE_CG2(r3.chance(30)); if (r3.chance(15)) pr.setMaxTab(r3.in(11, 40)); if (r3.chance(15)) pr.setLUB(r3.in(1, 9)); if (r3.chance(10)) pr.setMAX_SUPPORT(r3.in(2, 5)); if (r3.chance(15)) pr.setAway(r3.pick({ 0.01, 0.2, 0.4 }));
    if (r3.chance(10)) pr.setEPS_RELAX_REL(1e-8); if (r3.chance(15)) pr.setMinReduc(r3.pick({ 0.01, 0.5 })); G.rs.setParam(pr);
    G.rs.generateCuts(si, cs, info); }
#endif
#ifdef G_ZEROHALF
  else if (g == "zerohalf") { Mip full = p; OsiClpSolverInterface s2; s2.messageHandler()->setLogLevel(0); p.load(s2); G.zh.refreshSolver(&s2); G.zh.setFlags(flags & 4 ? 1 : 0); G.zh.setSepGraphSparseThreshold(flags & 8 ? 0 : 2500); G.zh.setRowMaxPairCount(r3.chance(15) ? r3.in(1, 4) : -1); G.zh.setRowMaxFractionalCount(r3.chance(15) ? r3.in(1, 4) : -1); cuts(G.zh); }
#endif
#ifdef G_KNAPSACK
  else if (g == "knapsack") { if (flags & 4) G.kc.switchOnExpensive(); else G.kc.switchOffExpensive(); if (flags & 8) { G.kc.refreshSolver(&si); } if (!(flags & 16)) { CglKnapsackCover none; bool ex = (flags & 4) != 0; G.kc = none; if (ex) G.kc.switchOnExpensive(); } if (flags & 16) { OsiClpSolverInterface s2(si); s2.messageHandler()->setLogLevel(0); G.kc.createCliques(s2, r3.in(2, 3), 200, r3.chance(50)); }
    if (r3.chance(15)) { std::vector<int> w; for (int i = 0; i < p.m; ++i) if (r3.chance(70)) w.push_back(i); G.kc.setTestedRowIndices((int)w.size(), w.data()); } else G.kc.setTestedRowIndices(-1, NULL); G.kc.setMaxInKnapsack(r3.chance(20) ? r3.in(3, 8) : 50);
    cuts(G.kc); }
#endif
#ifdef G_DUPROW
  else if (g == "duprow") {
    CglDuplicateRow d(&si); int mode = (int)((flags >> 2) % 4); d.setMode(mode == 0 ? 1 : mode == 1 ? 2 : mode == 2 ? 3 : 8); d.setMaximumRhs(3); cuts(d);
  }
#endif
#ifdef G_STORED
  else if (g == "stored") { CglStored d(p.n); for (int i = 0; i < p.m; ++i) d.addCut(p.rlo[i], p.rup[i] - r2.in(0, 2), (int)p.ind[i].size(), p.ind[i].data(), p.el[i].data()); CglTreeProbingInfo *t = new CglTreeProbingInfo(); t->initializeFixing(&si); for (int k = 0; k < 6; ++k) { int a = r2.in(0, p.n - 1), b = r2.in(0, p.n - 1); if (a != b) t->fixes(a, r2.chance(50) ? 1 : -1, b, r2.chance(50)); } d.setProbingInfo(t); cuts(d); }
#endif
#ifdef G_LAP
  else if (g == "lap") { CglLiftAndProject l; l.setBeta(flags & 4 ? 1 : -1); l.generateCuts(si, cs, info); }
#endif
#ifdef G_ALLDIFF
  else if (g == "alldiff") {
    int ns = (int)p.opt[1]; std::vector<int> st, wh; for (int i = 0; i <= ns; ++i) st.push_back((int)p.opt[2 + i]); for (size_t i = 3 + ns; i < p.opt.size(); ++i) wh.push_back((int)p.opt[i]);
    CglAllDifferent a(ns, st.data(), wh.data()); a.setMaxLook((int)(p.n % 3 + (wh[0] % 2))); a.refreshSolver(&si); a.generateCuts(si, cs, info);
  }
#endif
  // ---- checks
  bool bad = false;
  std::ostringstream why; why.precision(12);
  if (cs.sizeRowCuts() < 1 || fabs(cs.rowCut(0).ub() - 12345.0) > 0 || cs.rowCut(0).lb() != -1e25 || cs.rowCut(0).row().getNumElements() != 1 || cs.rowCut(0).row().getElements()[0] != 1.0 || cs.rowCut(0).row().getIndices()[0] != 0) { why << "a cut already in the collection was changed\n"; bad = true; }
  for (int j = 0; j < p.n; ++j) {
    auto same = [](double a, double b) { return a == b || (a < -1e20 && b < -1e20) || (a > 1e20 && b > 1e20); };
    if (!same(si.getColLower()[j], q.lo[j]) || !same(si.getColUpper()[j], q.up[j])) { why << "the solver was modified (bounds of column " << j << ")\n"; bad = true; }
    // generators that ask the solver for tableau rows may make it re-optimise, so only the others are held to this
    if (g != "redsplit" && g != "lap" && fabs(si.getColSolution()[j] - xs[j]) > 1e-7) { why << "the solver was modified (solution, column " << j << ")\n"; bad = true; }
  }
#ifdef FRAME
  auto eqR = [](const OsiRowCut &a, const OsiRowCut &b) { const CoinPackedVector &x = a.row(), &y = b.row(); if (x.getNumElements() != y.getNumElements() || a.lb() != b.lb() || a.ub() != b.ub() || a.effectiveness() != b.effectiveness() || a.globallyValid() != b.globallyValid()) return false; for (int k = 0; k < x.getNumElements(); ++k) { bool f = false; for (int t = 0; t < y.getNumElements(); ++t) if (x.getIndices()[k] == y.getIndices()[t] && x.getElements()[k] == y.getElements()[t]) f = true; if (!f) return false; } return true; };
  auto eqV = [](const CoinPackedVector &x, const CoinPackedVector &y) { if (x.getNumElements() != y.getNumElements()) return false; for (int k = 0; k < x.getNumElements(); ++k) if (x.getIndices()[k] != y.getIndices()[k] || x.getElements()[k] != y.getElements()[k]) return false; return true; };
  if (cs.sizeRowCuts() < (int)preR.size() || cs.sizeColCuts() < (int)preC.size()) { why << "cuts already in the collection were removed\n"; bad = true; }
  for (size_t k = 0; k < preR.size() && !bad; ++k) if (!eqR(cs.rowCut((int)k), preR[k])) { why << "row cut " << k << " already in the collection was changed or moved: " << cutText(preR[k]) << " is now " << cutText(cs.rowCut((int)k)) << "\n"; bad = true; }
  for (size_t k = 0; k < preC.size() && !bad; ++k) if (!eqV(cs.colCut((int)k).lbs(), preC[k].lbs()) || !eqV(cs.colCut((int)k).ubs(), preC[k].ubs())) { why << "column cut " << k << " already in the collection was changed or moved\n"; bad = true; }
  if (si.getNumCols() != p.n || si.getNumRows() != p.m) { why << "the solver was modified (size)\n"; bad = true; }
  else {
    if (!M0.isEquivalent(*si.getMatrixByRow())) { why << "the solver was modified (coefficients)\n"; bad = true; }
    for (int i = 0; i < p.m; ++i) if (si.getRowLower()[i] != RL[i] || si.getRowUpper()[i] != RU[i]) { why << "the solver was modified (row " << i << ")\n"; bad = true; }
    for (int j = 0; j < p.n; ++j) if (si.getColLower()[j] != CL[j] || si.getColUpper()[j] != CU[j]) { why << "the solver was modified (bounds of column " << j << ")\n"; bad = true; }
    for (int j = 0; j < p.n; ++j) if (si.getObjCoefficients()[j] != OB[j] || (int)si.isInteger(j) != I0[j]) { why << "the solver was modified (objective or type of column " << j << ")\n"; bad = true; }
    if (si.getObjSense() != sense0) { why << "the solver was modified (objective sense)\n"; bad = true; }
    for (int j = 0; j < p.n && !tab; ++j) if (si.getColSolution()[j] != xs[j]) { why << "the solver was modified (solution, column " << j << ")\n"; bad = true; }
    if (tab && fabs(si.getObjValue() - val0) > 1e-6 * (1 + fabs(val0))) { why << "the solver was modified (objective value)\n"; bad = true; }
  }
  if (bad) log << why.str();
  { extern long g_cuts; extern std::vector<std::string> g_samples; g_cuts += 1; if (g_samples.size() < 1 && cs.sizeRowCuts() > (int)preR.size()) { std::string x = p.text(); for (auto &c : x) if (c == '\n') c = ';'; g_samples.push_back(g + ": " + x + " with " + std::to_string(preR.size()) + " cuts before and " + std::to_string(cs.sizeRowCuts()) + " after"); } }
  return bad;
#endif
  Oracle o(q, 30000);
  if (!o.ok && !bad) return false;
  if (g == "alldiff") {
    int ns = (int)p.opt[1]; auto okp = [&](const std::vector<double> &x) { for (int s = 0; s < ns; ++s) for (long a = p.opt[2 + s]; a < p.opt[3 + s]; ++a) for (long b = a + 1; b < p.opt[3 + s]; ++b) if (x[p.opt[3 + ns + a]] == x[p.opt[3 + ns + b]]) return false; return true; };
    std::vector<std::vector<double>> keep; for (auto &x : o.pts) if (okp(x)) keep.push_back(x); o.pts = keep;
  }
  std::vector<double> w;
  for (int i = 1; i < cs.sizeRowCuts() && !bad; ++i) {
    const OsiRowCut &rc = *cs.rowCutPtr(i);
    if (o.violates(rc.row(), rc.lb(), rc.ub(), g_tol, w)) { why << "row cut " << cutText(rc) << "\n removes feasible point"; for (double v : w) why << " " << v; why << "\n"; bad = true; }
    else if (rc.globallyValid() && p.opt.size() && p.opt[0] == 1) {
      Oracle o2(p, 30000);
      if (o2.ok && o2.violates(rc.row(), rc.lb(), rc.ub(), g_tol, w)) { why << "row cut marked globally valid " << cutText(rc) << "\n removes root-feasible point"; for (double v : w) why << " " << v; why << "\n"; bad = true; }
    }
  }
  for (int i = 0; i < cs.sizeColCuts() && !bad; ++i) {
    const OsiColCut &cc = cs.colCut(i);
    for (int k = 0; k < cc.lbs().getNumElements() && !bad; ++k) { CoinPackedVector v; v.insert(cc.lbs().getIndices()[k], 1.0); double b = cc.lbs().getElements()[k]; if (o.violates(v, b, 1e40, g_tol, w)) { why << "col cut x" << cc.lbs().getIndices()[k] << " >= " << b << "\n removes feasible point"; for (double t : w) why << " " << t; why << "\n"; bad = true; } }
    for (int k = 0; k < cc.ubs().getNumElements() && !bad; ++k) { CoinPackedVector v; v.insert(cc.ubs().getIndices()[k], 1.0); double b = cc.ubs().getElements()[k]; if (o.violates(v, -1e40, b, g_tol, w)) { why << "col cut x" << cc.ubs().getIndices()[k] << " <= " << b << "\n removes feasible point"; for (double t : w) why << " " << t; why << "\n"; bad = true; } }
  }
  log.precision(12);
  if (bad) log << why.str();
  extern long g_cuts; extern std::vector<std::string> g_samples;
  if (g_samples.size() < 1 && cs.sizeRowCuts() > 1) { std::string x = p.text(); for (auto &c : x) if (c == '\n') c = ';'; g_samples.push_back(g + ": " + x + " cut: " + cutText(*cs.rowCutPtr(1))); }
  g_cuts += cs.sizeRowCuts() - 1 + cs.sizeColCuts();
  return bad;
}
long g_cuts = 0; std::vector<std::string> g_samples;

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  std::string g = argv[1];
  // generators print progress on stdout; keep ours on a private descriptor
  int out = dup(1); int nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1);
  auto say = [&](const std::string &s) { (void)!write(out, s.data(), s.size()); };
  if (g == "lap") g_tol = 1e-4; // coefficients come from Clp's solution of the cone LP
  if (std::string(argv[2]) == "--replay") {
    std::ifstream in(argv[3]); Gen G; G.name = g; Mip p; bool bad = false; std::ostringstream o;
    std::string line; // skip comment header
    while (in.peek() == '#') std::getline(in, line);
    while (p = Mip(), p.parse(in)) { o.str(""); if (runOne(G, p, o)) { bad = true; break; } }
    say(bad ? o.str() : "no violation\n"); return bad ? 1 : 0;
  }
  uint64_t seed = strtoull(argv[2], 0, 10); int count = atoi(argv[3]);
  int hist = 8, cont = argc > 4 && std::string(argv[4]) == "-k", nb = 0;
  for (int i = 0; i < count; i += hist) {
    Gen G; G.name = g; std::vector<Mip> h;
    for (int k = 0; k < hist; ++k) {
      Rng r(seed * 1000003ULL + (uint64_t)i + k);
      Mip p = makeInstance(g, r); h.push_back(p); std::ostringstream o;
      alarm(120);
      if (getenv("DRIVE_TRACE")) { std::ofstream t(getenv("DRIVE_TRACE")); t << p.text(); }
      if (runOne(G, p, o)) {
        // shrink the history to the failing instance if it fails alone
        std::ostringstream o2; Gen G2; G2.name = g; Mip alone = p; bool solo = runOne(G2, alone, o2);
        std::ostringstream t; t << "# generator " << g << " seed " << seed << " index " << i + k << "\n"; std::istringstream ls(solo ? o2.str() : o.str()); std::string l; while (std::getline(ls, l)) t << "# " << l << "\n";
        if (solo) t << p.text(); else for (auto &x : h) t << x.text();
        say(t.str()); ++nb; if (!cont) return 1; break;
      }
    }
  }
  for (auto &x : g_samples) say("sample " + x + "\n");
  std::ostringstream t; t << "explored " << count << " instances, " << g_cuts << " cuts checked, bad " << nb << "\n"; say(t.str());
  return nb ? 1 : 0;
}
