// C11: CglTreeProbingInfo (and the cuts CglStored derives from it) against a plain list of recorded implications
#include "cases.hpp"
#include "CglTreeInfo.hpp"
#include "CglStored.hpp"
struct Imp { int a, av, b, bv; };   // x_a == av  ->  x_b at bv (0 lower, 1 upper)
static std::string runCase(Rng &r) {
  std::ostringstream log; Mip p; std::vector<int> bin; int n = r.in(2, 7);
  if (r.chance(3)) n = r.in(8, 14);
  bool only01 = r.chance(40);
  for (int j = 0; j < n; ++j) {
    if (only01 || r.chance(65)) { p.addCol(0, 1, true, 1); bin.push_back(j); }
    else if (r.chance(50)) { double l = r.in(-2, 2); p.addCol(l, l + r.in(2, 3), true, 1); }
    else { double l = r.in(-2, 2) / 2.0; p.addCol(l, l + r.in(1, 5) / 2.0, false, 1); }
  }
  { std::vector<int> i; std::vector<double> e; for (int j = 0; j < n; ++j) { i.push_back(j); e.push_back(1); } p.addRow(i, e, -1000, 1000); }
  OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si);
  bool viaModel = r.chance(10);
  CglTreeProbingInfo *t = viaModel ? new CglTreeProbingInfo(&si) : new CglTreeProbingInfo(); std::string bad; std::vector<Imp> imp;
  int rc0 = t->initializeFixing(&si); (void)rc0;
  if (t->numberIntegers() != (int)bin.size() || t->numberVariables() != n) bad = "wrong number of 0-1 variables";
  for (size_t k = 0; k < bin.size() && bad.empty(); ++k) if (t->integerVariable()[k] != bin[k] || t->backward()[bin[k]] != (int)k) bad = "column lookup is wrong";
  for (int j = 0; j < n && bad.empty(); ++j) if (!(p.isInt[j] && p.up[j] == 1 && p.lo[j] == 0) && t->backward()[j] >= 0) bad = "a column that is not 0-1 is taken for one";
  int cnt = r.in(0, r.chance(5) ? 260 : 14);
  for (int q = 0; q < cnt && bin.size() && bad.empty(); ++q) {
    Imp m; m.a = r.chance(93) ? bin[r.in(0, (int)bin.size() - 1)] : r.in(0, n - 1); m.b = r.in(0, n - 1); if (m.a == m.b) continue; m.av = r.in(0, 1); m.bv = r.in(0, 1);
    bool aBin = std::find(bin.begin(), bin.end(), m.a) != bin.end();
    if (!t->fixes(m.a, m.av ? 1 : -1, m.b, m.bv == 0)) bad = "an implication was refused";
    if (aBin) { imp.push_back(m); log << "x" << m.a << "=" << m.av << " -> x" << m.b << (m.bv ? " up" : " down") << "; "; }
  }
  if (r.chance(20)) { CglTreeProbingInfo *u = dynamic_cast<CglTreeProbingInfo *>(t->clone()); delete t; t = u; log << "clone; "; }
  bool hasGen = false; for (auto &m : imp) if (std::find(bin.begin(), bin.end(), m.b) == bin.end()) hasGen = true;
  auto key = [](const Imp &m) { return ((m.a * 2L + m.av) * 100 + m.b) * 2 + m.bv; };
  auto lists = [&](bool keepGen, const char *when) {
    const int *z = t->toZero(), *o = t->toOne(); const CliqueEntry *e = t->fixEntries(); std::vector<long> got, want;
    if (!bin.empty() && z[0] != 0) bad = "lists do not start at zero";
    for (size_t k = 0; k < bin.size() && bad.empty(); ++k) {
      if (o[k] < z[k] || z[k + 1] < o[k]) { bad = "list starts are out of order"; break; }
      for (int q = z[k]; q < z[k + 1]; ++q) { Imp m; m.a = bin[k]; m.av = q >= o[k]; int s = sequenceInCliqueEntry(e[q]); if (s < (int)bin.size()) m.b = bin[s]; else m.b = s - (int)bin.size(); m.bv = oneFixesInCliqueEntry(e[q]); if (s < 0 || m.b >= n) { bad = "an entry names no column"; break; } got.push_back(key(m)); }
    }
    for (auto &m : imp) { bool g = std::find(bin.begin(), bin.end(), m.b) == bin.end(); if (g && !keepGen) continue; want.push_back(key(m)); }
    std::sort(got.begin(), got.end()); got.erase(std::unique(got.begin(), got.end()), got.end()); std::sort(want.begin(), want.end()); want.erase(std::unique(want.begin(), want.end()), want.end());
    if (bad.empty()) {
      for (long g : got) if (!std::binary_search(want.begin(), want.end(), g)) bad = std::string("an implication appeared that was never recorded ") + when;
      // an entry for a general column whose number equals the duplicate sentinel may be lost; it is never applied wrongly
      for (long w : want) if (!std::binary_search(got.begin(), got.end(), w)) { long b = (w / 2) % 100; bool g = std::find(bin.begin(), bin.end(), (int)b) == bin.end(); if (!g) bad = std::string("a recorded implication was lost ") + when; }
    }
    g_checked++;
  };
  if (bad.empty()) lists(true, "(after sorting)");
  auto implied = [&](const std::vector<double> &lo, const std::vector<double> &up, const Imp &m) { return m.av ? lo[m.a] == 1 : up[m.a] == 0; };
  auto holds = [&](const std::vector<double> &x, const Imp &m) { return x[m.a] != m.av || x[m.b] == (m.bv ? p.up[m.b] : p.lo[m.b]); };
  // cuts of the store (general columns included)
  if (bad.empty() && r.chance(60)) {
    std::vector<double> x; for (int j = 0; j < n; ++j) x.push_back(p.lo[j] + (p.up[j] - p.lo[j]) * r.in(0, 8) / 8.0);
    std::vector<double> lo = p.lo, up = p.up; OsiClpSolverInterface s2; s2.messageHandler()->setLogLevel(0); p.load(s2);
    for (int j : bin) if (r.chance(10)) { lo[j] = up[j] = r.in(0, 1); s2.setColBounds(j, lo[j], up[j]); x[j] = lo[j]; }
    s2.setColSolution(x.data());
    CglStored st(n); st.setProbingInfo(new CglTreeProbingInfo(*t)); st.setRequiredViolation(r.pick({ 1e-5, 0.3 })); OsiCuts cs; st.generateCuts(s2, cs);
    for (int c = 0; c < cs.sizeRowCuts() && bad.empty(); ++c) {
      const OsiRowCut &rc = *cs.rowCutPtr(c); const CoinPackedVector &v = rc.row(); g_checked++;
      if (v.getNumElements() != 2) { bad = "a derived cut does not have two columns"; break; }
      int a = v.getIndices()[0], b = v.getIndices()[1]; if (a < 0 || b < 0 || a >= n || b >= n) { bad = "a derived cut names no column"; break; }
      auto val = [&](int j, int q) { return q == 0 ? p.lo[j] : q == 1 ? p.up[j] : q == 2 ? 0.5 * (p.lo[j] + p.up[j]) : p.lo[j] + 1; };
      for (int q = 0; q < 16 && bad.empty(); ++q) {
        std::vector<double> y = x; y[a] = val(a, q & 3); y[b] = val(b, q / 4); if ((p.isInt[b] && y[b] != floor(y[b])) || (p.isInt[a] && y[a] != floor(y[a]))) continue; if (y[b] > p.up[b] || y[a] > p.up[a]) continue;
        bool ok = true; for (auto &m : imp) if ((m.a == a && m.b == b) || (m.a == b && m.b == a)) if (!holds(y, m)) ok = false;
        if (!ok) continue; double s = v.getElements()[0] * y[a] + v.getElements()[1] * y[b];
        if (s > rc.ub() + 1e-9 || s < rc.lb() - 1e-9) bad = "stored implications gave the cut " + cutText(rc) + " which removes a point satisfying all of them";
      }
      double s = v.getElements()[0] * x[a] + v.getElements()[1] * x[b]; if (bad.empty() && s <= rc.ub() && s >= rc.lb()) bad = "a derived cut is not violated";
    }
    if (cs.sizeColCuts()) bad = "the store made column cuts";
  }
  if (bad.empty()) { t->packDown(); lists(false, "(after packing)"); }
  std::vector<Imp> b01; for (auto &m : imp) if (std::find(bin.begin(), bin.end(), m.b) != bin.end()) b01.push_back(m);
  for (int round = 0; round < 3 && bad.empty() && bin.size(); ++round) {
    std::vector<double> lo = p.lo, up = p.up; OsiClpSolverInterface s2; s2.messageHandler()->setLogLevel(0); p.load(s2);
    for (int j : bin) if (r.chance(25)) { lo[j] = up[j] = r.in(0, 1); s2.setColBounds(j, lo[j], up[j]); }
    log << "bounds"; for (int j : bin) log << " " << lo[j] << up[j];
    auto L = [&](int j) { return s2.getColLower()[j]; }; auto U = [&](int j) { return s2.getColUpper()[j]; };
    int w = r.in(0, 2); g_checked++;
    if (w == 0) {
      int a = r.chance(95) ? bin[r.in(0, (int)bin.size() - 1)] : r.in(0, n - 1), v = r.in(0, 1); log << " fixColumns(" << a << "," << v << "); ";
      int ret = t->fixColumns(a, v, s2); std::vector<double> l2 = lo, u2 = up; int nf = 0; bool inf = false;
      for (auto &m : b01) if (m.a == a && m.av == v) { if (m.bv) { if (u2[m.b] == 0) inf = true; else if (l2[m.b] == 0) { l2[m.b] = 1; ++nf; } } else { if (l2[m.b] == 1) inf = true; else if (u2[m.b] == 1) { u2[m.b] = 0; ++nf; } } }
      if (inf ? ret != -1 : ret != nf) bad = "fixColumns returned " + std::to_string(ret) + (inf ? ", but the implications conflict" : " instead of " + std::to_string(nf));
      if (!inf) for (int j = 0; j < n && bad.empty(); ++j) if (L(j) != l2[j] || U(j) != u2[j]) bad = "fixColumns gave column " + std::to_string(j) + " the bounds " + std::to_string(L(j)) + "," + std::to_string(U(j)) + " instead of " + std::to_string(l2[j]) + "," + std::to_string(u2[j]);
      if (inf) for (int j = 0; j < n && bad.empty(); ++j) if (L(j) != lo[j] || U(j) != up[j]) { bool just = false; for (auto &m : b01) if (m.a == a && m.av == v && m.b == j) just = true; if (!just) bad = "fixColumns changed a column without an implication"; }
    } else if (w == 1) {
      log << " fixColumns; "; int ret = t->fixColumns(s2); std::vector<double> l2(s2.getColLower(), s2.getColLower() + n), u2(s2.getColUpper(), s2.getColUpper() + n); int ch = 0;
      bool conf = false;
      for (int j = 0; j < n && bad.empty(); ++j) if (l2[j] != lo[j] || u2[j] != up[j]) { ch++; bool just = false; for (auto &m : b01) if (m.b == j && implied(l2, u2, m) && l2[j] == m.bv && u2[j] == m.bv) just = true; if (!just) bad = "fixColumns changed column " + std::to_string(j) + " without an implication that applies"; }
      for (auto &m : b01) { if (implied(lo, up, m) && !(l2[m.b] == m.bv && u2[m.b] == m.bv)) { conf = true; if (ret != -1 && bad.empty()) bad = "an implication that applies was not carried out on column " + std::to_string(m.b); } if (implied(l2, u2, m) && !(l2[m.b] == m.bv && u2[m.b] == m.bv)) conf = true; }
      if (bad.empty() && ret != -1 && ret != ch) bad = "fixColumns returned a wrong number";
      if (bad.empty() && ret == -1) { bool c = false; for (auto &m : b01) if (implied(l2, u2, m) && (m.bv ? u2[m.b] == 0 : l2[m.b] == 1)) c = true; if (!c) bad = "fixColumns reported a conflict that does not exist"; }
    } else {
      std::vector<double> x; for (int j = 0; j < n; ++j) x.push_back(lo[j] + (up[j] - lo[j]) * r.in(0, 8) / 8.0); s2.setColSolution(x.data());
      log << " generateCuts; "; OsiCuts cs; CglTreeInfo info; t->generateCuts(s2, cs, info); bool infc = false;
      for (int c = 0; c < cs.sizeRowCuts() && bad.empty(); ++c) {
        const OsiRowCut &rc = *cs.rowCutPtr(c); const CoinPackedVector &v = rc.row(); g_checked++;
        if (v.getNumElements() == 0) { if (rc.lb() > rc.ub()) infc = true; continue; }
        if (v.getNumElements() != 2) { bad = "a derived cut does not have two columns"; break; }
        int a = v.getIndices()[0], b = v.getIndices()[1]; if (a < 0 || b < 0 || a >= n || b >= n) { bad = "a derived cut names no column"; break; }
        for (int q = 0; q < 4 && bad.empty(); ++q) { std::vector<double> y = x; y[a] = q & 1; y[b] = q / 2; bool ok = true; for (auto &m : b01) if ((m.a == a && m.b == b) || (m.a == b && m.b == a)) if (!holds(y, m)) ok = false; if (!ok) continue; double s = v.getElements()[0] * y[a] + v.getElements()[1] * y[b]; if (s > rc.ub() + 1e-9 || s < rc.lb() - 1e-9) bad = "implications gave the cut " + cutText(rc) + " which removes a point satisfying all of them"; }
      }
      std::vector<int> toLo(n, 0), toUp(n, 0); bool conf = false;
      for (auto &m : b01) if (implied(lo, up, m)) { if (m.bv) toUp[m.b] = 1; else toLo[m.b] = 1; }
      for (int j : bin) { if (toUp[j] && (toLo[j] || up[j] == 0)) conf = true; if (toLo[j] && lo[j] == 1) conf = true; }
      if (bad.empty() && infc != conf) bad = conf ? "conflicting implications were not reported" : "a conflict was reported that does not exist";
      std::vector<int> gl(n, 0), gu(n, 0);
      for (int c = 0; c < cs.sizeColCuts() && bad.empty(); ++c) {
        const OsiColCut &cc = cs.colCut(c);
        for (int k = 0; k < cc.lbs().getNumElements(); ++k) { int j = cc.lbs().getIndices()[k]; if (j < 0 || j >= n || !toUp[j] || cc.lbs().getElements()[k] != 1) bad = "a lower bound was raised without an implication"; else gl[j] = 1; }
        for (int k = 0; k < cc.ubs().getNumElements(); ++k) { int j = cc.ubs().getIndices()[k]; if (j < 0 || j >= n || !toLo[j] || cc.ubs().getElements()[k] != 0) bad = "an upper bound was lowered without an implication"; else gu[j] = 1; }
      }
      if (bad.empty() && !infc) for (int j : bin) { if (toUp[j] && lo[j] == 0 && !gl[j]) bad = "an implied lower bound is missing"; if (toLo[j] && up[j] == 1 && !gu[j]) bad = "an implied upper bound is missing"; }
      // violated implications between free columns give a cut
      if (bad.empty() && !infc) for (auto &m : b01) if (lo[m.a] == 0 && up[m.a] == 1 && lo[m.b] == 0 && up[m.b] == 1) {
        double ya = m.av ? x[m.a] : 1 - x[m.a], yb = m.bv ? 1 - x[m.b] : x[m.b]; if (ya + yb <= 1.0001) continue; bool f = false;
        for (int c = 0; c < cs.sizeRowCuts(); ++c) { const CoinPackedVector &v = cs.rowCutPtr(c)->row(); if (v.getNumElements() == 2 && ((v.getIndices()[0] == m.a && v.getIndices()[1] == m.b) || (v.getIndices()[0] == m.b && v.getIndices()[1] == m.a))) f = true; }
        if (!f) bad = "a violated implication gave no cut";
      }
    }
  }
  // rows built from implications
  if (bad.empty() && bin.size() == (size_t)n && n <= 7 && r.chance(25)) {
    Mip q; for (int j = 0; j < n; ++j) q.addCol(0, 1, true, 1); int m = r.in(1, 4);
    for (int i = 0; i < m; ++i) { std::vector<int> ii; std::vector<double> ee; double mn = 0; for (int j = 0; j < n; ++j) if (r.chance(50)) { ii.push_back(j); double e = r.chance(80) ? 1 : -1; ee.push_back(e); if (e < 0) mn -= 1; } if (ii.size() < 2) { ii = { 0, 1 }; ee = { 1, 1 }; mn = 0; } q.addRow(ii, ee, -1e30, r.chance(70) ? mn + 1 : mn + 2); }
    OsiClpSolverInterface s3; s3.messageHandler()->setLogLevel(0); q.load(s3);
    OsiSolverInterface *ns = t->analyze(s3, 1, r.chance(50) ? -1 : 0); log << " analyze; "; g_checked++;
    if (ns) {
      Oracle o(q); const CoinPackedMatrix *M = ns->getMatrixByRow();
      for (auto &x : o.pts) { bool ok = true; for (auto &mm : b01) if (!holds(x, mm)) ok = false; if (!ok) continue;
        for (int i = 0; i < ns->getNumRows() && bad.empty(); ++i) { double s = 0; for (CoinBigIndex k = M->getVectorStarts()[i]; k < M->getVectorStarts()[i] + M->getVectorLengths()[i]; ++k) s += M->getElements()[k] * x[M->getIndices()[k]]; if (s > ns->getRowUpper()[i] + 1e-9 || s < ns->getRowLower()[i] - 1e-9) { bad = "a row built from implications removes a point satisfying them all"; } }
        for (int j = 0; j < n && bad.empty(); ++j) if (x[j] < ns->getColLower()[j] || x[j] > ns->getColUpper()[j]) bad = "a bound built from implications removes a point satisfying them all"; }
      delete ns;
    }
  }
  delete t; g_case = log.str(); return bad;
}
int main(int argc, char **argv) { return cases_main(argc, argv); }
