// C10: histories of addCut / saveStuff / copy / generateCuts on CglStored against a plain list
#include "cases.hpp"
#include "CglStored.hpp"
struct C { double lb, ub; std::vector<int> i; std::vector<double> e; };
static std::string show(const C &c) { std::ostringstream o; o.precision(17); o << c.lb << " <="; for (size_t k = 0; k < c.i.size(); ++k) o << " " << c.e[k] << "*x" << c.i[k]; o << " <= " << c.ub; return o.str(); }
static bool same(const OsiRowCut &rc, const C &c) {
  const CoinPackedVector &v = rc.row();
  if (v.getNumElements() != (int)c.i.size() || rc.lb() != c.lb || rc.ub() != c.ub) return false;
  std::vector<std::pair<int, double>> a, b;
  for (size_t k = 0; k < c.i.size(); ++k) { a.push_back({ v.getIndices()[k], v.getElements()[k] }); b.push_back({ c.i[k], c.e[k] }); }
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b;
}
static C anyCut(Rng &r, int n) {
  C c; int k = r.in(1, n); std::vector<int> p; for (int j = 0; j < n; ++j) p.push_back(j);
  for (int j = n - 1; j > 0; --j) std::swap(p[j], p[r.in(0, j)]);
  for (int j = 0; j < k; ++j) { c.i.push_back(p[j]); double v = r.in(-8, 8) / 4.0; if (v == 0 && r.chance(80)) v = 1; c.e.push_back(v); }
  int t = r.in(0, 3); double b = r.in(-12, 12) / 4.0;
  c.lb = t == 0 || t == 2 ? b - r.in(0, 4) / 4.0 : -COIN_DBL_MAX; c.ub = t != 0 ? b : COIN_DBL_MAX; return c;
}
static std::string runCase(Rng &r) {
  std::ostringstream log; log.precision(17);
  int n = r.in(1, 6);
  OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0);
  { Mip p; for (int j = 0; j < n; ++j) p.addCol(-10, 10, true, 1); std::vector<int> i; std::vector<double> e; for (int j = 0; j < n; ++j) { i.push_back(j); e.push_back(1); } p.addRow(i, e, -100, 100); p.load(si); }
  CglStored *s = new CglStored(n); std::vector<C> ref; double req = 1e-5;
  bool hasBest = false, hasBounds = false; std::vector<double> best, lo, up; double obj = 0;
  int steps = r.in(3, 14); std::string bad;
  CglStored *other = nullptr;
  for (int st = 0; st < steps && bad.empty(); ++st) {
    int k = r.in(0, 9);
    if (k < 4) {
      int way = r.in(0, 3); C c = anyCut(r, n); log << "add" << way << " " << show(c) << "\n";
      OsiRowCut rc; rc.setRow((int)c.i.size(), c.i.data(), c.e.data()); rc.setLb(c.lb); rc.setUb(c.ub);
      if (way == 0) { OsiCuts o; int m = r.in(1, 3); o.insert(rc); ref.push_back(c); for (int t = 1; t < m; ++t) { C d = anyCut(r, n); OsiRowCut q; q.setRow((int)d.i.size(), d.i.data(), d.e.data()); q.setLb(d.lb); q.setUb(d.ub); o.insert(q); ref.push_back(d); log << "  and " << show(d) << "\n"; } s->addCut(o); }
      else if (way == 1) { s->addCut(rc); ref.push_back(c); }
      else if (way == 2) { CoinPackedVector v((int)c.i.size(), c.i.data(), c.e.data()); s->addCut(c.lb, c.ub, v); ref.push_back(c); }
      else { s->addCut(c.lb, c.ub, (int)c.i.size(), c.i.data(), c.e.data()); ref.push_back(c); }
    } else if (k == 4) { req = r.pick({ 1e-5, 0.25, 0.5, 1e-9, 1 }); s->setRequiredViolation(req); log << "required " << req << "\n"; }
    else if (k == 5) {
      hasBest = r.chance(70); hasBounds = true; obj = r.in(-50, 50); best.clear(); lo.clear(); up.clear();
      for (int j = 0; j < n; ++j) { best.push_back(r.in(-5, 5)); lo.push_back(r.in(-9, 0)); up.push_back(r.in(1, 9)); }
      s->saveStuff(obj, hasBest ? best.data() : nullptr, lo.data(), up.data()); log << "save best=" << hasBest << "\n";
    } else if (k == 6) {
      int w = r.in(0, 2); log << "copy " << w << "\n"; CglStored *t;
      if (w == 0) t = new CglStored(*s); else if (w == 1) t = dynamic_cast<CglStored *>(static_cast<CglCutGenerator *>(s)->clone()); else { t = new CglStored(r.in(0, 3)); C c = anyCut(r, n); t->addCut(c.lb, c.ub, (int)c.i.size(), c.i.data(), c.e.data()); *t = *s; }
      // keep either side; the other one is changed and destroyed
      CglStored *kill = s; if (r.chance(50)) { kill = t; t = s; }
      C c = anyCut(r, n); kill->addCut(c.lb, c.ub, (int)c.i.size(), c.i.data(), c.e.data()); kill->setRequiredViolation(7); if (hasBounds) { std::vector<double> z(n, 99.0); kill->saveStuff(1e9, z.data(), z.data(), z.data()); } delete kill; s = t;
      if (r.chance(30)) { CglStored &q = *s; *s = q; }
    } else {
      std::vector<double> x; for (int j = 0; j < n; ++j) x.push_back(r.in(-16, 16) / 8.0);
      si.setColSolution(x.data());
      OsiCuts cs; C pre = anyCut(r, n); OsiRowCut rp; rp.setRow((int)pre.i.size(), pre.i.data(), pre.e.data()); rp.setLb(pre.lb); rp.setUb(pre.ub); bool hasPre = r.chance(50); if (hasPre) cs.insert(rp);
      CglTreeInfo info; info.inTree = r.chance(50); info.pass = r.in(0, 3); info.options = r.in(0, 1) * 16;
      log << "generate at"; for (double v : x) log << " " << v; log << "\n";
      s->generateCuts(si, cs, info);
      size_t at = hasPre ? 1 : 0;
      if (hasPre && !same(cs.rowCut(0), pre)) bad = "a cut already in the collection changed";
      std::vector<int> used(cs.sizeRowCuts(), 0);
      for (auto &c : ref) {
        double v = 0; for (size_t t = 0; t < c.i.size(); ++t) v += c.e[t] * x[c.i[t]];
        double viol = std::max(v - c.ub, c.lb - v); if (c.ub >= COIN_DBL_MAX) viol = c.lb - v; if (c.lb <= -COIN_DBL_MAX) viol = std::max(v - c.ub, c.lb - v);
        if (viol > req + 1e-12) { bool f = false; for (int q = (int)at; q < cs.sizeRowCuts(); ++q) if (!used[q] && same(cs.rowCut(q), c)) { used[q] = 1; f = true; break; } if (!f) { bad = "a stored cut that is violated by more than required was not returned: " + show(c); break; } }
        g_checked++;
      }
      for (int q = (int)at; q < cs.sizeRowCuts() && bad.empty(); ++q) { bool f = false; for (auto &c : ref) if (same(cs.rowCut(q), c)) f = true; if (!f) bad = "a cut was returned that was never stored: " + cutText(cs.rowCut(q)); }
      if (cs.sizeColCuts()) bad = "column cuts appeared";
    }
    if (bad.empty()) {
      if (s->sizeRowCuts() != (int)ref.size()) bad = "number of stored cuts is wrong";
      else for (size_t q = 0; q < ref.size(); ++q) if (!same(*s->rowCutPointer((int)q), ref[q])) { bad = "stored cut " + std::to_string(q) + " is " + cutText(*s->rowCutPointer((int)q)) + " but was given as " + show(ref[q]); break; }
      if (s->getRequiredViolation() != req) bad = "required violation lost";
      if (hasBounds) for (int j = 0; j < n; ++j) if (s->tightLower()[j] != lo[j] || s->tightUpper()[j] != up[j]) bad = "saved bounds differ";
      if (hasBounds) { if (hasBest) { if (!s->bestSolution()) bad = "saved solution lost"; else for (int j = 0; j < n; ++j) if (s->bestSolution()[j] != best[j]) bad = "saved solution differs"; if (bad.empty() && s->bestObjective() != obj) bad = "saved objective differs"; } else if (s->bestSolution()) bad = "a solution appeared that was not saved"; }
    }
  }
  delete s; delete other;
  g_case = log.str(); return bad;
}
int main(int argc, char **argv) { return cases_main(argc, argv); }
