// C16: LAP::Validator::cleanCut / cleanCut2 on random cuts; oracle = limits and the box of the variables
#include "cases.hpp"
#include "CglLandPValidator.hpp"
#include "CglParam.hpp"
#include <cassert>
static std::string runCase(Rng &r) {
  int n = r.in(1, 6); Mip p;
  for (int j = 0; j < n; ++j) { double l = r.pick({ 0, 0, -1, -3, -2e4, -1e30, 5 }), u = l < -1e20 ? r.pick({ 0, 4, 1e30 }) : l + r.pick({ 0, 1, 1, 3, 2e4, 1e30 }); p.addCol(l, u, true, 1); }
  { std::vector<int> i = { 0 }; std::vector<double> e = { 1 }; p.addRow(i, e, -1e30, 1e30); }
  OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); p.load(si);
  bool orig = r.chance(40); std::vector<double> L = p.lo, U = p.up;
  if (orig) for (int j = 0; j < n; ++j) { if (L[j] > -1e20 && r.chance(50)) L[j] -= r.in(0, 3); if (U[j] < 1e20 && r.chance(50)) U[j] += r.in(0, 3); }
  std::vector<double> x; for (int j = 0; j < n; ++j) { double l = std::max(L[j], -5.0), u = std::min(U[j], 6.0); if (u < l) u = l; x.push_back(l + (u - l) * r.in(0, 8) / 8.0); }
  CglParam par; par.setEPS(r.pick({ 1e-6, 1e-3, 0.1, 1e-8 }));
  LAP::Validator v(r.pick({ 1, 1, 0.5, 0.34 }), r.pick({ 1e8, 1e3, 50, 1e5 }), r.pick({ 0, 0, 1e-3, 0.5 }), false, r.pick({ 1, 1, 10, 0.5 }));
  std::ostringstream log; log.precision(17); std::string bad; int counts[LAP::Validator::DummyEnd] = { 0 };
  int rounds = r.in(1, 4);
  for (int q = 0; q < rounds && bad.empty(); ++q) {
    std::vector<int> ind; std::vector<double> el; std::vector<int> perm; for (int j = 0; j < n; ++j) perm.push_back(j);
    for (int j = n - 1; j > 0; --j) std::swap(perm[j], perm[r.in(0, j)]);
    int k = r.in(r.chance(5) ? 0 : 1, n); double lhs = 0;
    for (int t = 0; t < k; ++t) { double a = r.pick({ 1, 2, -1, 3.5, -0.25, 100, -20 }); if (r.chance(30)) a *= r.pick({ 1e-3, 1e-6, 1e-7, 1e-9, 1e-2, 1e4 }); if (r.chance(4)) a = 0; if (r.chance(2)) a = 1e10; ind.push_back(perm[t]); el.push_back(a); lhs += a * x[perm[t]]; }
    double lb = lhs + r.pick({ -1, 0, 1e-4, 0.01, 0.6, 2, 5 });
    OsiRowCut rc; rc.setRow(k, ind.data(), el.data()); rc.setLb(lb); rc.setUb(COIN_DBL_MAX);
    bool second = r.chance(45); int ret;
    log << (second ? "cleanCut2 " : "cleanCut ") << cutText(rc) << "\n";
    ret = second ? v.cleanCut2(rc, x.data(), si, par, orig ? L.data() : nullptr, orig ? U.data() : nullptr) : r.chance(50) ? v(rc, x.data(), si, par, orig ? L.data() : nullptr, orig ? U.data() : nullptr) : v.cleanCut(rc, x.data(), si, par, orig ? L.data() : nullptr, orig ? U.data() : nullptr);
    log << " -> " << ret << " " << cutText(rc) << "\n"; g_checked++;
    if (ret < 0 || ret >= LAP::Validator::DummyEnd) { bad = "unknown return code"; break; }
    if (ret) counts[ret]++;
    for (int c = 1; c < LAP::Validator::DummyEnd; ++c) if (v.numRejected(c) != counts[c]) { bad = "number of rejections for reason " + std::to_string(c) + " is " + std::to_string(v.numRejected(c)) + ", reported " + std::to_string(counts[c]); }
    if (v.numRejected(0)) bad = "accepted cuts counted as rejected";
    if (!bad.empty()) break;
    double viol0 = std::max(0.0, lb - lhs);
    const double *bl = orig ? L.data() : p.lo.data(), *bu = orig ? U.data() : p.up.data();
    if (ret == 0) {
      const CoinPackedVector &w = rc.row(); int m = w.getNumElements(); double s = 0, sm = 1e100, bg = 0;
      for (int t = 0; t < m; ++t) { double a = w.getElements()[t]; s += a * x[w.getIndices()[t]]; if (fabs(a) > 1e-20) { sm = std::min(sm, fabs(a)); bg = std::max(bg, fabs(a)); } for (int z = t + 1; z < m; ++z) if (w.getIndices()[z] == w.getIndices()[t]) bad = "accepted cut mentions a column twice"; if (w.getIndices()[t] < 0 || w.getIndices()[t] >= n) bad = "accepted cut mentions an unknown column"; }
      if (m == 0) bad = "accepted an empty cut";
      if (rc.ub() < 1e50) bad = "accepted cut has got an upper bound";
      if (std::max(0.0, rc.lb() - s) < v.getMinViolation() - 1e-12 * (1 + fabs(rc.lb()))) bad = "accepted a cut that is not violated enough";
      if (m > (int)(v.getMaxFillIn() * n)) bad = "accepted a cut that is too dense";
      if (bg > v.getMaxRatio() * sm * (1 + 1e-9)) bad = "accepted a cut with too large a ratio of coefficients";
      if (!second && sm <= par.getEPS()) bad = "accepted a cut with a coefficient within the tolerance";
      // weaker: scale so that the kept coefficients agree, then the rest must be covered by the change of the right-hand side
      double sc = 0; std::vector<double> d(n, 0.0), o(n, 0.0); for (size_t t = 0; t < ind.size(); ++t) o[ind[t]] = el[t]; for (int t = 0; t < m; ++t) d[w.getIndices()[t]] = w.getElements()[t];
      double big = 0; for (int j = 0; j < n; ++j) if (fabs(d[j]) > big && o[j] != 0) { big = fabs(d[j]); sc = d[j] / o[j]; }
      if (!(sc > 0)) { bool zero = true; for (double a : el) if (a != 0) zero = false; if (!zero && bad.empty()) bad = "accepted cut is unrelated to the cut given"; }
      else {
        double need = rc.lb() - sc * lb; // need + sum (sc*o - d) x  <= 0 over the box
        double mx = need, mag = fabs(rc.lb()) + sc * fabs(lb);
        for (int j = 0; j < n; ++j) { double c = sc * o[j] - d[j]; if (fabs(c) < 1e-11 * fabs(d[j])) c = 0; if (c == 0) continue; mag += fabs(c); double b = c > 0 ? bu[j] : bl[j]; if (fabs(b) > 1e20) { mx = 1e30; break; } mx += c * b; mag += fabs(c * b); }
        if (mx > 1e-10 * (1 + mag)) { if (bad.empty()) bad = "accepted cut is stronger than the cut given for some point within the bounds"; }
      }
    } else if (ret == LAP::Validator::SmallViolation) {
      // small before, or small after the removal of small coefficients
      const CoinPackedVector &w = rc.row(); double s = 0; for (int t = 0; t < w.getNumElements(); ++t) s += w.getElements()[t] * x[w.getIndices()[t]];
      if (viol0 >= v.getMinViolation() + 1e-9 && std::max(0.0, rc.lb() - s) >= v.getMinViolation() + 1e-9) bad = "rejected as not violated enough, but it is";
    } else if (ret == LAP::Validator::DenseCut) { int nz = 0; for (double a : el) if (a != 0 || second) nz++; if (nz <= (int)(v.getMaxFillIn() * n)) bad = "rejected as too dense, but it is not"; }
    else if (ret == LAP::Validator::SmallCoefficient) { bool f = false; double bg = 0; for (double a : el) bg = std::max(bg, fabs(a)); bg = std::max(bg, fabs(lb) + 1e-9); for (size_t t = 0; t < el.size(); ++t) { double a = fabs(el[t]); if (a == 0) continue; if (second ? a < bg / v.getMaxRatio() * (1 + 1e-9) : a <= par.getEPS()) { double b = el[t] > 0 ? bu[ind[t]] : bl[ind[t]]; if (fabs(b) >= 1000) f = true; } } if (!f) bad = "rejected for a small coefficient that could be removed"; }
    else if (ret == LAP::Validator::EmptyCut) { bool all = true; double bg = fabs(lb) + 1e-9; for (double a : el) bg = std::max(bg, fabs(a)); for (double a : el) if (second ? fabs(a) >= bg / v.getMaxRatio() * (1 + 1e-9) : fabs(a) > par.getEPS()) all = false; if (!all) bad = "rejected as empty, but it is not"; }
    else if (ret == LAP::Validator::BigDynamic) { double sm = 1e100, bg = 0; for (double a : el) { a = fabs(a); if (second ? a > 1e-20 : a > par.getEPS()) { sm = std::min(sm, a); bg = std::max(bg, a); } } if (second) bg = std::max(bg, fabs(lb)); if (second ? bg <= 1e9 : bg <= v.getMaxRatio() * sm * (1 - 1e-9)) bad = "rejected for its dynamic, which is within the limit"; }
  }
  g_case = log.str(); return bad;
}
int main(int argc, char **argv) { return cases_main(argc, argv); }
