// Small random MIPs, exact-enough validity oracle, text (de)serialisation.
// The oracle never looks at generator internals: it enumerates the integer box and, when there are
// continuous columns, maximises the cut's violation with Clp for each integer assignment.
#ifndef VERIF_MIP_HPP
#define VERIF_MIP_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include "CoinPackedMatrix.hpp"
#include "OsiClpSolverInterface.hpp"
#include "OsiCuts.hpp"
#include "CglTreeInfo.hpp"

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int pct) { return in(0, 99) < pct; }
  double pick(std::initializer_list<double> v) { auto it = v.begin(); std::advance(it, in(0, (int)v.size() - 1)); return *it; }
};

struct Mip {
  int n = 0, m = 0;
  std::vector<double> lo, up, obj;
  std::vector<int> isInt;
  std::vector<std::vector<int>> ind;
  std::vector<std::vector<double>> el;
  std::vector<double> rlo, rup;
  // directives for the driver (free-form integers), kept so that a replay is self-contained
  std::vector<long> opt;

  int addCol(double l, double u, bool integer, double c) {
    lo.push_back(l); up.push_back(u); isInt.push_back(integer); obj.push_back(c); return n++;
  }
  void addRow(const std::vector<int> &i, const std::vector<double> &e, double l, double u) {
    ind.push_back(i); el.push_back(e); rlo.push_back(l); rup.push_back(u); ++m;
  }
  void load(OsiSolverInterface &si, int nrowsOnly = -1) const {
    int mm = nrowsOnly < 0 ? m : nrowsOnly;
    CoinPackedMatrix mat(false, 0, 0);
    mat.setDimensions(0, n);
    for (int r = 0; r < mm; ++r) {
      CoinPackedVector v;
      for (size_t k = 0; k < ind[r].size(); ++k) v.insert(ind[r][k], el[r][k]);
      mat.appendRow(v);
    }
    si.loadProblem(mat, lo.data(), up.data(), obj.data(), rlo.data(), rup.data());
    for (int j = 0; j < n; ++j) if (isInt[j]) si.setInteger(j); else si.setContinuous(j);
  }
  std::string text() const {
    std::ostringstream o; o.precision(17);
    o << n << " " << m << " " << opt.size() << "\n";
    for (long v : opt) o << v << " ";
    o << "\n";
    for (int j = 0; j < n; ++j) o << lo[j] << " " << up[j] << " " << obj[j] << " " << isInt[j] << "\n";
    for (int r = 0; r < m; ++r) {
      o << rlo[r] << " " << rup[r] << " " << ind[r].size();
      for (size_t k = 0; k < ind[r].size(); ++k) o << " " << ind[r][k] << " " << el[r][k];
      o << "\n";
    }
    return o.str();
  }
  static double num(std::istream &in) { std::string s; in >> s; return strtod(s.c_str(), nullptr); }
  bool parse(std::istream &in) {
    int nn, mm; size_t k;
    if (!(in >> nn >> mm >> k)) return false;
    opt.resize(k); for (auto &v : opt) in >> v;
    for (int j = 0; j < nn; ++j) { double a = num(in), b = num(in), c = num(in); int f; in >> f; addCol(a, b, f, c); }
    for (int r = 0; r < mm; ++r) {
      double a = num(in), b = num(in); int len; in >> len;
      std::vector<int> ii(len); std::vector<double> ee(len);
      for (int t = 0; t < len; ++t) { in >> ii[t]; ee[t] = num(in); }
      addRow(ii, ee, a, b);
    }
    return true;
  }
};

inline std::string cutText(const OsiRowCut &rc) {
  std::ostringstream o; o.precision(12);
  o << rc.lb() << " <=";
  const CoinPackedVector &v = rc.row();
  for (int k = 0; k < v.getNumElements(); ++k) o << " " << (v.getElements()[k] >= 0 ? "+" : "") << v.getElements()[k] << "*x" << v.getIndices()[k];
  o << " <= " << rc.ub();
  return o.str();
}

// Enumerate the integer assignments feasible for the integer box; calls f(x) with continuous at 0.
// Returns false when the box has more than `cap` points.
// infinite bounds of integer columns are first replaced by what the rows imply.
static void box(const Mip &p, std::vector<double> &lo, std::vector<double> &up) {
  lo = p.lo; up = p.up; bool inf = false;
  for (int j = 0; j < p.n; ++j) if (p.isInt[j] && (lo[j] < -1e20 || up[j] > 1e20)) inf = true;
  for (int it = 0; inf && it < 6; ++it) for (int r = 0; r < p.m; ++r) for (int s = 0; s < 2; ++s) {
    double rhs = s ? -p.rlo[r] : p.rup[r]; if (rhs > 1e20) continue;       // sum a x <= rhs
    for (size_t k = 0; k < p.ind[r].size(); ++k) {
      double mn = 0; for (size_t t = 0; t < p.ind[r].size(); ++t) if (t != k) { double a = s ? -p.el[r][t] : p.el[r][t]; int c = p.ind[r][t]; if (a == 0) continue; double b = a > 0 ? lo[c] : up[c]; if (fabs(b) > 1e20) { mn = -1e40; break; } mn += a * b; }
      if (mn < -1e30) continue;
      double a = s ? -p.el[r][k] : p.el[r][k]; int c = p.ind[r][k]; if (!p.isInt[c] || a == 0) continue;
      if (a > 0) { if (up[c] > 1e20) up[c] = floor((rhs - mn) / a + 1e-6); } else if (lo[c] < -1e20) lo[c] = ceil((rhs - mn) / a - 1e-6);
    }
  }
}
template <class F> bool enumerate(const Mip &q, double cap, F f) {
  std::vector<double> blo, bup; box(q, blo, bup);
  struct { const Mip &q; std::vector<double> &lo, &up; int n; const std::vector<int> &isInt; } p = { q, blo, bup, q.n, q.isInt };
  std::vector<int> ic;
  double tot = 1;
  for (int j = 0; j < p.n; ++j) if (p.isInt[j]) { ic.push_back(j); double w = floor(p.up[j] + 1e-9) - ceil(p.lo[j] - 1e-9) + 1; if (w <= 0) return true; tot *= w; if (tot > cap) return false; }
  std::vector<double> x(p.n, 0.0);
  for (int j : ic) x[j] = ceil(p.lo[j] - 1e-9);
  for (;;) {
    if (!f(x)) return true;
    size_t k = 0;
    for (; k < ic.size(); ++k) { int j = ic[k]; if (x[j] + 1 <= p.up[j] + 1e-9) { x[j] += 1; break; } x[j] = ceil(p.lo[j] - 1e-9); }
    if (k == ic.size()) return true;
  }
}

// All feasible points (pure integer) or, for mixed problems, LP-extreme completions per (assignment,direction).
struct Oracle {
  const Mip &p;
  bool mixed = false, ok = true, bb = false; // bb: too many points to list, cuts are checked by a depth-first search instead
  std::vector<std::vector<double>> pts; // feasible integer points (continuous part: some feasible completion)
  OsiClpSolverInterface lp;
  explicit Oracle(const Mip &pp, double cap = 20000) : p(pp) {
    for (int j = 0; j < p.n; ++j) if (!p.isInt[j]) mixed = true;
    if (mixed) { p.load(lp); lp.messageHandler()->setLogLevel(0); lp.setHintParam(OsiDoReducePrint, true); lp.setDblParam(OsiPrimalTolerance, 1e-9); }
    ok = enumerate(p, mixed ? std::min(cap, 600.0) : cap, [&](std::vector<double> &x) {
      if (!mixed) { if (feas(x)) pts.push_back(x); }
      else { for (int j = 0; j < p.n; ++j) if (p.isInt[j]) lp.setColBounds(j, x[j], x[j]);
        for (int j = 0; j < p.n; ++j) lp.setObjCoeff(j, 0.0);
        lp.initialSolve();
        if (lp.isProvenOptimal()) { std::vector<double> y(lp.getColSolution(), lp.getColSolution() + p.n); for (int j = 0; j < p.n; ++j) if (p.isInt[j]) y[j] = x[j]; if (clamp(y)) pts.push_back(y); } }
      return true; });
    if (!ok && p.n >= 18) { ok = bb = true; pts.clear(); }
  }
  // the continuous part moved into its bounds: does the point satisfy the rows (the LP itself allows small violations)
  bool clamp(std::vector<double> &y) const {
    for (int j = 0; j < p.n; ++j) y[j] = std::min(std::max(y[j], p.lo[j]), p.up[j]);
    for (int r = 0; r < p.m; ++r) {
      double s = 0, a = 1; for (size_t k = 0; k < p.ind[r].size(); ++k) { s += p.el[r][k] * y[p.ind[r][k]]; a = std::max(a, fabs(p.el[r][k])); }
      if (s < p.rlo[r] - 1e-8 * a || s > p.rup[r] + 1e-8 * a) return false;
    }
    return true;
  }
  bool feas(const std::vector<double> &x) const {
    for (int j = 0; j < p.n; ++j) if (x[j] < p.lo[j] - 1e-9 || x[j] > p.up[j] + 1e-9) return false;
    for (int r = 0; r < p.m; ++r) {
      double s = 0; for (size_t k = 0; k < p.ind[r].size(); ++k) s += p.el[r][k] * x[p.ind[r][k]];
      if (s < p.rlo[r] - 1e-9 || s > p.rup[r] + 1e-9) return false;
    }
    return true;
  }
  // depth-first search, with a node limit, for an integer point with c x > target (pure integer problems only)
  bool search(const std::vector<double> &c, double target, std::vector<double> &w) {
    if (mixed) return false;
    std::vector<double> L, U; box(p, L, U); for (int j = 0; j < p.n; ++j) if (U[j] - L[j] > 50) return false;
    std::vector<std::vector<std::pair<int, double>>> col(p.n); std::vector<double> mn(p.m, 0), mx(p.m, 0), load(p.n, 0);
    for (int r = 0; r < p.m; ++r) for (size_t k = 0; k < p.ind[r].size(); ++k) { int j = p.ind[r][k]; double a = p.el[r][k]; col[j].push_back({ r, a }); mn[r] += a > 0 ? a * L[j] : a * U[j]; mx[r] += a > 0 ? a * U[j] : a * L[j]; load[j] += (c[j] >= 0 ? 1 : -1) * a * (p.rup[r] < 1e20 ? 1 : -1); }
    double best = 0; for (int j = 0; j < p.n; ++j) best += c[j] > 0 ? c[j] * U[j] : c[j] * L[j];
    std::vector<int> ord; for (int j = 0; j < p.n; ++j) ord.push_back(j);
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { double x = fabs(c[a]) / (1 + fabs(load[a])), y = fabs(c[b]) / (1 + fabs(load[b])); return x != y ? x > y : a < b; });
    long nodes = 0; std::vector<double> x(p.n, 0.0);
    std::function<bool(size_t, double)> go = [&](size_t d, double bd) {
      if (++nodes > 60000 || bd <= target) return false;
      for (int r = 0; r < p.m; ++r) if (mn[r] > p.rup[r] + 1e-9 || mx[r] < p.rlo[r] - 1e-9) return false;
      if (d == ord.size()) { if (feas(x)) { w = x; return true; } return false; }
      int j = ord[d]; bool up = c[j] > 0 || (c[j] == 0 && load[j] < 0);
      for (double t = 0; t <= U[j] - L[j] + 1e-9; t += 1) {
        double val = up ? U[j] - t : L[j] + t; x[j] = val;
        for (auto &e : col[j]) { mn[e.first] += e.second * val - (e.second > 0 ? e.second * L[j] : e.second * U[j]); mx[e.first] += e.second * val - (e.second > 0 ? e.second * U[j] : e.second * L[j]); }
        bool f = go(d + 1, bd + c[j] * val - (c[j] > 0 ? c[j] * U[j] : c[j] * L[j]));
        for (auto &e : col[j]) { mn[e.first] -= e.second * val - (e.second > 0 ? e.second * L[j] : e.second * U[j]); mx[e.first] -= e.second * val - (e.second > 0 ? e.second * U[j] : e.second * L[j]); }
        if (f) return true;
      }
      return false; };
    return go(0, best);
  }
  static double lhs(const CoinPackedVector &v, const std::vector<double> &x) { double s = 0; for (int k = 0; k < v.getNumElements(); ++k) s += v.getElements()[k] * x[v.getIndices()[k]]; return s; }
  // returns true if violated; witness in w
  bool violates(const CoinPackedVector &v, double lb, double ub, double tol, std::vector<double> &w) {
    double sc = 1; for (int k = 0; k < v.getNumElements(); ++k) { sc = std::max(sc, fabs(v.getElements()[k])); if (v.getIndices()[k] < 0 || v.getIndices()[k] >= p.n) { w.assign(1, -1); return true; } if (!(fabs(v.getElements()[k]) < 1e100)) { w.assign(1, -2); return true; } }
    if (fabs(ub) < 1e20) sc = std::max(sc, fabs(ub)); if (fabs(lb) < 1e20) sc = std::max(sc, fabs(lb));
    tol *= sc;
    for (int dir = 0; bb && dir < 2; ++dir) {
      if (dir == 0 ? ub > 1e20 : lb < -1e20) continue;
      std::vector<double> c(p.n, 0.0); for (int k = 0; k < v.getNumElements(); ++k) c[v.getIndices()[k]] += dir == 0 ? v.getElements()[k] : -v.getElements()[k];
      double target = dir == 0 ? ub + tol : -(lb - tol);
      if (search(c, target, w)) return true;
    }
    for (auto &x : pts) {
      if (!mixed) { double s = lhs(v, x); if (s > ub + tol || s < lb - tol) { w = x; return true; } }
      else {
        bool touches = false; for (int k = 0; k < v.getNumElements(); ++k) if (!p.isInt[v.getIndices()[k]] && v.getElements()[k] != 0) touches = true;
        double s = lhs(v, x); if (s > ub + tol || s < lb - tol) { w = x; return true; }
        if (!touches) continue;
        for (int j = 0; j < p.n; ++j) { if (p.isInt[j]) lp.setColBounds(j, x[j], x[j]); lp.setObjCoeff(j, 0.0); }
        for (int dir = 0; dir < 2; ++dir) {
          if (dir == 0 ? ub > 1e20 : lb < -1e20) continue;
          for (int k = 0; k < v.getNumElements(); ++k) lp.setObjCoeff(v.getIndices()[k], dir == 0 ? -v.getElements()[k] : v.getElements()[k]);
          lp.initialSolve();
          std::vector<double> y(lp.getColSolution(), lp.getColSolution() + p.n);
          if (lp.isProvenOptimal() || lp.isProvenDualInfeasible()) {
            if (lp.isProvenDualInfeasible()) { w = y; return true; }
            for (int j = 0; j < p.n; ++j) if (p.isInt[j]) y[j] = x[j];
            if (!clamp(y)) continue;
            double t = lhs(v, y); if (t > ub + 10 * tol || t < lb - 10 * tol) { w = y; return true; }
          }
        }
      }
    }
    return false;
  }
};
#endif
