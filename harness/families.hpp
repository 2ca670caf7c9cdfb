#ifndef VERIF_FAMILIES_HPP
#define VERIF_FAMILIES_HPP
#include "mip.hpp"
static const double INF = 1e30;
// ---------------------------------------------------------------- instance families
static double coef(Rng &r, int style) {
  switch (style) {
  case 0: return r.pick({1, 1, 2, 3, -1, -2, 4, 6});
  case 1: return r.pick({2, 4, 6, -2, -4, 3, 8, 10, -6});
  case 2: return r.pick({0.5, 1.5, 2.5, -0.5, 0.25, 3, 1, -1.25});
  case 3: return r.pick({1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13});
  case 5: return r.chance(70) ? r.pick({1, 2, 3, -2, 4}) : r.pick({1.41421356237, 0.57721566490, -2.71828182846, 0.123456789123, 3.14159265359});   // rows that no power of ten makes integer
  case 6: return r.pick({3, 7, 12345.75, -2500000.5, 1000003, 99991, 3e9, 2147483647});                                                        // rows whose scaled coefficients leave the int range
  default: return r.pick({0.1, 0.2, 0.3, 1.2, 12, -0.7, 5, 1e-3, 100});
  }
}
static Mip randomMip(Rng &r, bool allowCont, bool binaryOnly, int maxn = 6, int maxm = 4) {
  Mip p;
  int n = r.in(2, maxn), m = r.in(1, maxm), style = r.in(0, 4);
  for (int j = 0; j < n; ++j) {
    bool c = allowCont && r.chance(30);
    double l, u;
    if (c) {
      l = r.pick({0, 0, 0, -2, 1, -INF, 0.5}); u = l < -1e20 ? r.pick({0, 3, INF}) : l + r.pick({0, 1, 2.5, 4, INF});
      if (r.chance(15)) { l = r.pick({-3, -2.5}); u = -1; }
    } else if (binaryOnly || r.chance(60)) { l = 0; u = 1; if (r.chance(8)) l = u = r.in(0, 1); }
    else { l = r.in(-3, 2); u = l + r.in(0, 4); }
    p.addCol(l, u, !c, r.in(-9, 9));
  }
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el; double mn = 0, mx = 0;
    for (int j = 0; j < n; ++j) if (r.chance(65)) {
      double a = coef(r, style); if (r.chance(30)) a = -a;
      ind.push_back(j); el.push_back(a);
      double L = std::max(p.lo[j], -5.0), U = std::min(p.up[j], 6.0);
      mn += a > 0 ? a * L : a * U; mx += a > 0 ? a * U : a * L;
    }
    if (ind.empty()) { ind.push_back(r.in(0, n - 1)); el.push_back(1); mn = -3; mx = 3; }
    double t = mn + (mx - mn) * r.in(15, 85) / 100.0;
    t = r.chance(70) ? floor(t) + r.pick({0, 0, 0.5, 0.25}) : t;
    int k = r.in(0, 9);
    if (k < 5) p.addRow(ind, el, -INF, t);
    else if (k < 8) p.addRow(ind, el, t, INF);
    else if (k < 9) p.addRow(ind, el, t - r.in(1, 4), t);
    else p.addRow(ind, el, floor(t), floor(t));
  }
  return p;
}
// rows of mixed scale on the same columns, so that a generator that keeps working storage between rows is seen
static Mip mixedRows(Rng &r) {
  Mip p; int n = r.in(2, 5), m = r.in(2, 6);
  for (int j = 0; j < n; ++j) { int l = r.chance(60) ? 0 : r.in(-3, 2); p.addCol(l, l + r.in(1, 3), true, r.in(-9, 9)); }
  int z = r.chance(40) ? p.addCol(r.in(-2, 1), r.in(1, 4), false, r.in(-3, 3)) : -1; if (z >= 0 && r.chance(30)) p.lo[z] = p.up[z] = r.pick({1, 2, 0.5, 0, -1});
  for (int i = 0; i < m; ++i) {
    int style = r.pick({0, 1, 2, 4, 5, 5, 6}); std::vector<int> ind; std::vector<double> el; double mn = 0, mx = 0;
    for (int j = 0; j < p.n; ++j) if (r.chance(75)) { double a = coef(r, style); if (r.chance(30)) a = -a; ind.push_back(j); el.push_back(a); mn += a > 0 ? a * p.lo[j] : a * p.up[j]; mx += a > 0 ? a * p.up[j] : a * p.lo[j]; }
    if (ind.empty()) { ind = { 0 }; el = { 2 }; mn = 2 * p.lo[0]; mx = 2 * p.up[0]; }
    if (r.chance(40)) std::reverse(ind.begin(), ind.end()), std::reverse(el.begin(), el.end());
    double t = mn + (mx - mn) * r.in(35, 95) / 100.0; t = r.chance(70) ? floor(t) + r.pick({0, 0.5, 0.25}) : t;
    int k = r.in(0, 9); if (k < 5) p.addRow(ind, el, -INF, t); else if (k < 8) p.addRow(ind, el, mn + mx - t, INF); else if (k < 9) p.addRow(ind, el, mn, t); else p.addRow(ind, el, -INF, INF);
  }
  return p;
}
// denser conflict graphs and longer rows, up to 13 binaries
static Mip bigPacking(Rng &r, int lo = 7, int hi = 13) {
  Mip p; int n = r.in(lo, hi), m = r.in(n * 3 / 4, n * 5 / 4);
  for (int j = 0; j < n; ++j) p.addCol(0, 1, true, -r.in(3, 9));
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el; int want = r.in(2, r.chance(60) ? 3 : 5);
    for (int t = 0; t < 40 && (int)ind.size() < want; ++t) { int j = r.in(0, n - 1); if (std::find(ind.begin(), ind.end(), j) == ind.end()) ind.push_back(j); }
    el.assign(ind.size(), 1.0); if (r.chance(12)) el[0] = r.pick({2, -1, 0.5, 1});
    int k = r.in(0, 19); if (k == 0) p.addRow(ind, el, 1, 1); else if (k == 1) p.addRow(ind, el, -INF, 2); else if (k == 2) p.addRow(ind, el, 1, INF); else if (k == 3) p.addRow(ind, el, -INF, INF); else p.addRow(ind, el, -INF, 1);
  }
  return p;
}
static Mip setPacking(Rng &r, bool pure) {
  Mip p;
  int n = r.in(3, 9), m = r.in(2, 9);
  for (int j = 0; j < n; ++j) {
    bool special = !pure && r.chance(12);
    if (special && r.chance(40)) p.addCol(0, r.pick({1, 2, 5}), false, r.in(-9, -1));
    else if (special && r.chance(40)) p.addCol(0, r.in(1, 3), true, r.in(-9, -1));
    else p.addCol(0, 1, true, r.in(-9, -1));
    if (r.chance(5)) p.lo[j] = p.up[j];
  }
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el;
    int want = r.in(2, r.chance(60) ? 2 : 4);
    for (int t = 0; t < 30 && (int)ind.size() < std::min(want, n); ++t) { int j = r.in(0, n - 1); if (std::find(ind.begin(), ind.end(), j) == ind.end()) ind.push_back(j); }
    if (r.chance(70)) std::sort(ind.begin(), ind.end());
    for (size_t k = 0; k < ind.size(); ++k) el.push_back(!pure && r.chance(10) ? r.pick({2, -1, 0.5, 1.5, 3}) : 1.0);
    if (!pure && r.chance(12)) p.addRow(ind, el, r.pick({-INF, 0, 1}), r.pick({2, 1.5, 1, 3}));
    else if (!pure && r.chance(10)) p.addRow(ind, el, 1, INF);
    else if (r.chance(10)) p.addRow(ind, el, 1, 1);
    else p.addRow(ind, el, -INF, 1);
  }
  return p;
}
static Mip setCover(Rng &r) {
  Mip p; int n = r.in(3, 8), m = r.in(3, 8);
  for (int j = 0; j < n; ++j) { if (r.chance(6)) p.addCol(0, r.in(1, 2), r.chance(50), r.in(1, 9)); else p.addCol(0, 1, true, r.in(1, 9)); if (r.chance(4)) p.up[j] = 0; }
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el; int want = r.in(2, r.chance(65) ? 2 : 3);
    for (int t = 0; t < 30 && (int)ind.size() < want; ++t) { int j = r.in(0, n - 1); if (std::find(ind.begin(), ind.end(), j) == ind.end()) ind.push_back(j); }
    for (size_t k = 0; k < ind.size(); ++k) el.push_back(r.chance(6) ? r.pick({2, 0.5}) : 1.0);
    if (r.chance(8)) p.addRow(ind, el, -INF, r.pick({1, 2})); else p.addRow(ind, el, r.chance(6) ? 2 : 1, INF);
  }
  return p;
}
static Mip oddCycle(Rng &r, bool cover) {
  Mip p; int len = r.pick({3, 5, 5, 7}); int extra = r.in(0, 3); int n = len + extra;
  for (int j = 0; j < n; ++j) p.addCol(0, 1, true, cover ? r.in(5, 9) : -r.in(5, 9));
  for (int i = 0; i < len; ++i) {
    std::vector<int> ind = { i, (i + 1) % len }; std::vector<double> el = { 1, 1 };
    for (int e = 0; e < extra; ++e) if (r.chance(30)) { ind.push_back(len + e); el.push_back(1); }
    if (cover) p.addRow(ind, el, 1, r.chance(10) ? 1 : INF); else p.addRow(ind, el, r.chance(10) ? 1 : -INF, 1);
  }
  int more = r.in(0, 2);
  for (int t = 0; t < more; ++t) { std::vector<int> ind; std::vector<double> el; for (int j = 0; j < n; ++j) if (r.chance(40)) { ind.push_back(j); el.push_back(r.chance(80) ? 1 : 2); } if (ind.size()) p.addRow(ind, el, -INF, r.in(1, 3)); }
  return p;
}
// fixed columns in some rows; mostly the row sides move along, so that what is left of the row is as before
static void addFixed(Mip &p, Rng &r) {
  int k = r.in(1, 2);
  for (int t = 0; t < k; ++t) {
    double v = r.pick({1, 1, 1, 2, 0, -1}); bool in = r.chance(85); if (!in && r.chance(30)) v += 0.5;
    int j = p.addCol(v, v, in, r.in(-3, 3)); int prob = r.pick({30, 60, 100}); double c0 = r.pick({-1, -1, 1, 2, -2});
    for (int i = 0; i < p.m; ++i) if (r.chance(prob)) {
      double c = r.chance(75) ? c0 : r.pick({-1, 1, 2, -2, 3}); p.ind[i].push_back(j); p.el[i].push_back(c); bool mv = r.chance(85);
      if (p.rlo[i] > -INF && mv) p.rlo[i] += c * v; if (p.rup[i] < INF && mv) p.rup[i] += c * v;
      if (r.chance(20) && p.rlo[i] <= -INF) p.rlo[i] = p.rup[i] - r.in(1, 2);
    }
  }
}
static Mip knapsacks(Rng &r) {
  Mip p; int n = r.in(3, 9), m = r.in(1, 3);
  for (int j = 0; j < n; ++j) {
    if (r.chance(10)) p.addCol(r.in(-2, 1), r.in(1, 3), r.chance(50), r.in(-9, 9));
    else p.addCol(0, 1, true, -r.in(1, 30));
    if (r.chance(6)) p.lo[j] = p.up[j] = r.in(0, 1);
  }
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el; double s = 0;
    int eqv = r.chance(30) ? r.in(2, 9) : 0;
    for (int j = 0; j < n; ++j) if (r.chance(85)) { double a = eqv && r.chance(70) ? eqv : r.in(1, 20); if (r.chance(10)) a += 0.5; if (r.chance(20)) a = -a; ind.push_back(j); el.push_back(a); s += fabs(a); }
    if (ind.size() < 2) { ind = { 0, 1, 2 }; el = { 3, 4, 5 }; s = 12; }
    double neg = 0; for (double a : el) if (a < 0) neg += a;
    double b = neg + floor(s * r.in(20, 80) / 100.0);
    if (r.chance(20)) b += r.pick({0.5, 0.25});
    if (r.chance(70)) p.addRow(ind, el, -INF, b);
    else if (r.chance(50)) { for (double &a : el) a = -a; p.addRow(ind, el, -b, INF); }
    else if (r.chance(50)) p.addRow(ind, el, b - r.in(1, 6), b);
    else p.addRow(ind, el, floor(b), floor(b));
  }
  // gub rows
  if (r.chance(40)) { std::vector<int> ind; std::vector<double> el; for (int j = 0; j < n; ++j) if (p.isInt[j] && p.lo[j] == 0 && p.up[j] == 1 && r.chance(50)) { ind.push_back(j); el.push_back(1); } if (ind.size() > 1) p.addRow(ind, el, r.chance(30) ? 1 : -INF, 1); }
  return p;
}
// variable upper/lower bound structures for MIR
static Mip fixedCharge(Rng &r) {
  Mip p; int k = r.in(1, 3);
  std::vector<int> y, x;
  for (int t = 0; t < k; ++t) { x.push_back(p.addCol(0, r.chance(70) ? INF : r.in(2, 9), false, r.in(-3, 3))); y.push_back(p.addCol(0, r.chance(80) ? 1 : 2, true, r.in(0, 9))); }
  int z = p.addCol(0, r.in(1, 4), true, r.in(-9, 9));
  for (int t = 0; t < k; ++t) { double cap = r.in(2, 7) + r.pick({0, 0.5}); p.addRow({ x[t], y[t] }, { 1, -cap }, -INF, 0); if (r.chance(20)) p.addRow({ x[t], y[t] }, { 1, -1 }, 0, INF); }
  std::vector<int> ind; std::vector<double> el;
  for (int t = 0; t < k; ++t) { ind.push_back(x[t]); el.push_back(r.pick({1, 1, 2, -1})); }
  ind.push_back(z); el.push_back(r.pick({-2, -3, 2, 1.5, -2.5}));
  double b = r.in(-3, 9) + r.pick({0, 0.5, 0.3});
  int c = r.in(0, 3);
  p.addRow(ind, el, c == 0 ? b : (c == 2 ? b : (c == 3 ? b - 2 : -INF)), c == 0 ? INF : b);
  if (r.chance(50)) { std::vector<int> i2; std::vector<double> e2; for (int j = 0; j < p.n; ++j) if (r.chance(50)) { i2.push_back(j); e2.push_back(coef(r, 0)); } if (i2.size()) p.addRow(i2, e2, r.chance(50) ? -INF : 0, r.in(2, 8)); }
  return p;
}
// variable lower and upper bounds of all signs, shared binaries, chains of rows to aggregate
static Mip variableBounds(Rng &r) {
  Mip p; int k = r.in(1, 3), ny = r.in(1, 3); std::vector<int> y, x;
  for (int t = 0; t < ny; ++t) y.push_back(r.chance(75) ? p.addCol(0, 1, true, r.in(-2, 9)) : p.addCol(r.in(-1, 1), r.in(1, 3), true, r.in(-2, 9)));
  for (int t = 0; t < k; ++t) { double l = r.pick({0, 0, 0, 1, -2, -INF, 0.5}); x.push_back(p.addCol(l, r.chance(60) ? INF : std::max(l, -3.0) + r.in(1, 9), false, r.in(-3, 3))); }
  for (int t = 0; t < k; ++t) {
    int b = y[r.in(0, ny - 1)]; double cap = r.in(1, 7) + r.pick({0, 0.5}), sc = r.chance(75) ? 1 : r.pick({2, -1, 0.5, -2});
    if (r.chance(80)) { if (sc > 0) p.addRow({ x[t], b }, { sc, -sc * cap }, -INF, 0); else p.addRow({ x[t], b }, { sc, -sc * cap }, 0, INF); }
    b = y[r.in(0, ny - 1)]; double lb = r.pick({1, 0.5, 2, -1});
    if (r.chance(45)) { if (sc > 0) p.addRow({ x[t], b }, { sc, -sc * lb }, 0, INF); else p.addRow({ b, x[t] }, { -sc * lb, sc }, -INF, 0); }
  }
  int rows = r.in(1, 3);
  for (int i = 0; i < rows; ++i) {
    std::vector<int> ind; std::vector<double> el;
    for (int t = 0; t < k; ++t) if (r.chance(75)) { ind.push_back(x[t]); el.push_back(r.pick({1, 1, 2, -1, -1, 1.5})); }
    for (int t = 0; t < ny; ++t) if (r.chance(45)) { ind.push_back(y[t]); el.push_back(r.pick({1, -2, -3, 2, 1.5, -2.5, 4})); }
    if (ind.empty()) continue;
    double b = r.in(-3, 9) + r.pick({0, 0.5, 0.3}); int c = r.in(0, 5);
    p.addRow(ind, el, c <= 1 ? b : c == 2 ? b : c == 3 ? b - 2 : -INF, c <= 1 ? INF : b);
  }
  if (p.m == 0 || r.chance(10)) p.addRow({ x[0], y[0] }, { 1, 1 }, -INF, p.m == 0 ? 2 : INF);
  return p;
}
// knapsack rows with continuous or integer columns that have variable bounds
static Mip knapsackVub(Rng &r) {
  Mip p = knapsacks(r); int nb = p.n, k = r.in(1, 2);
  for (int t = 0; t < k; ++t) {
    int x = p.addCol(r.chance(70) ? 0 : r.pick({-1, 1}), r.in(2, 9), r.chance(25), r.in(-3, 3)), b = r.in(0, nb - 1); double cap = r.in(1, 6) + r.pick({0, 0, 0.5});
    double sc = r.chance(70) ? 1 : r.pick({2, -1});
    if (r.chance(50)) { if (r.chance(70)) p.addRow({ x, b }, { sc, -sc * cap }, sc > 0 ? -INF : 0, sc > 0 ? 0 : INF); else p.addRow({ b, x }, { sc * cap, -sc }, sc > 0 ? 0 : -INF, sc > 0 ? INF : 0); }
    else if (r.chance(60)) p.addRow({ x, b }, { sc, -sc }, sc > 0 ? 0 : -INF, sc > 0 ? INF : 0);
    else p.addRow({ x, b }, { sc, -sc * cap }, 0, 0);
    for (int i = 0; i < p.m; ++i) if (p.ind[i].size() > 2 && r.chance(60)) { p.ind[i].push_back(x); p.el[i].push_back(r.pick({1, 2, 3, -1, -2, 4})); if (p.rup[i] < 1e20) p.rup[i] += r.in(0, 3); break; }
  }
  return p;
}
// longer knapsacks, up to 13 binaries, with clustered weights
static Mip longKnapsack(Rng &r, int lo = 8, int hi = 13) {
  Mip p; int n = r.in(lo, hi), m = r.in(1, 2), w0 = r.in(3, 20);
  for (int j = 0; j < n; ++j) p.addCol(0, 1, true, -r.in(5, 30));
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el; double s = 0, neg = 0; int style = r.in(0, 2);
    for (int j = 0; j < n; ++j) if (r.chance(90)) { double a = style == 0 ? w0 + r.in(0, 2) : style == 1 ? r.in(1, 30) : r.chance(50) ? w0 : r.in(1, 2 * w0); if (r.chance(15)) a = -a; ind.push_back(j); el.push_back(a); s += fabs(a); if (a < 0) neg += a; }
    double b = neg + floor(s * r.in(30, 75) / 100.0); if (r.chance(80)) p.addRow(ind, el, -INF, b); else { for (double &a : el) a = -a; p.addRow(ind, el, -b, INF); }
  }
  if (r.chance(40)) { std::vector<int> ind; std::vector<double> el; for (int j = 0; j < n; ++j) if (r.chance(35)) { ind.push_back(j); el.push_back(1); } if (ind.size() > 1) p.addRow(ind, el, -INF, 1); }
  return p;
}
static Mip parityRows(Rng &r) { // all-integer rows, small coefficients: {0,1/2} separation
  Mip p; int n = r.in(3, 6), m = r.in(2, 6);
  for (int j = 0; j < n; ++j) { int l = r.chance(80) ? 0 : r.in(-2, 1); p.addCol(l, l + r.in(r.chance(10) ? 0 : 1, r.chance(60) ? 1 : 3), true, r.in(-9, 9)); }
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el; double mn = 0, mx = 0;
    for (int j = 0; j < n; ++j) if (r.chance(55)) { double a = r.pick({1, 1, 1, 2, 3, -1, -1, -2, 2, 4}); ind.push_back(j); el.push_back(a); mn += a > 0 ? a * p.lo[j] : a * p.up[j]; mx += a > 0 ? a * p.up[j] : a * p.lo[j]; }
    if (ind.size() < 2) { ind = { 0, 1 }; el = { 1, 1 }; mn = p.lo[0] + p.lo[1]; mx = p.up[0] + p.up[1]; }
    double t = floor(mn + (mx - mn) * r.in(25, 75) / 100.0);
    int k = r.in(0, 9);
    if (r.chance(6)) { p.addRow(ind, el, -INF, INF); continue; }
    if (r.chance(6)) { el[0] += 0.5; }
    if (r.chance(20)) { double g = r.pick({2, 3, 5}); for (double &a : el) a *= g; t = t * g + r.in(0, 1); }
    if (k < 6) p.addRow(ind, el, -INF, t); else if (k < 8) p.addRow(ind, el, t, INF); else if (k < 9) p.addRow(ind, el, t, t); else p.addRow(ind, el, t - 1, t + 1);
  }
  // some columns lose a bound; a row keeps the box finite
  if (r.chance(30)) for (int j = 0; j < n; ++j) if (r.chance(40)) { if (r.chance(60)) { double u = p.up[j]; p.addRow({ j, (j + 1) % n }, { 1, 1 }, -INF, u + p.lo[(j + 1) % n] + r.in(0, 1)); p.up[j] = INF; } else { double l = p.lo[j]; p.addRow({ j, (j + 1) % n }, { 1, 1 }, l + p.lo[(j + 1) % n] , INF); if (p.up[(j + 1) % n] < 1e20) p.lo[j] = -INF; } }
  return p;
}
static Mip dupRows(Rng &r) {
  Mip p; int n = r.in(3, 8), m = r.in(2, 6);
  for (int j = 0; j < n; ++j) { int l = r.chance(85) ? 0 : r.in(-1, 1); p.addCol(l, l + r.in(r.chance(10) ? 0 : 1, r.chance(75) ? 1 : 3), r.chance(92), r.in(-9, 9)); }
  for (int i = 0; i < m; ++i) {
    std::vector<int> ind; std::vector<double> el;
    if (i > 0 && r.chance(55)) {
      int s = r.in(0, i - 1); ind = p.ind[s]; el = p.el[s];
      if (r.chance(50)) { for (int j = 0; j < n; ++j) if (std::find(ind.begin(), ind.end(), j) == ind.end() && r.chance(35)) { ind.push_back(j); el.push_back(r.in(1, 2)); } }
      else if (r.chance(40) && ind.size() > 2) { ind.pop_back(); el.pop_back(); }
      if (r.chance(50)) { p.addRow(ind, el, p.rlo[s], p.rup[s]); continue; }
    } else for (int j = 0; j < n; ++j) if (r.chance(50)) { ind.push_back(j); el.push_back(r.chance(80) ? 1 : r.in(1, 4)); }
    if (ind.empty()) { ind = { 0 }; el = { 1 }; }
    double b = r.in(1, 4); int k = r.in(0, 9);
    if (k < 6) p.addRow(ind, el, -INF, b); else if (k < 8) p.addRow(ind, el, b, b); else if (k < 9) p.addRow(ind, el, r.in(0, (int)b), b); else p.addRow(ind, el, 0, INF);
  }
  return p;
}

#endif
