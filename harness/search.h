// shared by the search checks: weighted digraphs on up to 4 nodes and their shortest distances by definition
#pragma once
#include <sym.h>
#include <algorithm>
#include <limits>
#include <vector>
static const double kInf = std::numeric_limits<double>::infinity();
static const int kN = 4;
struct Weights { int n; bool has[kN][kN], r[kN][kN]; double w[kN][kN], d[kN][kN]; };
// topology: one bit per ordered pair
static inline void weights(Weights& g, int n, uint64_t topology, int64_t k) {
  g.n = n; int bit = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    g.has[i][j] = false; g.w[i][j] = kInf; if (i == j) continue;
    if ((topology >> bit++) & 1) { g.has[i][j] = true; g.w[i][j] = sym_double_grid(0, k, 2, "weight"); }
  }
}
static inline double low(double a, double b) { return std::min(a, b); }
static inline void shortest(Weights& g) {
  for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) { g.r[i][j] = i == j || g.has[i][j]; g.d[i][j] = i == j ? 0.0 : g.w[i][j]; }
  for (int k = 0; k < g.n; k++) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) {
    if (i == j || i == k || j == k || !g.r[i][k] || !g.r[k][j]) continue;
    const double through = g.d[i][k] + g.d[k][j]; g.d[i][j] = g.r[i][j] ? low(g.d[i][j], through) : through; g.r[i][j] = true;
  }
}
static inline bool reach(const Weights& g, int i, int j) { return g.r[i][j]; }
