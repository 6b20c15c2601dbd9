// C21: dynamic time warping cost is the minimum over alignments.
//@ srcs:
//@ bound: sequences of length 1..4 each (thorough 1..5), every non-negative pair distance on a grid (k/4, k = 0..63), every pair independently; evaluator objects used twice
//@ outside: longer sequences; NaN and negative distances; distances where floating-point addition rounds
#include <sym.h>
#include <algorithm>
#include <vector>
#include <functional>
#include <common_robotics_utilities/simple_dtw.hpp>
namespace D = common_robotics_utilities::simple_dtw;
struct Cost { double d[5][5]; };
static double best(const Cost& c, int i, int j, int m, int n) {   // minimum over monotone alignments from (i, j) to the ends, by definition
  if (i == m - 1 && j == n - 1) return c.d[i][j];
  double r = 1e300;
  if (i + 1 < m) r = std::min(r, best(c, i + 1, j, m, n));
  if (j + 1 < n) r = std::min(r, best(c, i, j + 1, m, n));
  if (i + 1 < m && j + 1 < n) r = std::min(r, best(c, i + 1, j + 1, m, n));
  return c.d[i][j] + r;
}
static void fill(Cost& c, int m, int n) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) c.d[i][j] = sym_double_grid(0, sym_param("k", 63), 2, "distance"); }
HARNESS(dtw) {
  const int m = 1 + static_cast<int>(sym_choice(sym_param("m", 3), "first length")), n = 1 + static_cast<int>(sym_choice(sym_param("n", 3), "second length"));
  Cost c; fill(c, m, n);
  std::vector<int> a(m), b(n); for (int i = 0; i < m; i++) a[i] = i; for (int j = 0; j < n; j++) b[j] = j;
  const std::function<double(const int&, const int&)> fn = [&](const int& i, const int& j) { return c.d[i][j]; };
  const double want = best(c, 0, 0, m, n);
  if (sym_bool("reused evaluator")) {
    D::SimpleDTW<int, int> e(1, 2);
    std::vector<int> first{0};
    e.EvaluateWarpingCost(first, first, fn);
    sym_assert(e.EvaluateWarpingCost(a, b, fn) == want, "an evaluator used before gives the minimum over alignments");
  } else {
    const double got = D::EvaluateWarpingCost<int, int>(a, b, fn);
    sym_assert(got == want, "the warping cost is the minimum over alignments"); sym_observe_d(got);
  }
  sym_cover("compared");
}
HARNESS(empty) {
  const size_t m = sym_choice(2, "m"), n = sym_choice(2, "n"); std::vector<int> a(m), b(n); bool threw = false;
  const std::function<double(const int&, const int&)> fn = [](const int&, const int&) { return 1.0; };
  try { D::EvaluateWarpingCost<int, int>(a, b, fn); } catch (const std::invalid_argument&) { threw = true; }
  sym_assert(threw == (m == 0 || n == 0), "exactly the empty sequences are refused");
}
//@ job both h_dtw m=4 n=4 time=200 must=compared
//@ job both h_empty time=20
//@ job thorough h_dtw m=5 n=5 k=255 time=3000 must=compared
