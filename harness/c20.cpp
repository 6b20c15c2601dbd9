// C20: the Hausdorff distance is the largest distance to the closest element.
//@ srcs:
//@ bound: sets of 0..3 elements each (thorough 4), every non-negative distance (any double including infinity) for each pair independently, by function and by matrix, serial and parallel with 1..3 requested threads, every granted number and up to 2 preemptions; every matrix shape up to 3 by 3
//@ outside: larger sets; NaN and negative distances
#include <sym.h>
#include <limits>
#include <stdexcept>
#include <vector>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
using namespace common_robotics_utilities;
namespace H = simple_hausdorff_distance;
static void run(bool par) {
  const int m = sym_choice(1 + sym_param("m", 3), "first size"), n = sym_choice(1 + sym_param("n", 3), "second size"); const bool matrix = sym_choice(2, "matrix"); Eigen::MatrixXd d(m, n);
  std::vector<int> a(m), b(n); for (int i = 0; i < m; i++) a[i] = i; for (int j = 0; j < n; j++) b[j] = 10 + j;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { const double x = sym_double("distance"); sym_assume(x >= 0); d(i, j) = x; }
  const auto p = par ? parallelism::DegreeOfParallelism(1 + sym_choice(sym_param("threads", 3), "threads")) : parallelism::DegreeOfParallelism::None();
  const std::function<double(const int&, const int&)> fn = [&](const int& x, const int& y) { sym_assert(x < 10 && y >= 10, "arguments in the order of the sets"); return d(x, y - 10); };
  double got = -1; bool threw = false;
  try { got = matrix ? H::ComputeDistance<int, int>(a, b, d, p) : H::ComputeDistance<int, int>(a, b, fn, p); } catch (const std::invalid_argument&) { threw = true; }
  sym_assert(threw == (m == 0 || n == 0), "exactly empty sets are refused"); if (threw) { sym_cover("refused"); return; }
  // the answer is attained: some element of the first set is exactly that far from its closest, and none is further
  int attained = 0, bounded = 1;
  for (int i = 0; i < m; i++) { int least = 1, some = 0, reach = 0; for (int j = 0; j < n; j++) { least &= d(i, j) >= got; some |= d(i, j) == got; reach |= d(i, j) <= got; } attained |= least & some; bounded &= reach; }
  sym_assert(bounded, "every element of the first set has one of the second within the distance"); sym_assert(attained, "and one of them has none closer"); sym_observe_d(got); sym_cover("computed");
}
HARNESS(serial) { run(false); }
HARNESS(parallel) { run(true); }
HARNESS(shape) {
  const int m = 1 + sym_choice(3, "first size"), n = 1 + sym_choice(3, "second size"), r = sym_choice(4, "rows"), c = sym_choice(4, "columns"); const bool par = sym_choice(2, "parallel"); const Eigen::MatrixXd d = Eigen::MatrixXd::Zero(r, c); const std::vector<int> a(m), b(n); bool threw = false;
  try { H::ComputeDistance<int, int>(a, b, d, par ? parallelism::DegreeOfParallelism(2) : parallelism::DegreeOfParallelism::None()); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (m != r || n != c), "exactly matrices of the wrong shape are refused");
}
//@ job both h_serial time=100 must=computed,refused
//@ job both h_parallel preempt=2 m=2 n=2 time=100 must=computed,refused
//@ job both h_parallel preempt=0 m=3 n=2 time=100 must=computed
//@ job both h_shape time=60
//@ job thorough h_serial m=4 n=3 time=3000
//@ job thorough h_parallel preempt=3 m=3 n=2 time=3000
