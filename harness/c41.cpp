// C41: pairwise distance matrices hold every pair's distance.
//@ srcs:
//@ bound: sets of 0..4 elements (two sets: 0..3 each), any double for each pair independently, serial and parallel with 1..3 requested threads, every granted number and up to 2 preemptions
//@ outside: larger sets; asymmetric distance functions for one set (the upper triangle is mirrored)
#include <sym.h>
#include <atomic>
#include <functional>
#include <vector>
#include <common_robotics_utilities/math.hpp>
using namespace common_robotics_utilities;
static uint64_t bits(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
static parallelism::DegreeOfParallelism degree(bool par) { return par ? parallelism::DegreeOfParallelism(1 + sym_choice(sym_param("threads", 3), "threads")) : parallelism::DegreeOfParallelism::None(); }
static void one(bool par) {
  const int n = sym_choice(1 + sym_param("n", 4), "size"); double d[8][8]; std::vector<int> v(n); std::vector<std::atomic<int>> calls(64); std::atomic<bool> bad{false};
  for (int i = 0; i < n; i++) { v[i] = i + 5; d[i][i] = 0; for (int j = 0; j < i; j++) d[i][j] = d[j][i] = sym_double("distance"); }
  const std::function<double(const int&, const int&)> fn = [&](const int& a, const int& b) { if (a < 5 || b < 5) bad = true; return d[a - 5][b - 5]; };
  const auto p = degree(par); const Eigen::MatrixXd m = math::BuildPairwiseDistanceMatrix<int>(v, fn, p);
  sym_assert(m.rows() == n && m.cols() == n, "one row and column per element"); int ok = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ok &= bits(m(i, j)) == bits(d[i][j]); sym_assert(ok && !bad, "every entry is the pair's distance"); sym_observe(n); if (n > 1) sym_cover("pairs");
}
static void two(bool par) {
  const int n = sym_choice(1 + sym_param("n", 3), "rows"), k = sym_choice(1 + sym_param("k", 3), "columns"); double d[8][8]; std::vector<int> v(n); std::vector<char> w(k);
  for (int i = 0; i < n; i++) v[i] = i + 5; for (int j = 0; j < k; j++) w[j] = 'a' + j; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) d[i][j] = sym_double("distance");
  const std::function<double(const int&, const char&)> fn = [&](const int& a, const char& b) { return d[a - 5][b - 'a']; };
  const auto p = degree(par); const Eigen::MatrixXd m = math::BuildPairwiseDistanceMatrix<int, char>(v, w, fn, p);
  sym_assert(m.rows() == n && m.cols() == k, "one row per element of the first set, one column per element of the second"); int ok = 1; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) ok &= bits(m(i, j)) == bits(d[i][j]); sym_assert(ok, "every entry is the pair's distance"); sym_observe(n); if (n > 0 && k > 0) sym_cover("pairs");
}
HARNESS(one) { one(false); }
HARNESS(one_parallel) { one(true); }
HARNESS(two) { two(false); }
HARNESS(two_parallel) { two(true); }
//@ job both h_one n=5 time=60 must=pairs
//@ job both h_one_parallel n=4 preempt=2 time=100 must=pairs
//@ job both h_two time=60 must=pairs
//@ job both h_two_parallel preempt=2 time=100 must=pairs
//@ job thorough h_one_parallel n=6 threads=5 preempt=2 time=3000
