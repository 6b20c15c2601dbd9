// C37: hierarchical clustering partitions the data as its linkage rule says.
//@ srcs:
//@ bound: 1..5 elements, every symmetric distance k/4 with k = 0..63 (5 elements: 0..3, thorough 0..15; thorough 6 elements: 0..1) for each pair independently (metric or not), every bound -1/4..16, single and complete link, by distance function and by matrix, element and index results, serial and parallel with 1..3 requested threads and every granted number
//@ outside: more elements; asymmetric, negative, NaN and infinite distances
#include <sym.h>
#include <stdexcept>
#include <vector>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
using namespace common_robotics_utilities;
namespace H = simple_hierarchical_clustering;
static const int kMax = 6;
static void verdict(const std::vector<std::vector<int64_t>>& clusters, int n, const double (&d)[kMax][kMax], double bound, bool single) {
  int of[kMax]; for (int i = 0; i < n; i++) of[i] = -1; bool once = true, filled = true;
  for (size_t c = 0; c < clusters.size(); c++) { filled = filled && !clusters[c].empty(); for (const int64_t i : clusters[c]) { once = once && i >= 0 && i < n && of[i] == -1; if (!once) break; of[i] = c; } }
  for (int i = 0; i < n; i++) once = once && of[i] >= 0;
  sym_assert(once && filled, "every element is in exactly one non-empty cluster");
  if (single) {   // connected components of "distance at most the bound"
    int reach[kMax][kMax]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) reach[i][j] = (i == j) | (d[i][j] <= bound);
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) reach[i][j] |= reach[i][k] & reach[k][j];
    int ok = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ok &= reach[i][j] == (of[i] == of[j]); sym_assert(ok, "single link: the connected components within the bound");
  } else {
    int ok = 1; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (of[i] == of[j]) ok &= d[i][j] <= bound; sym_assert(ok, "complete link: no cluster holds a pair further apart than the bound");
    for (size_t a = 0; a < clusters.size(); a++) for (size_t b = 0; b < a; b++) { int fits = 1; for (const int64_t i : clusters[a]) for (const int64_t j : clusters[b]) fits &= d[i][j] <= bound; sym_assert(!fits, "complete link: no two clusters could still be merged"); }
  }
  if (clusters.size() == 1 && n > 2) sym_cover("one"); if (clusters.size() > 1 && clusters.size() < static_cast<size_t>(n)) sym_cover("some"); sym_observe(clusters.size());
}
static void run(bool par) {
  const int n = sym_param("n", 0) ? sym_param("n", 0) : 1 + sym_choice(3, "elements"); double d[kMax][kMax]; for (int i = 0; i < n; i++) { d[i][i] = 0; for (int j = 0; j < i; j++) d[i][j] = d[j][i] = sym_double_grid(0, sym_param("grid", 63), 2, "distance"); }
  const double bound = sym_double_grid(-1, sym_param("grid", 63) + 1, 2, "bound"); const bool single = sym_choice(2, "single link"); const int form = sym_param("form", -1) >= 0 ? sym_param("form", 0) : sym_choice(4, "form");
  const auto s = single ? H::ClusterStrategy::SINGLE_LINK : H::ClusterStrategy::COMPLETE_LINK; const auto p = par ? parallelism::DegreeOfParallelism(1 + sym_choice(sym_param("threads", 3), "threads")) : parallelism::DegreeOfParallelism::None();
  std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(100 + i); Eigen::MatrixXd m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = d[i][j];
  const std::function<double(const int&, const int&)> fn = [&](const int& a, const int& b) { return d[a - 100][b - 100]; };
  if (form == 0) { verdict(H::IndexClusterWithDistanceMatrix(m, bound, s, p).Clusters(), n, d, bound, single); return; }
  if (form == 1) { verdict(H::IndexCluster<int>(v, fn, bound, s, p).Clusters(), n, d, bound, single); return; }
  const auto r = form == 2 ? H::Cluster<int>(v, fn, bound, s, p) : H::ClusterWithDistanceMatrix<int>(v, m, bound, s, p);
  std::vector<std::vector<int64_t>> idx; for (const auto& c : r.Clusters()) { idx.emplace_back(); for (int x : c) idx.back().push_back(x - 100); } verdict(idx, n, d, bound, single);
}
HARNESS(serial) { run(false); }
HARNESS(parallel) { run(true); }
HARNESS(invalid) {
  const int r = sym_choice(4, "rows"), c = sym_choice(4, "columns"), n = sym_choice(4, "elements"); const Eigen::MatrixXd m = Eigen::MatrixXd::Zero(r, c); std::vector<int> v(n); bool t1 = false, t2 = false; const auto none = parallelism::DegreeOfParallelism::None();
  try { H::IndexClusterWithDistanceMatrix(m, 1, H::ClusterStrategy::SINGLE_LINK, none); } catch (const std::invalid_argument&) { t1 = true; } sym_assert(t1 == (r != c || r == 0), "exactly empty and non-square matrices are refused");
  try { H::ClusterWithDistanceMatrix<int>(v, m, 1, H::ClusterStrategy::SINGLE_LINK, none); } catch (const std::invalid_argument&) { t2 = true; } sym_assert(t2 == (r != n || c != n || n == 0), "exactly empty data and matrices of another size are refused");
}
//@ job both h_serial time=100 load_ite=1 store_ite=1 must=one,some
//@ job both h_serial n=4 form=2 load_ite=1 store_ite=1 time=100 must=one,some
//@ job both h_serial n=5 form=0 grid=3 load_ite=1 store_ite=1 time=200 must=one,some
//@ job both h_parallel n=3 threads=3 preempt=0 time=100 must=one,some
//@ job both h_parallel n=4 threads=2 preempt=0 form=0 time=100 must=one,some
//@ job both h_invalid time=30
//@ job thorough h_serial n=4 form=0 time=1000
//@ job thorough h_serial n=5 form=0 grid=15 load_ite=1 store_ite=1 time=3000
//@ job thorough h_serial n=6 form=0 grid=1 load_ite=1 store_ite=1 time=3000
//@ job thorough h_parallel n=4 form=2 preempt=1 time=3000
