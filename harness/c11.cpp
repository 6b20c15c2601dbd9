// C11: parallel algorithms are free of data races and agree with serial ones.
//@ srcs:
//@ bound: nearest neighbours over 0..4 items, Hausdorff distances and distance matrices over 1..3 items, clustering of 3 or 4 items (both rules), k-means of 3 items, roadmaps of 3 nodes (adding, building, updating): every distance k/4, k = 0..15 and every validity; 2 and 3 requested threads, every granted number, up to 1 (thorough 2) preemptions; all accesses of the workers checked for races
//@ outside: more items and threads; NaN distances; callables that are not thread-safe
#include <sym.h>
#include <algorithm>
#include <atomic>
#include <random>
#include <vector>
static std::vector<uint64_t> g_draws; static size_t g_next; static bool g_record;
namespace std { template <> template <> inline size_t uniform_int_distribution<size_t>::operator()(mt19937_64&, const param_type& p) { if (g_record) { sym_assume(g_draws.size() < 4); g_draws.push_back(sym_choice(p.b() - p.a() + 1, "draw")); return p.a() + g_draws.back(); } const size_t r = g_next < g_draws.size() ? g_draws[g_next++] : 0; return p.a() + r % (p.b() - p.a() + 1); } }
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism;
static const int kMax = 4; static double d[kMax][kMax]; static bool v[kMax][kMax]; static int g_n;
static void distances(int n, bool symmetric) { g_n = n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { d[i][j] = 0; if (i == j || (symmetric && j < i)) continue; d[i][j] = sym_double_grid(0, sym_param("k", 15), 2, "distance"); } if (symmetric) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) d[i][j] = d[j][i]; }
static DegreeOfParallelism threads() { return DegreeOfParallelism(sym_param("threads", 0) ? sym_param("threads", 0) : 2 + sym_choice(2, "threads")); }
static const std::function<double(const int&, const int&)> dist = [](const int& a, const int& b) { return d[a][b]; };
static std::vector<int> items(int n) { std::vector<int> r; for (int i = 0; i < n; i++) r.push_back(i); return r; }
HARNESS(knn) {
  namespace K = simple_knearest_neighbors; const int n = sym_choice(5, "items"); std::vector<double> x; for (int i = 0; i < n; i++) { const double y = sym_double_grid(0, sym_param("k", 15), 2, "distance"); x.push_back(y); } const int64_t k = sym_choice(n + 1, "K"); const auto p = threads();
  const std::function<double(const int&, const int&)> f = [&](const int& i, const int&) { return x[i]; }; auto a = K::GetKNearestNeighbors<int, int>(items(n), 0, f, k, DegreeOfParallelism::None()), b = K::GetKNearestNeighbors<int, int>(items(n), 0, f, k, p);
  sym_assert(a.size() == b.size(), "as many neighbours as in serial"); double sa[5], sb[5]; for (size_t i = 0; i < a.size(); i++) { sa[i] = a[i].Distance(); sb[i] = b[i].Distance(); }
  for (double* s : {sa, sb}) for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j + 1 < a.size(); j++) { const double lo = std::min(s[j], s[j + 1]), hi = std::max(s[j], s[j + 1]); s[j] = lo; s[j + 1] = hi; }
  int ok = 1; for (size_t i = 0; i < a.size(); i++) ok &= sa[i] == sb[i]; sym_assert(ok, "the same neighbour distances as in serial"); sym_cover("done");
}
HARNESS(hausdorff) {
  namespace H = simple_hausdorff_distance; const int n = 1 + sym_choice(3, "first"), m = 1 + sym_choice(3, "second"); distances(3, false); const auto p = threads(); Eigen::MatrixXd mat(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) mat(i, j) = d[i][j]; const bool by_matrix = sym_choice(2, "matrix");
  const double a = by_matrix ? H::ComputeDistance<int, int>(items(n), items(m), mat, DegreeOfParallelism::None()) : H::ComputeDistance<int, int>(items(n), items(m), dist, DegreeOfParallelism::None());
  const double b = by_matrix ? H::ComputeDistance<int, int>(items(n), items(m), mat, p) : H::ComputeDistance<int, int>(items(n), items(m), dist, p); sym_assert(a == b, "the same Hausdorff distance as in serial"); sym_cover("done");
}
HARNESS(matrix) {
  const int n = 1 + sym_choice(3, "items"); distances(3, false); const auto p = threads(); const bool two = sym_choice(2, "two sets"); const int m = two ? 1 + sym_choice(2, "second") : n;
  const Eigen::MatrixXd a = two ? math::BuildPairwiseDistanceMatrix<int, int>(items(n), items(m), dist, DegreeOfParallelism::None()) : math::BuildPairwiseDistanceMatrix<int>(items(n), dist, DegreeOfParallelism::None());
  const Eigen::MatrixXd b = two ? math::BuildPairwiseDistanceMatrix<int, int>(items(n), items(m), dist, p) : math::BuildPairwiseDistanceMatrix<int>(items(n), dist, p);
  sym_assert(a.rows() == n && a.cols() == m && b.rows() == n && b.cols() == m, "the same shape as in serial"); int ok = 1; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) ok &= a(i, j) == b(i, j); sym_assert(ok, "the same matrix as in serial"); sym_cover("done");
}
HARNESS(clusters) {
  namespace H = simple_hierarchical_clustering; const int n = sym_param("n", 3); distances(n, true); const auto p = threads(); const auto s = sym_choice(2, "single link") ? H::ClusterStrategy::SINGLE_LINK : H::ClusterStrategy::COMPLETE_LINK; const double bound = sym_double_grid(0, sym_param("k", 15), 2, "bound");
  Eigen::MatrixXd mat(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mat(i, j) = d[i][j]; const auto a = H::IndexClusterWithDistanceMatrix(mat, bound, s, DegreeOfParallelism::None()), b = H::IndexClusterWithDistanceMatrix(mat, bound, s, p); sym_assert(a.Clusters() == b.Clusters(), "the same clusters as in serial"); sym_cover("done");
}
HARNESS(kmeans) {
  namespace K = simple_kmeans_clustering; const int n = sym_param("n", 3); double dc[1 << kMax][kMax]; for (uint32_t m = 0; m < (1u << n); m++) for (int i = 0; i < n; i++) dc[m][i] = sym_double_grid(0, sym_param("k", 7), 2, "distance");
  std::vector<uint32_t> data; for (int i = 0; i < n; i++) data.push_back(1u << i); std::atomic<int> rounds{0}; const auto p = threads();
  const std::function<double(const uint32_t&, const uint32_t&)> f = [&](const uint32_t& c, const uint32_t& x) { return dc[c][__builtin_ctz(x)]; }; const std::function<uint32_t(const std::vector<uint32_t>&)> avg = [&](const std::vector<uint32_t>& c) { sym_assume(++rounds <= 2 * sym_param("rounds", 2)); uint32_t r = 0; for (uint32_t x : c) r |= x; return r; };
  g_draws.clear(); g_record = true; const auto a = K::Cluster<uint32_t>(data, f, avg, 2, 42, false, DegreeOfParallelism::None()); g_record = false; g_next = 0; rounds = 0; const auto b = K::Cluster<uint32_t>(data, f, avg, 2, 42, false, p); sym_assert(a == b, "the same labels as in serial"); sym_cover("done");
}
namespace P = simple_prm_planner; using G = simple_graph::Graph<int>; using Knn = P::LinearGraphKNNProvider<int, G>;
static bool same(const G& a, const G& b) {
  if (a.Size() != b.Size()) return false; int ok = 1;
  for (int64_t i = 0; i < a.Size(); i++) { const auto &x = a.GetNodeImmutable(i), &y = b.GetNodeImmutable(i); if (x.GetValueImmutable() != y.GetValueImmutable() || x.GetInEdgesImmutable().size() != y.GetInEdgesImmutable().size() || x.GetOutEdgesImmutable().size() != y.GetOutEdgesImmutable().size()) return false;
    for (size_t k = 0; k < x.GetInEdgesImmutable().size(); k++) ok &= x.GetInEdgesImmutable()[k] == y.GetInEdgesImmutable()[k]; for (size_t k = 0; k < x.GetOutEdgesImmutable().size(); k++) ok &= x.GetOutEdgesImmutable()[k] == y.GetOutEdgesImmutable()[k]; }
  return ok;
}
HARNESS(roadmap) {
  const int n = 3; const int what = sym_param("what", 0); const bool symmetric = sym_choice(2, "symmetric"); distances(n + (what == 0), symmetric); for (int i = 0; i < g_n; i++) for (int j = 0; j < g_n; j++) { v[i][j] = true; if (i != j && !(symmetric && j < i)) v[i][j] = sym_bool("valid"); } if (symmetric) for (int i = 0; i < g_n; i++) for (int j = 0; j < i; j++) v[i][j] = v[j][i];
  const std::function<bool(const int32_t, const int&, const int&)> valid = [](const int32_t, const int& a, const int& b) { return v[a][b]; }; const auto p = threads(); const int64_t K = 1 + sym_choice(2, "K"); G r[2]; const Knn knn(dist, DegreeOfParallelism::None());
  for (int run = 0; run < 2; run++) {
    const auto q = run ? p : DegreeOfParallelism::None(); G& g = r[run];
    if (what == 1) { int next = 0; g = P::BuildRoadMap<int, G>(n, [&](const int32_t) { return next++; }, knn, dist, [](const int32_t, const int&) { return true; }, valid, K, 1, q, false, symmetric, true); continue; }
    for (int i = 0; i < n; i++) g.AddNode(i); if (what == 0) { P::AddNodeToRoadmap<int, G>(n, P::NNDistanceDirection::ROADMAP_TO_NEW_STATE, g, knn, dist, valid, K, n, q, symmetric, true); continue; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) g.AddEdgeBetweenNodes(i, j, 9.0); P::UpdateRoadMapEdges<int, G>(g, valid, dist, q);
  }
  sym_assert(same(r[0], r[1]), "the same roadmap as in serial"); sym_cover("done");
}
//@ job both h_knn preempt=1 time=100 must=done
//@ job both h_hausdorff preempt=1 time=100 must=done
//@ job both h_matrix preempt=1 time=100 must=done
//@ job both h_clusters preempt=1 time=100 must=done
//@ job both h_clusters n=4 threads=2 preempt=0 time=100 must=done
//@ job both h_kmeans n=2 threads=2 preempt=1 time=100 must=done
//@ job both h_kmeans threads=2 preempt=1 time=100 must=done
//@ job both h_roadmap what=0 threads=2 preempt=1 time=100 must=done
//@ job both h_roadmap what=1 preempt=1 time=100 must=done
//@ job both h_roadmap what=2 threads=2 preempt=1 time=100 must=done
//@ job thorough h_clusters n=4 preempt=1 time=3000
//@ job thorough h_roadmap what=1 preempt=2 time=3000
//@ job thorough h_hausdorff preempt=2 time=3000
//@ job thorough h_knn preempt=2 time=3000
