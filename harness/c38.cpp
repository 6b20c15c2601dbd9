// C38: k-means labels are a fixed point and impossible requests are refused.
//@ srcs:
//@ bound: 2..3 (thorough 4) elements and 1..3 clusters, every distance k/4, k = 0..15, between any centre (one per subset of the elements, so any averaging function) and any element, every choice of initial elements, runs that converge within 2 (thorough 3) centre updates, serial and parallel with 2 requested threads; preliminary clustering on 80 elements with concrete distances; runs of every length up to 22 updates and of 126 and 127 updates (24 and 130 elements, distances fixed but for the length)
//@ outside: more elements; runs that need more updates; averaging functions that are not functions of the members
//@ assume: each draw of std::uniform_int_distribution is any value of its range (the harness replaces the distribution by a choice)
#include <sym.h>
#include <atomic>
#include <random>
#include <stdexcept>
#include <vector>
static int g_draws, g_preset = -1;
namespace std { template <> template <> inline size_t uniform_int_distribution<size_t>::operator()(mt19937_64&, const param_type& p) {
  if (g_preset >= 0) { const size_t r = p.a() + (static_cast<size_t>(g_preset) + 7 * g_draws++) % (p.b() - p.a() + 1); return r; }
  sym_assume(++g_draws <= sym_param("draws", 3)); return p.a() + sym_choice(p.b() - p.a() + 1, "draw"); } }
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
using namespace common_robotics_utilities;
namespace K = simple_kmeans_clustering;
struct Pt { uint32_t members; };   // an element (one member) or the average of a set
static const int kMax = 4;
static void run(bool par) {
  const int n = sym_param("n", 3), k = sym_param("k", 2); double d[1 << kMax][kMax]; g_draws = 0; g_preset = -1;
  for (uint32_t m = 0; m < (1u << n); m++) for (int i = 0; i < n; i++) d[m][i] = sym_double_grid(0, 15, 2, "distance");
  std::vector<Pt> data; std::vector<double> w; for (int i = 0; i < n; i++) { data.push_back({1u << i}); w.push_back(i + 0.5); }
  const auto index = [](const Pt& p) { return __builtin_ctz(p.members); };
  const std::function<double(const Pt&, const Pt&)> dist = [&](const Pt& centre, const Pt& x) { return d[centre.members][index(x)]; };
  bool weights = true; std::atomic<int> averages{0};
  const auto average = [&](const std::vector<Pt>& c) { sym_assume(++averages <= (sym_param("updates", 2)) * k); Pt r{0}; for (const Pt& p : c) r.members |= p.members; return r; };
  const std::function<Pt(const std::vector<Pt>&)> avg = average;
  const std::function<Pt(const std::vector<Pt>&, const std::vector<double>&)> wavg = [&](const std::vector<Pt>& c, const std::vector<double>& cw) { if (c.size() != cw.size()) weights = false; else for (size_t i = 0; i < c.size(); i++) if (cw[i] != index(c[i]) + 0.5) weights = false; return average(c); };
  const auto p = par ? parallelism::DegreeOfParallelism(2) : parallelism::DegreeOfParallelism::None(); const bool weighted = sym_choice(2, "weighted"), preliminary = sym_choice(2, "preliminary");
  const std::vector<int32_t> labels = weighted ? K::ClusterWeighted<Pt>(data, w, dist, wavg, k, 42, preliminary, p) : K::Cluster<Pt>(data, dist, avg, k, 42, preliminary, p);
  sym_assert(weights, "members are averaged with their own weights"); sym_assert(labels.size() == data.size(), "one label per element");
  for (const int32_t l : labels) sym_assert(l >= 0 && l < k, "labels are in [0, clusters)");
  std::vector<uint32_t> centre(k, 0); for (int i = 0; i < n; i++) centre[labels[i]] |= 1u << i;
  if (k > 1) { int ok = 1; for (int i = 0; i < n; i++) for (int c = 0; c < k; c++) ok &= d[centre[labels[i]]][i] <= d[centre[c]][i]; sym_assert(ok, "no element is closer to the centre of another cluster than to its own"); }
  sym_cover("converged"); sym_observe(labels[0]);
}
HARNESS(serial) { run(false); }
HARNESS(parallel) { run(true); }
HARNESS(preliminary) {
  g_draws = 0; g_preset = static_cast<int>(sym_choice(3, "first draw")) * 11; const int n = 80; std::vector<double> data; for (int i = 0; i < n; i++) data.push_back(i < 40 ? i : 1000 + i);
  const std::function<double(const double&, const double&)> dist = [](const double& a, const double& b) { return a < b ? b - a : a - b; };
  const std::function<double(const std::vector<double>&)> avg = [](const std::vector<double>& c) { double s = 0; for (double x : c) s += x; return c.empty() ? 0.0 : s / c.size(); };
  const auto l = K::Cluster<double>(data, dist, avg, 2, 1, true, parallelism::DegreeOfParallelism::None()); sym_assert(l.size() == data.size(), "one label per element");
  std::vector<std::vector<double>> c(2); for (int i = 0; i < n; i++) { sym_assert(l[i] >= 0 && l[i] < 2, "labels are in [0, clusters)"); c[l[i]].push_back(data[i]); }
  const double m[2] = {avg(c[0]), avg(c[1])}; bool ok = true; for (int i = 0; i < n; i++) ok = ok && dist(m[l[i]], data[i]) <= dist(m[1 - l[i]], data[i]); sym_assert(ok, "no element is closer to the centre of another cluster than to its own"); sym_cover("converged");
}
// Runs that take any number of updates up to sym_param("n"): the cluster of element 0 gains one element per update until it has `limit` elements.
HARNESS(slow) {
  g_draws = 0; g_preset = 0; const int n = sym_param("n", 130), limit = static_cast<int>(sym_concretize(sym_range(sym_param("low", 2), n - 1, "limit")));
  std::vector<Pt> data; for (int i = 0; i < n; i++) data.push_back({static_cast<uint32_t>(i)});   // an element is its index, a centre 1000 + its first members' number (element 0's cluster) or 2000
  const std::function<double(const Pt&, const Pt&)> dist = [&](const Pt& c, const Pt& x) { const uint32_t size = c.members >= 2000 ? 0 : c.members >= 1000 ? c.members - 1000 : c.members == 0 ? 1 : 0; if (size == 0) return 1.0; return x.members <= size && x.members < static_cast<uint32_t>(limit) ? 0.0 : 2.0; };
  const std::function<Pt(const std::vector<Pt>&)> avg = [](const std::vector<Pt>& c) { bool first = false; for (const Pt& p : c) first = first || p.members == 0; return Pt{first ? static_cast<uint32_t>(1000 + c.size()) : 2000u}; };
  const auto labels = K::Cluster<Pt>(data, dist, avg, 2, 1, false, parallelism::DegreeOfParallelism::None()); sym_assert(labels.size() == data.size(), "one label per element");
  bool ok = true; for (int i = 0; i < n; i++) ok = ok && labels[i] >= 0 && labels[i] < 2 && (labels[i] == labels[0]) == (i < limit); sym_assert(ok, "however many updates it takes, the returned labels are a fixed point"); sym_cover("converged");
}
HARNESS(invalid) {
  g_draws = 0; g_preset = 0; const int n = sym_choice(4, "elements"); const int32_t k = sym_i32("clusters"); std::vector<double> data; for (int i = 0; i < n; i++) data.push_back(i); sym_assume(k > n || k <= 1);
  const std::function<double(const double&, const double&)> dist = [](const double& a, const double& b) { return a < b ? b - a : a - b; }; const std::function<double(const std::vector<double>&)> avg = [](const std::vector<double>&) { return 0.0; };
  bool threw = false; std::vector<int32_t> l; const bool pre = sym_choice(2, "preliminary"); try { l = K::Cluster<double>(data, dist, avg, k, 1, pre, parallelism::DegreeOfParallelism::None()); } catch (const std::exception&) { threw = true; }
  if (n == 0) sym_assert(!threw && l.empty(), "no data gives no labels"); else { sym_assert(threw == (k != 1), "requests that cannot be met are refused"); if (!threw) { bool zero = l.size() == data.size(); for (int32_t x : l) zero = zero && x == 0; sym_assert(zero, "one cluster holds everything"); } else sym_cover("refused"); }
}
//@ job both h_serial time=100 must=converged
//@ job both h_serial n=3 k=1 time=100 must=converged
//@ job both h_serial n=2 k=2 time=100 must=converged
//@ job thorough h_serial n=3 k=3 draws=4 updates=1 time=3000 must=converged
//@ job both h_parallel n=2 preempt=1 time=100 must=converged
//@ job both h_preliminary time=100 must=converged
//@ job both h_slow n=24 time=100 must=converged
//@ job both h_slow n=130 low=128 time=100 must=converged
//@ job both h_invalid cap=4096 time=60 must=refused
//@ job thorough h_serial n=4 k=2 updates=3 time=3000 must=converged
