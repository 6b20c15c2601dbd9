// C19: nearest-neighbour queries return the K smallest distances.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs:
//@ bound: 0..4 (thorough 6) items with any finite or infinite distances (every order, including ties), every sub-range of them, every K (any 64-bit value), serial, and parallel with 1..3 requested threads, every granted number and up to 2 preemptions; vectors and the graph adapter
//@ outside: more items; NaN distances
#include <sym.h>
#include <stdexcept>
#include <vector>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
using namespace common_robotics_utilities;
namespace K = simple_knearest_neighbors;
static const int kMax = 8;
static void verdict(const std::vector<K::IndexAndDistance>& r, const std::vector<double>& d, size_t lo, size_t hi, int64_t k) {
  const size_t n = hi - lo, want = static_cast<uint64_t>(k) < n ? k : n; sym_assert(r.size() == want, "min(K, size of the range) results");
  uint64_t seen = 0; double worst = 0; bool in = true;
  for (size_t i = 0; i < r.size(); i++) {
    const int64_t x = r[i].Index(); in = in && x >= static_cast<int64_t>(lo) && x < static_cast<int64_t>(hi); if (!in) break;
    in = in && !((seen >> x) & 1); seen |= 1ull << x; sym_assert(r[i].Distance() == d[x], "the distance the function gives"); worst = i == 0 || r[i].Distance() > worst ? r[i].Distance() : worst;
    if (i > 0 && n > want) sym_assert(r[i - 1].Distance() <= r[i].Distance(), "in ascending order");
  }
  sym_assert(in, "distinct indices from the range"); int ok = 1; for (size_t x = lo; x < hi; x++) if (!((seen >> x) & 1) && want > 0) ok &= d[x] >= worst; sym_assert(ok, "no other item is closer");
  sym_observe(r.size()); if (want > 0 && want < n) sym_cover("chosen"); if (want == n && n > 1) sym_cover("all");
}
static void distances(std::vector<double>& d, int n) { for (int i = 0; i < n; i++) { const double x = sym_double("distance"); sym_assume(x == x); d.push_back(x); } }
HARNESS(serial) {
  const int n = sym_choice(1 + sym_param("n", 4), "items"); std::vector<double> d; distances(d, n); std::vector<int> items; for (int i = 0; i < n; i++) items.push_back(i + 10);
  const std::function<double(const int&, const char&)> fn = [&](const int& i, const char& c) { sym_assert(c == 'q', "the query value is passed"); return d[i - 10]; };
  size_t lo = 0, hi = n; const int mode = sym_param("mode", 0); if (mode) { lo = sym_choice(n + 1, "from"); hi = lo + sym_choice(n - lo + 1, "length"); }
  const int64_t k = sym_i64("K"); sym_assume(k >= 0); const size_t kk = k <= n ? sym_concretize(k) : k;
  if (mode == 0) verdict(K::GetKNearestNeighborsSerial<int, char>(items, 'q', fn, kk), d, lo, hi, k); else verdict(K::GetKNearestNeighborsInRange<int, char>(items, lo, hi, 'q', fn, kk, parallelism::DegreeOfParallelism::None()), d, lo, hi, k);
}
HARNESS(parallel) {
  const int n = sym_choice(1 + sym_param("n", 3), "items"), threads = 1 + sym_choice(sym_param("threads", 3), "threads"); std::vector<double> d; distances(d, n); std::vector<int> items; for (int i = 0; i < n; i++) items.push_back(i + 10);
  const std::function<double(const int&, const char&)> fn = [&](const int& i, const char&) { return d[i - 10]; };
  size_t lo = 0, hi = n; if (sym_param("mode", 0)) { lo = sym_choice(n + 1, "from"); hi = lo + sym_choice(n - lo + 1, "length"); }
  const int64_t k = sym_choice(n + 2, "K"); const auto p = parallelism::DegreeOfParallelism(threads); const bool direct = sym_param("direct", 0);
  const auto r = direct ? K::GetKNearestNeighborsInRangeParallel<int, char>(items, lo, hi, 'q', fn, k, p) : K::GetKNearestNeighborsInRange<int, char>(items, lo, hi, 'q', fn, k, p);
  verdict(r, d, lo, hi, k);
}
HARNESS(graph) {
  using G = simple_graph::Graph<int>; G g; const int n = sym_choice(4, "nodes"); std::vector<double> d; distances(d, n); for (int i = 0; i < n; i++) g.AddNode(i);
  const int64_t m = sym_i64("max size"); bool threw = false; const bool whole = sym_choice(2, "whole"); const bool over = sym_choice(2, "overlay");
  const std::function<double(const G::NodeType&, const char&)> fn = [&](const G::NodeType& x, const char&) { return d[x.GetValueImmutable()]; };
  const int64_t k = sym_choice(3, "K");
  const auto ask = [&](const auto& graph) {
    using A = simple_graph::GraphKNNAdapter<std::decay_t<decltype(graph)>>;
    try {
      const int64_t mm = m >= 0 && m <= n ? sym_concretize(m) : m; const A a = whole ? A(graph) : A(graph, mm); sym_assert(a.size() == static_cast<size_t>(whole ? n : mm), "the adapter's size");
      verdict(K::GetKNearestNeighbors<G::NodeType, char, A>(a, 'q', fn, k, parallelism::DegreeOfParallelism::None()), d, 0, a.size(), k);
    } catch (const std::invalid_argument&) { threw = true; }
    sym_assert(threw == (!whole && (m < 0 || m > n)), "exactly sizes outside the graph are refused");
  };
  if (over) { simple_graph::NonOwningGraphOverlay<int, G> o(g); ask(o); } else ask(g);
}
HARNESS(invalid) {
  const int n = sym_choice(3, "items"); std::vector<int> items(n); const std::function<double(const int&, const char&)> fn = [&](const int&, const char&) { return 1.0; };
  const size_t lo = sym_u64("from"), hi = sym_u64("to"); const int64_t k = sym_i64("K"); const bool bad = hi < lo || hi > static_cast<size_t>(n) || k < 0; if (!bad) return; bool threw = false;
  const bool par = sym_choice(2, "parallel");
  try { if (par) K::GetKNearestNeighborsInRange<int, char>(items, lo, hi, 'q', fn, k, parallelism::DegreeOfParallelism(2)); else K::GetKNearestNeighborsInRange<int, char>(items, lo, hi, 'q', fn, k, parallelism::DegreeOfParallelism::None()); } catch (const std::invalid_argument&) { threw = true; }
  sym_assert(threw, "bad ranges and a negative K are refused"); sym_cover("refused");
}
//@ job both h_serial n=4 time=100 must=chosen,all
//@ job both h_serial n=3 mode=1 time=100 must=chosen,all
//@ job both h_parallel n=4 preempt=0 time=100 must=chosen,all
//@ job both h_parallel n=3 preempt=2 time=100 must=chosen,all
//@ job both h_parallel n=3 mode=1 direct=1 preempt=0 time=100 must=chosen,all
//@ job both h_graph time=100 must=chosen,all
//@ job both h_invalid time=60 must=refused
//@ job thorough h_serial n=6 time=3000
//@ job thorough h_parallel n=5 threads=4 preempt=1 time=3000
