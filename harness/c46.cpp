// C46: the collision-free fraction of a path.
//@ srcs:
//@ bound: paths of 0..8 configurations of any value, any symmetric or asymmetric validity function; paths of 1..130 configurations (thorough 300) with any first rejected edge; std::vector, std::deque and a custom configuration type
//@ outside: longer paths; a validity function that throws
#include <sym.h>
#include <deque>
#include <vector>
#include <common_robotics_utilities/path_processing.hpp>
using namespace common_robotics_utilities;
struct Config { int id; };
template <class Container> static void run() {
  const int n = sym_choice(1 + sym_param("n", 8), "length"); Container path; for (int i = 0; i < n; i++) path.push_back(Config{i});
  bool valid[16]; const int edges = n > 1 ? n - 1 : (n == 1); for (int i = 0; i < edges; i++) valid[i] = sym_bool("edge_valid");
  int calls = 0, wrong = 0; const std::function<bool(const Config&, const Config&)> fn = [&](const Config& a, const Config& b) {
    const int e = n == 1 ? 0 : a.id; wrong += n == 1 ? (a.id != 0 || b.id != 0) : (b.id != a.id + 1); calls++; if (wrong || e >= edges) return false; return valid[e]; };
  const double percent = path_processing::ComputePercentCollisionFree<Config, Container>(path, fn);
  int accepted = 0, open = 1; for (int i = 0; i < edges; i++) { open &= valid[i]; accepted += open; }
  sym_assert(wrong == 0, "only consecutive pairs are checked, in path order"); sym_assert(calls <= edges, "no edge is checked twice");
  sym_assert(n == 0 ? percent == 1.0 : percent == static_cast<double>(accepted) / static_cast<double>(edges), "the accepted edges before the first rejected one, over all edges");
  sym_assert((percent == 1.0) == (accepted == edges), "exactly 1 when every edge is accepted"); sym_assert(percent >= 0.0 && percent <= 1.0, "a fraction");
  sym_observe(accepted); if (n == 0) sym_cover("empty"); if (n == 1) sym_cover("single"); if (n > 2 && accepted > 0 && accepted < edges) sym_cover("partial"); if (n > 2 && accepted == edges) sym_cover("free");
}
HARNESS(vector) { run<std::vector<Config>>(); }
HARNESS(deque) { run<std::deque<Config>>(); }
// long paths, where only the first rejected edge matters
HARNESS(long) {
  const int most = sym_param("n", 130); const int n = 1 + sym_choice(most, "length"); std::vector<Config> path; path.reserve(static_cast<size_t>(n)); for (int i = 0; i < n; i++) path.push_back(Config{i});
  const int edges = n > 1 ? n - 1 : 1; const int rejected = sym_i32("first rejected edge"); sym_assume(rejected >= 0 && rejected <= edges); int calls = 0, wrong = 0;
  const std::function<bool(const Config&, const Config&)> fn = [&](const Config& a, const Config& b) { wrong += n == 1 ? (a.id != 0 || b.id != 0) : (b.id != a.id + 1); calls++; return a.id != rejected || rejected == edges; };
  const double percent = path_processing::ComputePercentCollisionFree<Config, std::vector<Config>>(path, fn);
  const int first = static_cast<int>(sym_concretize(rejected)); sym_assert(wrong == 0 && calls <= edges, "each consecutive pair is checked at most once"); sym_assert(percent == static_cast<double>(first) / static_cast<double>(edges), "the accepted edges before the first rejected one, over all edges"); sym_assert((percent == 1.0) == (first == edges), "exactly 1 when every edge is accepted"); if (first == edges) sym_cover("free"); if (first > 60) sym_cover("far");
}
//@ job both h_long n=130 time=200 must=free,far
//@ job thorough h_long n=300 time=2000 must=free,far
//@ job both h_vector time=60 must=empty,single,partial,free
//@ job both h_deque n=5 time=60 must=empty,single,partial,free
//@ job thorough h_vector n=14 time=2000
