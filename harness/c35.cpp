// C35: roadmaps contain exactly validated edges with the right direction and cost.
//@ srcs:
//@ bound: up to 3 states with every distance k/4 (k = 0..15) and every validity per ordered pair, symmetric or not, K 0..4, both directions, duplicates added or not, adding a state to a roadmap of 0..3 (thorough 4) nodes with any node limit, growing and building roadmaps of up to 3 nodes from any sample sequence (up to 4 samples), updating every 3-node topology, each edge once or twice; serial and 2 requested threads with every granted number
//@ outside: more states; negative, NaN and infinite distances; own nearest-neighbour providers
#include <sym.h>
#include <atomic>
#include <limits>
#include <stdexcept>
#include <string>
#include <common_robotics_utilities/simple_prm_planner.hpp>
using namespace common_robotics_utilities;
namespace P = simple_prm_planner;
using G = simple_graph::Graph<int>;
using Knn = P::LinearGraphKNNProvider<int, G>;
static const int kMax = 5;
struct Tables { int n; double d[kMax][kMax]; bool v[kMax][kMax]; bool symmetric; };
static void tables(Tables& t, int n, bool zero_only_self) {
  t.n = n; t.symmetric = sym_choice(2, "symmetric"); const int k = sym_param("k", 15);
  for (int i = 0; i < n; i++) { t.d[i][i] = 0; t.v[i][i] = true; }
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
    t.d[i][j] = sym_double_grid(zero_only_self, k, 2, "distance"); t.v[i][j] = sym_bool("valid"); if (t.symmetric) { t.d[j][i] = t.d[i][j]; t.v[j][i] = t.v[i][j]; } else { t.d[j][i] = sym_double_grid(zero_only_self, k, 2, "distance"); t.v[j][i] = sym_bool("valid"); }
  }
}
static int edge(const G& g, int64_t i, int64_t j, double& w) { int c = 0; for (const auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) if (e.GetToIndex() == j) { c++; w = e.GetWeight(); } return c; }
// how the state at node j (asking about the nodes 0..limit-1, except skip) regards node i: 1 certainly among its K nearest, -1 certainly not, 0 tied
template <class D> static void regard(int i, int limit, int skip, int64_t K, const D& key, int& in, int& out) { int less = 0, notmore = 0; for (int k = 0; k < limit; k++) { if (k == i || k == skip) continue; less += key(k) < key(i); notmore += key(k) <= key(i); } in = notmore < K; out = less >= K; }
static void pair(const Tables& t, const G& g, const std::vector<int>& s, int i, int j, int in, int out) {
  double wij = -1, wji = -1; const int cij = edge(g, i, j, wij), cji = edge(g, j, i, wji), a = s[i], b = s[j]; sym_assert(cij <= 1 && cji <= 1, "an edge is added once");
  sym_assert((!cij) | (t.v[a][b] & (wij == t.d[a][b])), "an edge goes in an accepted direction and has that direction's distance"); sym_assert((!cji) | (t.v[b][a] & (wji == t.d[b][a])), "an edge goes in an accepted direction and has that direction's distance");
  sym_assert((!in) | (((cij == 1) == t.v[a][b]) & ((cji == 1) == t.v[b][a])), "every accepted pair among the K nearest is present"); sym_assert((!out) | ((cij == 0) & (cji == 0)), "nothing beyond the K nearest is connected"); if (cij + cji == 1) sym_cover("oneway"); if (cij + cji == 2) sym_cover("both");
}
static std::function<double(const int&, const int&)> distance(const Tables& t) { return [&t](const int& a, const int& b) { return t.d[a][b]; }; }
static std::function<bool(const int32_t, const int&, const int&)> edges(const Tables& t) { return [&t](const int32_t th, const int& a, const int& b) { sym_assert(th >= 0 && th < 2, "thread numbers are in range"); return t.v[a][b]; }; }
static parallelism::DegreeOfParallelism threads() { return sym_param("par", 0) ? parallelism::DegreeOfParallelism(2) : parallelism::DegreeOfParallelism::None(); }
static void links(const G& g) { sym_assert(g.CheckGraphLinkage(), "the roadmap stays well linked"); }
HARNESS(add) {
  const int n = sym_param("n", 3); Tables t; tables(t, n + 1, false); std::vector<int> s; G g; for (int i = 0; i < n; i++) { g.AddNode(i); s.push_back(i); } if (n > 1) g.AddEdgeBetweenNodes(1, 0, 9.0);
  const int64_t K = sym_choice(n + 2, "K"), limit = sym_choice(n + 1, "limit"); const bool to = sym_choice(2, "direction"), dup = sym_choice(2, "duplicates"); const auto p = threads(); const Knn knn(distance(t), p);
  const int64_t r = P::AddNodeToRoadmap<int, G>(n, to ? P::NNDistanceDirection::ROADMAP_TO_NEW_STATE : P::NNDistanceDirection::NEW_STATE_TO_ROADMAP, g, knn, distance(t), edges(t), K, limit, p, t.symmetric, dup);
  const auto key = [&](int k) { return to ? t.d[k][n] : t.d[n][k]; }; int zero = 0; for (int i = 0; i < limit; i++) zero |= key(i) == 0.0; const bool expect_old = zero & (K > 0) & !dup;
  links(g); double w = 0; sym_assert(n < 2 || (edge(g, 1, 0, w) == 1 && w == 9.0), "existing edges stay"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != 1 || j != 0) sym_assert(edge(g, i, j, w) == 0, "nothing else is connected");
  if (g.Size() == n) { sym_assert(expect_old, "only a duplicate is left out"); sym_assert(r >= 0 && r < limit && key(r) == 0.0, "the duplicate is an existing node at distance zero"); sym_cover("duplicate"); return; }
  sym_assert(!expect_old && g.Size() == n + 1 && r == n && g.GetNodeImmutable(r).GetValueImmutable() == n, "the new node holds the state"); s.push_back(n);
  for (int i = 0; i < n; i++) { int in = 0, out = 1; if (i < limit) regard(i, limit, n, K, key, in, out); pair(t, g, s, i, n, in, out); }
}
HARNESS(grow) {
  const int n = sym_param("n", 2), samples = sym_param("samples", 3); Tables t; tables(t, n, false); G g; const int64_t K = 1 + sym_choice(2, "K"), target = sym_choice(4, "target"); const bool dup = sym_choice(2, "duplicates"); const auto p = threads(); const Knn knn(distance(t), p);
  bool ok[kMax]; for (int i = 0; i < n; i++) ok[i] = sym_choice(2, "state valid"); int drawn = 0, refused = 0, asked = 0; std::vector<int> accepted;
  const auto stats = P::GrowRoadMap<int, G>(g, [&](const int32_t) { drawn++; return static_cast<int>(sym_choice(n, "sample")); }, knn, distance(t), [&](const int32_t, const int& s) { if (ok[s]) accepted.push_back(s); else refused++; return ok[s]; }, edges(t), [&](const int64_t size) { sym_assert(size == g.Size(), "the current size is reported"); asked++; return size >= target || asked > samples; }, K, p, t.symmetric, dup);
  links(g); std::vector<int> s; for (int64_t i = 0; i < g.Size(); i++) s.push_back(g.GetNodeImmutable(i).GetValueImmutable());
  std::vector<int> expect; for (int a : accepted) { int zero = 0; for (int e : expect) zero |= t.d[e][a] == 0.0; if (dup || !zero) expect.push_back(a); } sym_assert(s == expect, "exactly the valid new samples become nodes");
  sym_assert(stats.at("total_samples") == drawn && stats.at("failed_samples") == refused && stats.at("successful_samples") == static_cast<double>(s.size()) && stats.at("duplicate_samples") == static_cast<double>(accepted.size() - s.size()), "the statistics count the samples"); sym_assert(asked == drawn + 1, "termination is asked before every sample");
  for (size_t j = 0; j < s.size(); j++) for (size_t i = 0; i < j; i++) { int in, out; regard(i, j, j, K, [&](int k) { return t.d[s[k]][s[j]]; }, in, out); pair(t, g, s, i, j, in, out); } if (s.size() > 1) sym_cover("grown");
}
HARNESS(build) {
  const int n = sym_param("n", 3); Tables t; tables(t, n, sym_param("distinct", 0)); const bool dup = sym_choice(2, "duplicates"), parallel_sampling = sym_choice(2, "parallel sampling"); const int64_t K = 1 + sym_choice(2, "K"), size = sym_param("size", 3); const int tries = sym_param("tries", 1); const auto p = threads(); const Knn knn(distance(t), parallelism::DegreeOfParallelism::None());
  std::atomic<int> next{0}; std::atomic<int> invalid{-1}; if (!sym_param("par", 0)) invalid = static_cast<int>(sym_choice(n + 1, "invalid state")) - 1;
  G g; bool threw = false; std::vector<int> s, expect; int drawn = 0;
  try { g = P::BuildRoadMap<int, G>(size, [&](const int32_t) { return next++ % n; }, knn, distance(t), [&](const int32_t, const int& x) { return x != invalid; }, edges(t), K, tries, p, parallel_sampling, t.symmetric, dup); } catch (const std::runtime_error&) { threw = true; }
  bool failed = false; for (int64_t i = 0; i < size; i++) { bool got = false; for (int k = 0; k < tries && !got; k++) { const int x = drawn++ % n; int zero = 0; for (int e : expect) zero |= t.d[e][x] == 0.0; if (x != invalid && (dup || !zero)) { expect.push_back(x); got = true; } } failed = failed || !got; }
  sym_assert(threw == failed, "exactly sampling without a valid state in the allowed tries fails"); if (threw) { sym_cover("failed"); return; }
  for (int64_t i = 0; i < g.Size(); i++) s.push_back(g.GetNodeImmutable(i).GetValueImmutable()); std::vector<int> sorted = s; std::sort(sorted.begin(), sorted.end()); std::sort(expect.begin(), expect.end()); sym_assert(sorted == expect, "every node holds a valid sample"); links(g);
  for (size_t j = 0; j < s.size(); j++) for (size_t i = 0; i < j; i++) { int in1, out1, in2, out2, o, x; const auto kj = [&](int k) { return t.d[s[k]][s[j]]; }; const auto ki = [&](int k) { return t.d[s[k]][s[i]]; }; regard(i, s.size(), j, K, kj, in1, x); regard(j, s.size(), i, K, ki, in2, x); regard(i, s.size(), -1, K + 1, kj, o, out1); regard(j, s.size(), -1, K + 1, ki, o, out2); pair(t, g, s, i, j, in1 | in2, out1 & out2); }
}
HARNESS(update) {
  Tables t; tables(t, 3, false); G g; std::vector<int> s = {0, 1, 2}; for (int i : s) g.AddNode(i); const uint64_t top = sym_choice(64, "topology"); int bit = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j && ((top >> bit++) & 1)) { const double w = sym_double("old weight"); g.AddEdgeBetweenNodes(i, j, w); if (sym_param("twice", 0)) { const double again = sym_double("other weight"); g.AddEdgeBetweenNodes(i, j, again); } }
  const bool bad = (top & 1) == 0 && sym_choice(2, "bad linkage"); if (bad) g.GetNodeMutable(0).AddOutEdge(simple_graph::GraphEdge(0, 1, 1.0)); const auto p = threads(); bool threw = false; const G before = g;
  try { P::UpdateRoadMapEdges<int, G>(g, edges(t), distance(t), p); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == !before.CheckGraphLinkage(), "exactly badly linked roadmaps are refused"); if (threw) { sym_cover("refused"); return; }
  bit = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) { double w = 0; const int c = edge(g, i, j, w), has = static_cast<int>((top >> bit++) & 1) * (1 + sym_param("twice", 0)); sym_assert(c == has, "no edge is added or removed"); int ok = 1, inn = 0; for (const auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) if (e.GetToIndex() == j) ok &= e.GetWeight() == w; for (const auto& e : g.GetNodeImmutable(j).GetInEdgesImmutable()) if (e.GetFromIndex() == i) { inn++; ok &= (!c) | (e.GetWeight() == w); } sym_assert(ok && inn == c, "both lists agree");
    sym_assert((!c) | (t.v[i][j] & (w == t.d[i][j])) | ((!t.v[i][j]) & (w == std::numeric_limits<double>::infinity())), "each edge has its current distance, or infinity when it is not valid"); } sym_cover("updated");
}
HARNESS(invalid) {
  const int64_t size = sym_i64("size"), K = sym_i64("K"); const int32_t tries = sym_i32("tries"); sym_assume((size < 0) | (K < 1) | (tries < 1) | (size == 0)); Tables t; t.n = 0; bool threw = false, empty = false; const Knn knn(distance(t), parallelism::DegreeOfParallelism::None());
  try { const G g = P::BuildRoadMap<int, G>(size, [](const int32_t) { return 0; }, knn, distance(t), [](const int32_t, const int&) { return true; }, edges(t), K, tries, parallelism::DegreeOfParallelism::None()); empty = g.Size() == 0; } catch (const std::runtime_error&) { threw = true; }
  sym_assert(threw == ((size < 0) | (K < 1) | (tries < 1)) && (threw || empty), "exactly impossible requests are refused"); bool none = false; const std::function<double(const int&, const int&)> nothing; try { Knn k(nothing, parallelism::DegreeOfParallelism::None()); } catch (const std::invalid_argument&) { none = true; } sym_assert(none, "a missing distance function is refused"); if (threw) sym_cover("refused");
}
//@ job both h_add n=2 time=100 must=duplicate,oneway,both
//@ job both h_add n=3 time=100 must=duplicate,oneway,both
//@ job both h_add n=2 par=1 preempt=0 time=100 must=duplicate,oneway,both
//@ job both h_grow time=100 must=grown,oneway
//@ job both h_build time=100 must=failed,both,oneway
//@ job both h_build n=2 size=2 par=1 preempt=0 time=100 must=both,oneway
//@ job both h_build n=3 size=2 tries=2 time=100 must=both,oneway
//@ job both h_update time=100 must=refused,updated
//@ job both h_update par=1 preempt=0 time=100 must=refused,updated
//@ job both h_update twice=1 time=100 must=refused,updated
//@ job both h_invalid time=60 must=refused
//@ job thorough h_add n=4 k=3 time=3000 must=duplicate
//@ job both h_build par=1 preempt=0 time=100 must=both
//@ job both h_grow n=3 samples=4 time=100 must=grown
//@ job thorough h_add n=4 par=1 time=3000
//@ job thorough h_grow n=3 samples=5 par=1 time=3000
//@ job thorough h_build n=3 size=3 tries=2 par=1 preempt=1 time=3000
