// C36: roadmap queries return cheapest valid paths and leave the roadmap alone.
//@ srcs:
//@ bound: roadmaps of 1 or 2 nodes with 1 or 2 starts and goals (at most 4 states, a start or goal may be a roadmap state), every distance k/4, k = 1..7 (asymmetric with two roadmap nodes: 1..3) obeying the triangle inequality, every edge valid or not in the queried directions (symmetric, or with the reverse direction valid or not), K 1 or all, duplicates added or not, queue duplicates limited or not, overlay on and off, eager (roadmap holds the valid edges) and lazy (roadmap holds every edge with unrelated weights)
//@ outside: more states; distances that break the triangle inequality (the distance is the search heuristic); parallel queries
#include "search.h"
#include <stdexcept>
#include <common_robotics_utilities/simple_prm_planner.hpp>
using namespace common_robotics_utilities;
namespace P = simple_prm_planner;
using G = simple_graph::Graph<int>; using Knn = P::LinearGraphKNNProvider<int, G>; using V = std::vector<int>; using R = simple_astar_search::AstarResult<int, V>; using O = simple_graph::NonOwningGraphOverlay<int, G>;
struct Problem { int n; double d[kN][kN]; bool v[kN][kN], symmetric; V starts, goals; };
static bool same(const G& a, const G& b) {
  if (a.Size() != b.Size()) return false; int ok = 1;
  for (int64_t i = 0; i < a.Size(); i++) { const auto &x = a.GetNodeImmutable(i), &y = b.GetNodeImmutable(i); if (x.GetValueImmutable() != y.GetValueImmutable() || x.GetInEdgesImmutable().size() != y.GetInEdgesImmutable().size() || x.GetOutEdgesImmutable().size() != y.GetOutEdgesImmutable().size()) return false;
    for (size_t k = 0; k < x.GetInEdgesImmutable().size(); k++) ok &= x.GetInEdgesImmutable()[k] == y.GetInEdgesImmutable()[k]; for (size_t k = 0; k < x.GetOutEdgesImmutable().size(); k++) ok &= x.GetOutEdgesImmutable()[k] == y.GetOutEdgesImmutable()[k]; }
  return ok;
}
static void path(const Problem& p, const R& r, bool any, double best) {
  const V& s = r.Path(); sym_assert(s.empty() == !any, "a path is returned exactly when the roadmap offers one"); if (s.empty()) { sym_assert(r.PathCost() == kInf, "no path has infinite cost"); sym_cover("none"); return; }
  sym_assert(std::count(p.starts.begin(), p.starts.end(), s.front()) > 0 && std::count(p.goals.begin(), p.goals.end(), s.back()) > 0, "the path leads from a start to a goal"); double sum = 0;
  for (size_t i = 1; i < s.size(); i++) { sym_assert(s[i] >= 0 && s[i] < p.n && p.v[s[i - 1]][s[i]], "every step is valid"); sum += p.d[s[i - 1]][s[i]]; } sym_assert(sum == r.PathCost(), "the cost is the sum of the distances"); sym_assert(r.PathCost() == best, "no cheaper path exists"); if (s.size() > 2) sym_cover("longer"); sym_observe_d(r.PathCost());
}
template <class Graph> static void offered(const Problem& p, const Graph& g, bool lazy, bool& any, double& best) {   // shortest over the valid edges of the grown roadmap
  Weights w; w.n = g.Size(); for (int i = 0; i < w.n; i++) for (int j = 0; j < w.n; j++) { w.has[i][j] = false; w.w[i][j] = kInf; }
  for (int i = 0; i < w.n; i++) for (const auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) { const int a = g.GetNodeImmutable(i).GetValueImmutable(), b = g.GetNodeImmutable(e.GetToIndex()).GetValueImmutable(); if (!lazy || p.v[a][b]) { w.has[i][e.GetToIndex()] = true; w.w[i][e.GetToIndex()] = lazy ? p.d[a][b] : e.GetWeight(); } }
  shortest(w); any = false; best = kInf; for (int i = 0; i < w.n; i++) for (int j = 0; j < w.n; j++) if (std::count(p.starts.begin(), p.starts.end(), g.GetNodeImmutable(i).GetValueImmutable()) && std::count(p.goals.begin(), p.goals.end(), g.GetNodeImmutable(j).GetValueImmutable()) && w.r[i][j]) { best = any ? low(best, w.d[i][j]) : w.d[i][j]; any = true; }
}
// starts join the nodes nearest from them, goals those nearest to them: every valid one that is certainly among the K nearest, none that certainly is not
static void joins(const Problem& p, const G& g, int road, int ns, int64_t K) {
  if (g.Size() != p.n) return; for (int i = 0; i < p.n; i++) if (g.GetNodeImmutable(i).GetValueImmutable() != i) return;   // only when every state is added once
  for (int a = road; a < p.n; a++) { const bool start = a < road + ns; const int limit = start ? road : road + ns; const auto key = [&](int k) { return start ? p.d[a][k] : p.d[k][a]; };
    for (int i = 0; i < limit; i++) { int less = 0, notmore = 0; for (int k = 0; k < limit; k++) if (k != i) { less += key(k) < key(i); notmore += key(k) <= key(i); } const int from = start ? a : i, to = start ? i : a; int has = 0; for (const auto& e : g.GetNodeImmutable(from).GetOutEdgesImmutable()) has |= e.GetToIndex() == to;
      sym_assert((notmore >= K) | (has == p.v[from][to]), "every valid pair among the K nearest is joined"); sym_assert((less < K) | !has, "nothing beyond the K nearest is joined"); } }
}
HARNESS(query) {
  Problem p; const int road = sym_param("road", 2), ns = sym_param("starts", 1), ng = sym_param("goals", 1); p.n = road + ns + ng; p.symmetric = sym_param("symmetric", 0); const bool lazy = sym_param("lazy", 0);
  for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) { p.d[i][j] = 0; p.v[i][j] = true; if (i != j && !(p.symmetric && j < i)) p.d[i][j] = sym_double_grid(1, sym_param("k", 7), 2, "distance"); }
  if (p.symmetric) for (int i = 0; i < p.n; i++) for (int j = 0; j < i; j++) p.d[i][j] = p.d[j][i];
  int triangle = 1; for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) for (int k = 0; k < p.n; k++) if (i != j && j != k && i != k) triangle &= p.d[i][j] <= p.d[i][k] + p.d[k][j]; sym_assume(triangle);
  const auto later = [&](int i) { return i < road ? 1 : i < road + ns ? 0 : 2; };   // starts before the roadmap before goals
  const bool reverse = !p.symmetric && sym_choice(2, "reverse valid"); for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) if (i != j) { if (p.symmetric ? i < j : later(i) < later(j) || (later(i) == 1 && later(j) == 1)) { p.v[i][j] = sym_choice(2, "valid"); if (p.symmetric) p.v[j][i] = p.v[i][j]; } else if (!p.symmetric && later(i) > later(j)) p.v[i][j] = reverse; }
  for (int i = 0; i < ns; i++) p.starts.push_back(road + i); for (int i = 0; i < ng; i++) p.goals.push_back(road + ns + i);
  if (sym_param("shared", 1)) { const int sh = sym_choice(4, "shared"); if (sh == 1) p.starts[0] = 0; if (sh == 2) p.goals[0] = road - 1; if (sh == 3) p.goals[0] = p.starts[0]; }
  const std::function<double(const int&, const int&)> d = [&](const int& a, const int& b) { return p.d[a][b]; }; const std::function<bool(const int32_t, const int&, const int&)> v = [&](const int32_t, const int& a, const int& b) { return p.v[a][b]; };
  G g; for (int i = 0; i < road; i++) g.AddNode(i); for (int i = 0; i < road; i++) for (int j = 0; j < road; j++) if (i != j && (lazy || p.v[i][j])) g.AddEdgeBetweenNodes(i, j, lazy ? 50.0 + i : p.d[i][j]);
  const auto none = parallelism::DegreeOfParallelism::None(); const Knn knn(d, none); const int64_t K = sym_param("near", 0) ? 1 : p.n; const bool dup = sym_param("dup", 0), limit = sym_choice(2, "limit duplicates"); const G before = g; G grown = g;
  const R r = lazy ? P::LazyQueryPathAndAddNodes<int, V>(p.starts, p.goals, grown, knn, d, v, K, none, p.symmetric, dup, limit) : P::QueryPathAndAddNodes<int, V>(p.starts, p.goals, grown, knn, d, v, K, none, p.symmetric, dup, limit);
  bool any; double best; offered(p, grown, lazy, any, best); path(p, r, any, best); sym_assert(grown.CheckGraphLinkage(), "the grown roadmap stays well linked"); joins(p, grown, road, ns, K); int known = 0; for (int x : p.starts) known += x < road; for (int x : p.goals) known += x < road || std::count(p.starts.begin(), p.starts.end(), x) > 0; sym_assert(grown.Size() == p.n - (dup ? 0 : known), "states the roadmap holds are added again only when asked for");
  const bool overlay = sym_choice(2, "overlay"); const G& fixed = g;
  const R q = lazy ? P::LazyQueryPath<int, V>(p.starts, p.goals, fixed, knn, d, v, K, none, p.symmetric, dup, limit, overlay) : P::QueryPath<int, V>(p.starts, p.goals, fixed, knn, d, v, K, none, p.symmetric, dup, limit, overlay);
  path(p, q, any, best); sym_assert(same(g, before), "the roadmap is left alone");
}
HARNESS(invalid) {
  G g; g.AddNode(0); V starts, goals; const unsigned which = sym_choice(4, "empty"); if (which & 1) starts.push_back(0); if (which & 2) goals.push_back(0); const bool overlay = sym_choice(2, "overlay"), lazy = sym_choice(2, "lazy"); const auto none = parallelism::DegreeOfParallelism::None();
  const std::function<double(const int&, const int&)> d = [](const int&, const int&) { return 0.0; }; const std::function<bool(const int32_t, const int&, const int&)> v = [](const int32_t, const int&, const int&) { return true; }; const Knn knn(d, none); bool threw = false; const G& fixed = g;
  try { const R q = lazy ? P::LazyQueryPath<int, V>(starts, goals, fixed, knn, d, v, 1, none, true, false, true, overlay) : P::QueryPath<int, V>(starts, goals, fixed, knn, d, v, 1, none, true, false, true, overlay); sym_assert(q.Path() == V(1, 0) && q.PathCost() == 0.0, "a start at the goal is the path"); } catch (const std::runtime_error&) { threw = true; } sym_assert(threw == (which != 3), "exactly queries without starts or goals are refused"); if (threw) sym_cover("refused");
}
//@ job both h_query symmetric=1 time=100 must=none,longer
//@ job both h_query lazy=1 symmetric=1 time=100 must=none,longer
//@ job both h_query lazy=1 road=1 time=100 must=none,longer
//@ job both h_query road=1 time=100 must=none,longer
//@ job both h_query k=3 shared=0 time=100 must=none,longer
//@ job thorough h_query time=3000
//@ job thorough h_query lazy=1 k=3 shared=0 time=3000
//@ job both h_query road=1 starts=2 symmetric=1 time=100 must=none,longer
//@ job both h_query road=1 goals=2 lazy=1 symmetric=1 time=100 must=none,longer
//@ job both h_query near=1 symmetric=1 time=100 must=none,longer
//@ job both h_query near=1 k=3 shared=0 time=100 must=none,longer
//@ job both h_query near=1 lazy=1 k=2 shared=0 time=100 must=none,longer
//@ job both h_query dup=1 road=1 symmetric=1 time=100 must=none,longer
//@ job both h_invalid time=60 must=refused
