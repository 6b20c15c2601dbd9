// C17: A* over graphs returns a cheapest valid path.
//@ srcs:
//@ bound: every digraph (each ordered pair joined or not) of 2 or 3 nodes with every weight k/4, k = 0..15 (thorough 0..63), 1 or 2 starts, 0 to 2 goals, every admissible (also inconsistent) heuristic on the grid and every other non-negative one, every edge refused or accepted in lazy mode with distances independent of the weights, queue duplicates limited or not; selected 4-node digraphs with re-expansion
//@ outside: larger graphs; negative or NaN costs and heuristics; costs whose sums round; different start costs
#include "search.h"
#include <stdexcept>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
using namespace common_robotics_utilities;
namespace S = simple_graph_search;
using G = simple_graph::Graph<int>; using Ed = simple_graph::GraphEdge;
struct Problem { Weights w; std::vector<int64_t> starts, goals; double h[kN][kN], best; bool admissible; };
static void ends(Problem& p) {
  const int n = p.w.n; const uint64_t s = sym_choice(sym_param("starts", 1) == 1 ? n : n * n, "starts"); p.starts.push_back(s % n); if (sym_param("starts", 1) > 1) p.starts.push_back(s / n);
  const int ng = sym_param("goals", 1); const uint64_t t = sym_choice(ng == 0 ? 1 : ng == 1 ? n : n * n, "goals"); if (ng > 0) p.goals.push_back(t % n); if (ng > 1) p.goals.push_back(t / n);
}
static void heuristic(Problem& p) {
  const int n = p.w.n; shortest(p.w); p.admissible = sym_param("admissible", 1); p.best = kInf;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p.h[i][j] = 0.0;
  if (sym_param("zero", 0) == 0) for (int64_t g : p.goals) for (int i = 0; i < n; i++) { p.h[i][g] = sym_double_grid(0, sym_param("k", 15), 2, "heuristic"); if (p.admissible) { if (p.w.d[i][g] == kInf) continue; sym_assume(p.h[i][g] <= p.w.d[i][g]); } }
  bool any = false;
  for (int64_t s : p.starts) for (int64_t g : p.goals) { bool r = s == g; if (!r) { r = reach(p.w, s, g); } if (r) { p.best = any ? low(p.best, p.w.d[s][g]) : p.w.d[s][g]; any = true; } }
  if (!any) p.best = kInf;
}
static void verdict(const Problem& p, const S::AstarIndexResult& r, bool any) {
  const auto& path = r.Path(); sym_assert(path.empty() == !any, "a path is returned exactly when one exists");
  if (path.empty()) { sym_assert(r.PathCost() == kInf, "no path has infinite cost"); sym_cover("none"); return; }
  sym_assert(std::count(p.starts.begin(), p.starts.end(), path.front()) > 0, "the path begins at a start"); sym_assert(std::count(p.goals.begin(), p.goals.end(), path.back()) > 0, "the path ends at a goal");
  double sum = 0; for (size_t i = 1; i < path.size(); i++) { sym_assert(path[i - 1] >= 0 && path[i - 1] < p.w.n && path[i] >= 0 && path[i] < p.w.n && p.w.has[path[i - 1]][path[i]], "the path follows accepted edges"); sum += p.w.w[path[i - 1]][path[i]]; }
  sym_assert(sum == r.PathCost(), "the reported cost is the sum of the edge costs"); if (p.admissible) sym_assert(r.PathCost() == p.best, "no cheaper path exists");
  sym_observe_d(r.PathCost()); sym_observe(path.size()); if (path.size() > 2) sym_cover("longer");
}
static void graph(G& g, const Weights& w) { for (int i = 0; i < w.n; i++) g.AddNode(10 + i); for (int i = 0; i < w.n; i++) for (int j = 0; j < w.n; j++) if (w.has[i][j]) g.AddEdgeBetweenNodes(i, j, w.w[i][j]); }
static void solve(Problem& p, const G& g, int mode, bool limit) {
  bool any = false; for (int64_t s : p.starts) for (int64_t t : p.goals) any |= s == t || reach(p.w, s, t);
  const std::function<double(const int&, const int&)> h = [&](const int& a, const int& b) { return p.h[a - 10][b - 10]; };
  if (mode == 0) { verdict(p, S::PerformAstarSearch<int, G>(g, p.starts, p.goals, h, limit), any); return; }
  if (mode == 1) {
    const std::function<bool(const int&, const int&)> valid = [&](const int& a, const int& b) { return p.w.has[a - 10][b - 10]; };
    const std::function<double(const int&, const int&)> dist = [&](const int& a, const int& b) { return p.w.w[a - 10][b - 10]; };
    verdict(p, S::PerformLazyAstarSearch<int, G>(g, p.starts, p.goals, valid, dist, h, limit), any); return;
  }
  const std::function<bool(const G&, const Ed&)> valid = [&](const G&, const Ed& e) { return p.w.has[e.GetFromIndex()][e.GetToIndex()]; };
  const std::function<double(const G&, const Ed&)> dist = [&](const G&, const Ed& e) { return p.w.w[e.GetFromIndex()][e.GetToIndex()]; };
  const std::function<double(const G&, const int64_t, const int64_t)> hi = [&](const G&, const int64_t a, const int64_t b) { return p.h[a][b]; };
  verdict(p, S::PerformLazyAstarSearch<G>(g, p.starts, p.goals, valid, dist, hi, limit), any);
}
static void run(int n, uint64_t topology) {
  Problem p; weights(p.w, n, topology, sym_param("k", 15)); G g; const int mode = sym_param("mode", 0);
  if (mode == 0) graph(g, p.w);
  else {   // the graph has every edge, with weights unrelated to the search; the functions decide
    Weights all; weights(all, n, 0, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { all.has[i][j] = true; all.w[i][j] = (i * n + j) % 3 ? kInf : 7.0; } graph(g, all);
  }
  ends(p); heuristic(p); const bool limit = sym_choice(2, "limit duplicates"); solve(p, g, mode, limit);
}
HARNESS(graphs) { const int n = sym_param("n", 3); const uint64_t t = sym_choice(1ull << (n * (n - 1)), "topology"); run(n, t); }
// 0 -> 1 -> 2 -> 3 with shortcuts: a node is found expensively first and again cheaply
HARNESS(reexpand) { const uint64_t t = (1ull << 0) | (1ull << 1) | (1ull << 4) | (sym_param("more", 0) ? 1ull << 2 : 0) | (1ull << 5) | (1ull << 8) | (1ull << 7); Problem p; weights(p.w, 4, t, sym_param("k", 15)); G g; graph(g, p.w); p.starts = {0}; p.goals = {3}; heuristic(p); const bool limit = sym_choice(2, "limit duplicates"); solve(p, g, 0, limit); }
HARNESS(invalid) {
  G g; const int n = 1 + sym_choice(2, "nodes"); for (int i = 0; i < n; i++) g.AddNode(i); const int64_t s = sym_i64("start"), t = sym_i64("goal"); const bool none = sym_choice(2, "no start"); bool threw = false;
  const std::function<double(const int&, const int&)> h = [](const int&, const int&) { return 0.0; };
  try { S::PerformAstarSearch<int, G>(g, none ? std::vector<int64_t>{} : std::vector<int64_t>{s}, {t}, h, true); } catch (const std::invalid_argument&) { threw = true; }
  sym_assert(threw == (none || s < 0 || s >= n || t < 0 || t >= n), "exactly empty starts and indices outside the graph are refused");
}
//@ job both h_graphs n=2 starts=2 goals=2 time=100 must=none
//@ job both h_graphs time=100 must=longer,none
//@ job both h_graphs starts=2 zero=1 time=100 must=longer,none
//@ job both h_graphs goals=2 zero=1 time=100 must=longer,none
//@ job both h_graphs goals=0 time=100 must=none
//@ job both h_graphs mode=1 time=100 must=longer,none
//@ job both h_graphs mode=2 time=100 must=longer,none
//@ job both h_graphs admissible=0 time=100 must=longer,none
//@ job both h_reexpand time=100 must=longer
//@ job both h_reexpand admissible=0 k=7 time=100 must=longer
//@ job both h_invalid time=20
//@ job thorough h_graphs starts=2 goals=2 k=63 time=3000
//@ job thorough h_reexpand more=1 k=63 time=3000
