// C18: generic A* returns a cheapest valid path.
//@ srcs:
//@ bound: every transition relation on 2 or 3 states with every cost k/4, k = 0..5 up to 0..15 (thorough 0..63), 1 or 2 starts with the same start cost, every set of goal states, every admissible (also inconsistent) heuristic on the grid and every other non-negative one, every edge refused or accepted, queue duplicates limited or not, own hash and equality; a 4-state problem with re-expansion
//@ outside: more states; negative or NaN costs and heuristics; costs whose sums round; different start costs
#include "search.h"
#include <list>
#include <stdexcept>
#include <common_robotics_utilities/simple_astar_search.hpp>
using namespace common_robotics_utilities;
namespace A = simple_astar_search;
struct St { int id; int noise; };   // compared by id only
struct Hash { size_t operator()(const St& s) const { return static_cast<size_t>(s.id) * 7; } };
struct Equal { bool operator()(const St& a, const St& b) const { return a.id == b.id; } };
using V = std::vector<St>;
struct Problem { Weights w; std::vector<int> starts; uint64_t goals; double h[kN], cost, best; bool any, admissible; };
static void prepare(Problem& p) {
  const int n = p.w.n; shortest(p.w); p.admissible = sym_param("admissible", 1); p.any = false; p.best = kInf; double to[kN]; bool can[kN];
  for (int i = 0; i < n; i++) { to[i] = kInf; can[i] = false; for (int g = 0; g < n; g++) if ((p.goals >> g) & 1) if (i == g || reach(p.w, i, g)) { to[i] = can[i] ? low(to[i], p.w.d[i][g]) : p.w.d[i][g]; can[i] = true; } }
  for (int i = 0; i < n; i++) { p.h[i] = 0; if (sym_param("zero", 0)) continue; p.h[i] = sym_double_grid(0, sym_param("k", 15), 2, "heuristic"); if (p.admissible && can[i]) sym_assume(p.h[i] <= to[i]); }
  for (int s : p.starts) if (can[s]) { p.best = p.any ? low(p.best, to[s]) : to[s]; p.any = true; }
  p.cost = sym_double_grid(0, 15, 2, "start cost");
}
template <class C> static void verdict(const Problem& p, const A::AstarResult<St, C>& r, double start_cost) {
  std::vector<int> path; for (const St& s : r.Path()) path.push_back(s.id);
  sym_assert(path.empty() == !p.any, "a path is returned exactly when a goal is reachable"); if (path.empty()) { sym_assert(r.PathCost() == kInf, "no path has infinite cost"); sym_cover("none"); return; }
  sym_assert(std::count(p.starts.begin(), p.starts.end(), path.front()) > 0, "the path begins at a start"); sym_assert(path.back() >= 0 && path.back() < p.w.n && ((p.goals >> path.back()) & 1), "the path ends at a goal");
  double sum = start_cost; for (size_t i = 1; i < path.size(); i++) { sym_assert(path[i] >= 0 && path[i] < p.w.n && p.w.has[path[i - 1]][path[i]], "every step is generated and accepted"); sum += p.w.w[path[i - 1]][path[i]]; }
  sym_assert(sum == r.PathCost(), "the cost is the start cost plus the edge costs"); if (p.admissible) sym_assert(r.PathCost() == start_cost + p.best, "no cheaper path exists"); if (path.size() > 2) sym_cover("longer"); sym_observe_d(r.PathCost());
}
static void solve(Problem& p) {
  prepare(p); const bool limit = sym_choice(2, "limit duplicates"); const int mode = sym_param("mode", 0), n = p.w.n; int noise = 0;
  const std::function<bool(const St&)> goal = [&](const St& s) { return (p.goals >> s.id) & 1; };
  const std::function<double(const St&)> h = [&](const St& s) { return p.h[s.id]; };
  A::StatesWithCosts<St> starts; for (int s : p.starts) starts.emplace_back(St{s, noise++}, p.cost);
  if (mode == 0) {
    const std::function<A::StatesWithCosts<St>(const St&)> kids = [&](const St& s) { A::StatesWithCosts<St> c; for (int j = 0; j < n; j++) if (p.w.has[s.id][j]) c.emplace_back(St{j, noise++}, p.w.w[s.id][j]); return c; };
    verdict(p, A::PerformAstarSearch<St, V, Hash, Equal>(starts, goal, kids, h, limit), p.cost); return;
  }
  const std::function<bool(const St&, const St&)> valid = [&](const St& a, const St& b) { return a.id != b.id && p.w.has[a.id][b.id]; };
  const std::function<double(const St&, const St&)> dist = [&](const St& a, const St& b) { return p.w.w[a.id][b.id]; };
  if (mode == 1) {
    const std::function<std::list<St>(const St&)> kids = [&](const St&) { std::list<St> c; for (int j = 0; j < n; j++) c.push_back(St{j, noise++}); return c; };
    verdict(p, A::PerformAstarSearch<St, std::list<St>, Hash, Equal>(starts, goal, kids, valid, dist, h, limit), p.cost); return;
  }
  const std::function<V(const St&)> kids = [&](const St&) { V c; for (int j = n - 1; j >= 0; j--) c.push_back(St{j, noise++}); return c; };
  const std::function<double(const St&, const St&)> h2 = [&](const St& s, const St&) { return p.h[s.id]; };
  int g = 0; while (!((p.goals >> g) & 1)) g++;
  verdict(p, A::PerformAstarSearch<St, V, Hash, Equal>(St{p.starts[0], 1}, St{g, 2}, kids, valid, dist, h2, limit), 0.0);
}
HARNESS(states) {
  const int n = sym_param("n", 3), mode = sym_param("mode", 0); const uint64_t t = sym_choice(1ull << (n * (n - 1)), "transitions"); Problem p; weights(p.w, n, t, sym_param("k", 15));
  const int s = sym_choice(n, "start"); p.starts.push_back(s); if (sym_param("starts", 1) > 1) { const int s2 = sym_choice(n, "second start"); p.starts.push_back(s2); }
  if (mode == 2 || sym_param("one_goal", 0)) { const int g = sym_choice(n, "goal"); p.goals = 1ull << g; } else p.goals = sym_choice(1ull << n, "goals"); solve(p);
}
HARNESS(reexpand) { Problem p; weights(p.w, 4, (1ull << 0) | (1ull << 1) | (1ull << 4) | (1ull << 5) | (1ull << 8) | (1ull << 7), sym_param("k", 15)); p.starts = {0}; p.goals = 8; solve(p); }
HARNESS(invalid) {
  bool threw = false; const std::function<bool(const St&)> goal = [](const St&) { return true; }; const std::function<A::StatesWithCosts<St>(const St&)> kids = [](const St&) { return A::StatesWithCosts<St>(); }; const std::function<double(const St&)> h = [](const St&) { return 0.0; };
  const bool l = sym_choice(2, "limit"); try { A::PerformAstarSearch<St, V, Hash, Equal>({}, goal, kids, h, l); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "no start is refused");
  const double c = sym_double("cost"); bool bad = false; try { A::StateWithCost<int> s(1, c); sym_assert(s.State() == 1, "kept"); } catch (const std::invalid_argument&) { bad = true; } sym_assert(bad == (c < 0.0), "exactly negative costs are refused");
}
//@ job both h_states n=2 starts=2 time=100 must=none
//@ job both h_states one_goal=1 k=7 time=100 must=longer,none
//@ job both h_states zero=1 k=5 time=100 must=longer,none
//@ job both h_states starts=2 zero=1 one_goal=1 time=100 must=longer,none
//@ job both h_states mode=1 one_goal=1 time=100 must=longer,none
//@ job both h_states mode=2 time=100 must=longer,none
//@ job both h_states admissible=0 time=100 must=longer,none
//@ job both h_reexpand k=5 time=100 must=longer
//@ job both h_reexpand admissible=0 k=7 mode=2 time=100 must=longer
//@ job both h_invalid time=20
//@ job thorough h_states starts=2 k=63 time=3000
//@ job thorough h_reexpand k=63 time=3000
