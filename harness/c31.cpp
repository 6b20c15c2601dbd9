// C31: RRT planning builds well-linked trees and genuine solution paths.
//@ srcs:
//@ bound: initial trees of 0..2 nodes (second a root or a child), up to 2 iterations (thorough 3), each ending with no, one or two (thorough three) propagated states with any 64-bit relative parent, any 64-bit nearest-neighbour index, any goal test, any termination answer, each optional callback present or not; single and multiple path planning; state-added callbacks that themselves add a node after any added state
//@ outside: more iterations or longer propagations; callbacks that change or remove existing nodes; the values of the planning time
#include <sym.h>
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
using namespace common_robotics_utilities::simple_rrt_planner;
struct State { int id; };
using Tree = SimpleRRTPlannerTree<State>;
static const int kMax = 12;
// what has happened so far, kept by the callbacks themselves
struct World {
  int n = 0; int64_t parent[kMax] = {}; int goal[kMax], goals[kMax] = {}, ngoals = 0, checked[kMax] = {}, added[kMax] = {}, reached[kMax] = {};
  int samples = 0, good = 0, failed = 0, nearest = 0, propagations = 0; int64_t pending[kMax] = {}; int npending = 0, base = 0; int64_t near = -1;
  World() { for (int i = 0; i < kMax; i++) goal[i] = -1; }
};
// any index; the choice only tells the valid ones apart
static int64_t any(int valid) { const int k = sym_choice(valid + 2, "index"); if (k < valid) return k; const int64_t x = sym_i64("other index"); if (k == valid) sym_assume(x < 0); else sym_assume(x >= valid); return x; }
static int root(const World& w, int i) { while (w.parent[i] >= 0) i = static_cast<int>(w.parent[i]); return i; }
static void tree_ok(const World& w, const Tree& t, int n) {
  sym_assert(t.Size() == n, "the tree holds exactly the added states"); if (t.Size() != n) return; sym_assert(Tree::CheckNodeLinkage(t.GetNodesImmutable()), "the tree passes the linkage check");
  for (int i = 0; i < n; i++) sym_assert(t.GetNodeImmutable(i).GetValueImmutable().id == i && t.GetNodeImmutable(i).GetParentIndex() == w.parent[i], "each state is linked to the parent its propagation named");
}
static void path_ok(const World& w, const std::vector<State>& p, int g) { int i = g; size_t k = p.size(); while (k > 0) { k--; sym_assert(p[k].id == i, "a path follows the parent links"); if (w.parent[i] < 0) break; i = static_cast<int>(w.parent[i]); } sym_assert(k == 0 && !p.empty() && p[0].id == root(w, g), "a path starts at a root"); sym_assert(w.goal[g] == 1, "a path ends at a goal"); }
HARNESS(plans) {
  World w; Tree t; const int single = sym_param("single", 0), longest = sym_param("states", 2), iterations = sym_param("iterations", 2); const int n0 = sym_choice(4, "initial"); const int with = single ? sym_choice(4, "callbacks") : 3 * sym_choice(2, "callbacks");
  if (n0 >= 1) { t.AddNode(State{0}); w.parent[0] = -1; w.n = 1; } if (n0 == 2) { t.AddNode(State{1}); w.parent[1] = -1; w.n = 2; } if (n0 == 3) { t.AddNodeAndConnect(State{1}, 0); w.parent[1] = 0; w.n = 2; } const int initial = w.n;
  const SamplingFunction<int> sample = [&]() { sym_assert(w.npending == 0, "everything propagated was added before sampling again"); w.samples++; return 1000 + w.samples; };
  const RRTNearestNeighborFunction<State, Tree, int> nearest = [&](const Tree& x, const int& s) { sym_assert(&x == &t && s == 1000 + w.samples && w.nearest == w.samples - 1, "the nearest node to the sample is asked for once"); w.nearest++; tree_ok(w, t, w.n); w.near = any(w.n); return w.near; };
  const RRTForwardPropagationFunction<State, int> propagate = [&](const State& from, const int& s) {
    sym_assert(w.near >= 0 && w.near < w.n && from.id == w.near && s == 1000 + w.samples && w.propagations == w.samples - 1, "propagates once from the nearest state to the sample"); w.propagations++; ForwardPropagation<State> r; const int n = sym_choice(longest + 1, "propagated"); if (n) w.good++; else w.failed++; w.base = w.n;
    for (int i = 0; i < n; i++) { const int64_t rel = any(i); r.emplace_back(State{w.n + i}, rel); w.pending[i] = rel; } w.npending = n; return r; };
  int at = 0, stopped = 0;
  // an added state becomes known through its goal test (and through the callback just before it)
  const auto admit = [&](int id) { sym_assert(id == w.n && w.npending > 0, "states are added one by one in order"); const int k = id - w.base; const int64_t rel = w.pending[k]; sym_assert(rel < k, "the named parent is an earlier state of the propagation"); w.parent[id] = rel < 0 ? w.near : w.base + rel; w.n++; w.npending--; };
  const RRTStateAddedCallbackFunction<State, Tree> added = [&](Tree& x, const int64_t i) { sym_assert(&x == &t && i == w.n, "reports the state just added"); admit(static_cast<int>(i)); w.added[i]++; tree_ok(w, t, w.n); };
  const RRTCheckGoalReachedFunction<State> goal = [&](const State& s) { if (s.id >= w.n) { sym_assert(!(with & 1), "the callback comes before the goal test"); admit(s.id); } sym_assert(w.checked[s.id] == 0, "each state is tested once"); w.checked[s.id]++; const int g = sym_choice(2, "goal"); w.goal[s.id] = g; if (g) w.goals[w.ngoals++] = s.id; return g == 1; };
  const RRTGoalReachedCallbackFunction<State, Tree> reached = [&](Tree& x, const int64_t i) { sym_assert(&x == &t && w.ngoals > 0 && i == w.goals[w.ngoals - 1] && w.reached[i] == 0, "reports the goal just reached"); w.reached[i]++; };
  const RRTTerminationCheckFunction stop = [&](const int64_t n) { sym_assert(!stopped && w.npending == 0 && n == w.n && n == t.Size(), "asked with the current size before every iteration"); if (single) sym_assert(w.ngoals == 0, "a solution ends the search"); if (at == iterations) { stopped = 1; return true; } at++; stopped = static_cast<int>(sym_choice(2, "stop")); return stopped == 1; };
  bool empty = false, range = false; std::vector<std::vector<State>> paths; PlanningStatistics st;
  try {
    if (single) { const auto r = RRTPlanSinglePath<State, Tree, int>(t, sample, nearest, propagate, with & 1 ? added : nullptr, goal, with & 2 ? reached : nullptr, stop); if (!r.Path().empty()) paths.push_back(r.Path()); st = r.Statistics(); sym_assert(paths.size() == (w.ngoals > 0 ? 1u : 0u), "one path exactly when a goal was reached"); }
    else { const auto r = RRTPlanMultiPath<State, Tree, int>(t, sample, nearest, propagate, with & 1 ? added : nullptr, goal, with & 2 ? reached : nullptr, stop); paths = r.Paths(); st = r.Statistics(); sym_assert(paths.size() == static_cast<size_t>(w.ngoals), "one path for each goal"); }
  } catch (const std::invalid_argument&) { empty = true; } catch (const std::out_of_range&) { range = true; }
  sym_assert(empty == (initial == 0), "refuses exactly the empty tree"); if (empty) { sym_assert(w.samples == 0, "does nothing without a start"); sym_cover("empty"); return; }
  tree_ok(w, t, w.n);
  if (range) { if (w.npending > 0) { const int k = w.n - w.base; sym_assert(w.pending[k] >= k, "fails only for a parent that comes later"); sym_cover("bad-parent"); } else { sym_assert(w.near < 0 || w.near >= w.n, "fails only for a nearest node outside the tree"); sym_cover("bad-nearest"); } return; }
  sym_assert(w.npending == 0 && (stopped || (single && w.ngoals > 0)), "ends when told to");
  for (int i = 0; i < w.n; i++) { sym_assert(w.checked[i] == 1, "every state is tested"); sym_assert(w.added[i] == ((with & 1) && i >= initial ? 1 : 0), "every added state is reported when asked for"); sym_assert(w.reached[i] == ((with & 2) && w.goal[i] == 1 ? 1 : 0), "every goal is reported when asked for"); }
  for (size_t i = 0; i < paths.size(); i++) { path_ok(w, paths[i], w.goals[i]); if (paths[i].size() > 2) sym_cover("long"); if (w.goals[i] < initial) sym_cover("at-once"); }
  sym_assert(st["total_samples"] == w.samples && st["successful_samples"] == w.good && st["failed_samples"] == w.failed && w.good + w.failed == w.samples, "the statistics count the samples"); sym_assert(st["total_states"] == w.n && st["solutions"] == w.ngoals, "the statistics count states and solutions"); if (w.samples > 1) sym_cover("iterations"); if (w.failed) sym_cover("failed");
}
// a state-added callback may itself grow the tree
HARNESS(grows) {
  Tree t; int id[16], goal[16], n = 0, samples = 0, count = 0, done = 0, extra = 0; int64_t parent[16], index[4], rel[4]; int64_t near = -1; int first = 0; std::vector<int> goals; const int longest = sym_param("states", 3), iterations = sym_param("iterations", 1);
  t.AddNode(State{0}); id[0] = 0; parent[0] = -1; goal[0] = 0; n = 1; int next = 1;
  const SamplingFunction<int> sample = [&]() { sym_assert(done == count, "everything propagated was added before sampling again"); samples++; return samples; };
  const RRTNearestNeighborFunction<State, Tree, int> nearest = [&](const Tree&, const int&) { near = sym_choice(n, "nearest"); return near; };
  const RRTForwardPropagationFunction<State, int> propagate = [&](const State& from, const int&) { sym_assert(from.id == id[near], "propagates from the nearest state"); ForwardPropagation<State> r; count = 1 + sym_choice(longest, "propagated"); done = 0; first = next; for (int i = 0; i < count; i++) { rel[i] = sym_choice(i + 1, "parent") - 1; r.emplace_back(State{next}, rel[i]); next++; } return r; };
  const RRTStateAddedCallbackFunction<State, Tree> added = [&](Tree& x, const int64_t i) {
    sym_assert(&x == &t && i == n && x.Size() == n + 1, "reports the state just added"); sym_assert(done < count, "reports only propagated states"); id[n] = first + done; parent[n] = rel[done] < 0 ? near : index[rel[done]]; goal[n] = 0; index[done] = i; done++; n++;
    const int grow = sym_choice(2, "grow"); if (grow) { const int to = sym_choice(2, "grown from"); const int64_t from = to ? i : 0; const int64_t at = x.AddNodeAndConnect(State{next}, from); sym_assert(at == n, "nodes are appended"); id[n] = next; parent[n] = from; goal[n] = 0; next++; n++; extra++; } };
  const RRTCheckGoalReachedFunction<State> reached = [&](const State& s) { if (s.id == 0) return false; const int64_t at = index[done - 1]; sym_assert(s.id == id[at], "the added state is tested"); goal[at] = sym_choice(2, "goal"); if (goal[at]) goals.push_back(static_cast<int>(at)); return goal[at] == 1; };
  int told = 0; const RRTGoalReachedCallbackFunction<State, Tree> tell = [&](Tree&, const int64_t i) { sym_assert(!goals.empty() && i == goals.back(), "reports the goal just reached"); told++; };
  const RRTTerminationCheckFunction stop = [&](const int64_t size) { sym_assert(size == n, "asked with the current size"); return samples == iterations; };
  const auto r = RRTPlanMultiPath<State, Tree, int>(t, sample, nearest, propagate, added, reached, tell, stop);
  sym_assert(t.Size() == n && Tree::CheckNodeLinkage(t.GetNodesImmutable()), "the tree passes the linkage check"); if (t.Size() != n) return;
  for (int i = 0; i < n; i++) sym_assert(t.GetNodeImmutable(i).GetValueImmutable().id == id[i] && t.GetNodeImmutable(i).GetParentIndex() == parent[i], "each state is linked to the parent its propagation named");
  sym_assert(told == static_cast<int>(goals.size()) && r.Paths().size() == goals.size(), "one path for each goal");
  for (size_t g = 0; g < r.Paths().size() && g < goals.size(); g++) { const auto& p = r.Paths()[g]; int64_t i = goals[g]; size_t k = p.size(); while (k > 0 && i >= 0) { k--; sym_assert(p[k].id == id[i], "a path follows the parent links"); i = parent[i]; } sym_assert(k == 0 && i < 0, "a path starts at the root"); if (extra && p.size() > 3) sym_cover("grown"); }
}
//@ job both h_grows time=120 must=grown
//@ job thorough h_grows states=2 iterations=2 time=1200 must=grown
//@ job both h_plans load_ite=1 store_ite=1 time=120 must=empty,bad-parent,bad-nearest,long,at-once,iterations,failed
//@ job both h_plans load_ite=1 store_ite=1 single=1 time=120 must=empty,bad-parent,bad-nearest,long,at-once,iterations,failed
//@ job thorough h_plans iterations=3 states=1 time=1200
//@ job thorough h_plans load_ite=1 store_ite=1 single=1 iterations=3 states=1 time=1200
//@ job thorough h_plans iterations=1 states=3 time=1200
//@ job thorough h_plans states=3 time=2400
