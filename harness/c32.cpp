// C32: bidirectional RRT planning joins the two trees correctly.
//@ srcs:
//@ bound: initial trees of 0..2 nodes each (second a root or a child), up to 2 iterations (thorough 3), each with either sample type, any 64-bit tree-sample and nearest index, no, one or two (quick: one in the multiple-path job with larger trees) propagated states with any 64-bit relative parent, any connection answer, any next active tree, any termination answer, optional callbacks all present or all absent; single and multiple path planning; state-added callbacks that themselves add a node to the active tree after any added state
//@ outside: more iterations or longer propagations; callbacks that change or remove existing nodes; connection answers that change between calls for the same pair; the values of the planning time
#include <sym.h>
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
using namespace common_robotics_utilities::simple_rrt_planner;
struct State { int id; };
using Tree = SimpleRRTPlannerTree<State>; using A = BiRRTActiveTreeType;
static const int kMax = 8, kGoal = 100, kSample = 1000;
static int64_t any(int valid) { const int k = sym_choice(valid + 2, "index"); if (k < valid) return k; const int64_t x = sym_i64("other index"); if (k == valid) sym_assume(x < 0); else sym_assume(x >= valid); return x; }
struct World {
  int n[2] = {}; int64_t parent[2][kMax] = {}; int link[kMax][kMax]; int bs[32] = {}, bg[32] = {}, bridges = 0, reported = 0, added = 0, told = 0, links = 0;
  int active = 0, iterations = 0, samples = 0, good = 0, failed = 0, swaps = 0, on[2] = {}; int phase = 0; bool tree_sample = false; int64_t target = -1, near = -1, pending[4] = {}; int target_id = 0, npending = 0, base = 0, expected_links = 0;
  World() { for (int i = 0; i < kMax; i++) for (int j = 0; j < kMax; j++) link[i][j] = -1; }
};
static int root(const World& w, int t, int i) { while (w.parent[t][i] >= 0) i = static_cast<int>(w.parent[t][i]); return i; }
static void tree_ok(const World& w, const Tree& t, int which) {
  const int n = w.n[which]; sym_assert(t.Size() == n, "the tree holds exactly the added states"); if (t.Size() != n) return; sym_assert(Tree::CheckNodeLinkage(t.GetNodesImmutable()), "both trees pass the linkage check");
  for (int i = 0; i < n; i++) sym_assert(t.GetNodeImmutable(i).GetValueImmutable().id == which * kGoal + i && t.GetNodeImmutable(i).GetParentIndex() == w.parent[which][i], "each state is linked to the parent its propagation named");
}
static void path_ok(const World& w, const std::vector<State>& p, int s, int g) {
  std::vector<int> e; for (int i = s; i >= 0; i = static_cast<int>(w.parent[0][i])) e.push_back(i); std::reverse(e.begin(), e.end()); for (int i = g; i >= 0; i = static_cast<int>(w.parent[1][i])) e.push_back(kGoal + i);
  sym_assert(p.size() == e.size(), "a start tree path and a reversed goal tree path"); if (p.size() == e.size()) for (size_t i = 0; i < e.size(); i++) sym_assert(p[i].id == e[i], "the path follows both trees"); sym_assert(w.link[s][g] == 1, "the meeting states are connected"); if (e.size() > 3) sym_cover("long");
}
static void init(World& w, Tree& t, int which, int how) { const int b = which * kGoal; if (how >= 1) { t.AddNode(State{b}); w.parent[which][0] = -1; w.n[which] = 1; } if (how == 2) { t.AddNode(State{b + 1}); w.parent[which][1] = -1; w.n[which] = 2; } if (how == 3) { t.AddNodeAndConnect(State{b + 1}, 0); w.parent[which][1] = 0; w.n[which] = 2; } }
HARNESS(plans) {
  World w; Tree t[2]; const int single = sym_param("single", 0), longest = sym_param("states", 1), iterations = sym_param("iterations", 2), most = sym_param("initial", 0); const bool with = sym_choice(2, "callbacks"); int how[2];
  for (int i = 0; i < 2; i++) { how[i] = most ? sym_choice(4, "initial") : 1; init(w, t[i], i, how[i]); } const int initial[2] = {w.n[0], w.n[1]}; w.expected_links = initial[0] * initial[1];
  const BiRRTSelectSampleTypeFunction<State, Tree> select = [&](const Tree& a, const Tree& b, const A c) { sym_assert(&a == &t[0] && &b == &t[1] && c == static_cast<A>(w.active) && w.phase == 1, "the sample type is selected first"); w.phase = 2; w.on[w.active]++; w.tree_sample = sym_choice(2, "sample type"); return w.tree_sample ? BiRRTSampleType::TREE_SAMPLE : BiRRTSampleType::STATE_SAMPLE; };
  const SamplingFunction<State> sample = [&]() { sym_assert(w.phase == 2 && !w.tree_sample, "samples a state only when told to"); w.phase = 3; w.samples++; w.target_id = kSample + w.samples; return State{w.target_id}; };
  const BiRRTTreeSamplingFunction<State, Tree> tree_sample = [&](const Tree& x, const A c) { sym_assert(w.phase == 2 && w.tree_sample && &x == &t[1 - w.active] && c == static_cast<A>(w.active), "samples the other tree only when told to"); w.phase = 3; w.samples++; const int64_t i = any(w.n[1 - w.active]); w.target = i; w.target_id = (1 - w.active) * kGoal + static_cast<int>(i); return i; };
  const BiRRTNearestNeighborFunction<State, Tree> nearest = [&](const Tree& x, const State& s, const A c) { sym_assert(w.phase == 3 && &x == &t[w.active] && s.id == w.target_id && c == static_cast<A>(w.active), "the nearest node of the active tree is asked for"); w.phase = 4; w.near = any(w.n[w.active]); return w.near; };
  const BiRRTPropagationFunction<State> propagate = [&](const State& from, const State& to, const A c) {
    sym_assert(w.phase == 4 && w.near >= 0 && w.near < w.n[w.active] && from.id == w.active * kGoal + w.near && to.id == w.target_id && c == static_cast<A>(w.active), "propagates from the nearest state towards the target"); w.phase = 5; ForwardPropagation<State> r; const int n = sym_choice(longest + 1, "propagated"); if (n) w.good++; else w.failed++; w.base = w.n[w.active];
    for (int i = 0; i < n; i++) { const int64_t rel = any(i); r.emplace_back(State{w.active * kGoal + w.base + i}, rel); w.pending[i] = rel; } w.npending = n; return r; };
  const auto admit = [&](int id) { sym_assert(id == w.n[w.active] && w.npending > 0, "states are added one by one in order"); const int k = id - w.base; const int64_t rel = w.pending[k]; sym_assert(rel < k, "the named parent is an earlier state of the propagation"); w.parent[w.active][id] = rel < 0 ? w.near : w.base + rel; w.n[w.active]++; w.npending--; if (w.tree_sample) w.expected_links++; };
  const BiRRTStateAddedCallbackFunction<State, Tree> added = [&](Tree& x, const int64_t i, const A c) { sym_assert(&x == &t[w.active] && c == static_cast<A>(w.active) && i == w.n[w.active], "reports the state just added"); sym_assert(w.reported == w.bridges, "bridges were reported first"); admit(static_cast<int>(i)); w.added++; tree_ok(w, x, w.active); };
  const BiRRTStatesConnectedFunction<State> connected = [&](const State& a, const State& b, const A c) {
    sym_assert(c == static_cast<A>(w.active), "says which tree is active"); sym_assert(w.reported == w.bridges || !with, "bridges are reported as they are found"); const bool first = w.phase == 0; const int me = w.active; if (!first) { sym_assert(w.phase == 5 && w.tree_sample && b.id == w.target_id, "only tree samples can connect"); const int i = a.id - me * kGoal; if (i == w.n[me]) { sym_assert(!with, "the callback comes before the connection test"); admit(i); } sym_assert(i == w.n[me] - 1, "the new state is tested against the target"); }
    const int s = me == 0 ? a.id : b.id, g = (me == 0 ? b.id : a.id) - kGoal; sym_assert(s >= 0 && s < w.n[0] && g >= 0 && g < w.n[1], "one state of each tree"); w.links++; int& l = w.link[s][g]; if (l < 0) l = sym_choice(2, "connected"); if (l) { w.bs[w.bridges] = s; w.bg[w.bridges] = g; w.bridges++; } return l == 1; };
  const BiRRTGoalBridgeCallbackFunction<State, Tree> bridge = [&](Tree& a, const int64_t s, Tree& b, const int64_t g, const A c) { sym_assert(&a == &t[0] && &b == &t[1] && c == static_cast<A>(w.active) && w.bridges == w.reported + 1 && s == w.bs[w.reported] && g == w.bg[w.reported], "reports the bridge just found"); w.reported++; };
  const BiRRTSelectActiveTreeFunction<State, Tree> swap = [&](const Tree& a, const Tree& b, const A c) { sym_assert(&a == &t[0] && &b == &t[1] && c == static_cast<A>(w.active) && w.phase == 5, "the next active tree is selected after propagation"); while (w.npending > 0 && !with && !w.tree_sample) admit(w.n[w.active]); sym_assert(w.npending == 0, "everything propagated was added"); tree_ok(w, t[0], 0); tree_ok(w, t[1], 1); w.phase = 6; const int next = sym_choice(2, "active"); if (next != w.active) w.swaps++; w.active = next; return static_cast<A>(next); };
  const BiRRTTerminationCheckFunction stop = [&](const int64_t a, const int64_t b) { sym_assert((w.phase == 0 || w.phase == 6) && a == w.n[0] && b == w.n[1], "asked with the current sizes before every iteration"); sym_assert(w.links == w.expected_links, "every pair that could meet is tested"); if (single) sym_assert(w.bridges == 0, "a solution ends the search"); w.phase = 7; if (w.iterations == iterations) return true; w.iterations++; const bool r = sym_choice(2, "stop"); if (!r) w.phase = 1; return r; };
  bool empty = false, range = false; std::vector<std::vector<State>> paths; PlanningStatistics st;
  const BiRRTStateAddedCallbackFunction<State, Tree> a = with ? added : nullptr; const BiRRTGoalBridgeCallbackFunction<State, Tree> b = with ? bridge : nullptr;
  try {
    if (single) { const auto r = BiRRTPlanSinglePath<State, Tree>(t[0], t[1], select, sample, tree_sample, nearest, propagate, a, connected, b, swap, stop); if (!r.Path().empty()) paths.push_back(r.Path()); st = r.Statistics(); sym_assert(paths.size() == (w.bridges ? 1u : 0u), "one path exactly when the trees met"); }
    else { const auto r = BiRRTPlanMultiPath<State, Tree>(t[0], t[1], select, sample, tree_sample, nearest, propagate, a, connected, b, swap, stop); paths = r.Paths(); st = r.Statistics(); sym_assert(paths.size() == static_cast<size_t>(w.bridges), "one path for each bridge"); }
  } catch (const std::invalid_argument&) { empty = true; } catch (const std::out_of_range&) { range = true; }
  sym_assert(empty == (how[0] == 0 || how[1] == 0), "refuses exactly empty trees"); if (empty) { sym_assert(w.phase == 0 && w.links == 0, "does nothing without roots"); sym_cover("empty"); return; }
  if (range) {
    if (w.phase == 3) { sym_assert(w.tree_sample && (w.target < 0 || w.target >= w.n[1 - w.active]), "fails only for a tree sample outside the tree"); sym_cover("bad-sample"); }
    else if (w.phase == 4) { sym_assert(w.near < 0 || w.near >= w.n[w.active], "fails only for a nearest node outside the tree"); sym_cover("bad-nearest"); }
    else { sym_assert(w.phase == 5, "fails only while adding"); while (!with && !w.tree_sample && w.npending > 0 && w.pending[w.n[w.active] - w.base] < w.n[w.active] - w.base) admit(w.n[w.active]); sym_assert(w.npending > 0, "fails only while adding"); const int k = w.n[w.active] - w.base; sym_assert(w.pending[k] >= k, "fails only for a parent that comes later"); sym_cover("bad-parent"); }
    tree_ok(w, t[0], 0); tree_ok(w, t[1], 1); return;
  }
  tree_ok(w, t[0], 0); tree_ok(w, t[1], 1); sym_assert(w.phase == 7 || (single && w.bridges > 0), "ends when told to"); sym_assert(w.links == w.expected_links, "every pair that could meet is tested");
  if (with) { sym_assert(w.added == w.n[0] + w.n[1] - initial[0] - initial[1], "every added state is reported"); sym_assert(w.reported == w.bridges, "every bridge is reported"); } else sym_assert(w.added == 0 && w.reported == 0, "omitted callbacks are not called");
  for (size_t i = 0; i < paths.size(); i++) path_ok(w, paths[i], w.bs[i], w.bg[i]); if (paths.size() > 1) sym_cover("several"); if (w.swaps) sym_cover("swapped");
  sym_assert(st["total_samples"] == w.samples && st["successful_samples"] == w.good && st["failed_samples"] == w.failed, "the statistics count the samples"); sym_assert(st["start_tree_active_iterations"] == w.on[0] && st["goal_tree_active_iterations"] == w.on[1] && st["active_tree_swaps"] == w.swaps, "the statistics count the active trees"); sym_assert(st["total_states"] == w.n[0] + w.n[1] && st["solutions"] == w.bridges, "the statistics count states and solutions");
}
// a state-added callback may itself grow the active tree
HARNESS(grows) {
  Tree t[2]; int id[2][16], n[2] = {1, 1}, next = 2, count = 0, done = 0, first = 0, active = 0, samples = 0, extra = 0; int64_t parent[2][16], index[4], rel[4], near = -1, target = -1; const int longest = sym_param("states", 2), iterations = sym_param("iterations", 2);
  for (int i = 0; i < 2; i++) { t[i].AddNode(State{i}); id[i][0] = i; parent[i][0] = -1; } std::vector<int> bs, bg; int told = 0;
  const BiRRTSelectSampleTypeFunction<State, Tree> select = [&](const Tree&, const Tree&, const A) { return BiRRTSampleType::TREE_SAMPLE; };
  const SamplingFunction<State> sample = [&]() { sym_fail("samples a state only when told to"); return State{-1}; };
  const BiRRTTreeSamplingFunction<State, Tree> tree_sample = [&](const Tree&, const A) { samples++; target = n[1 - active] - 1; return target; };
  const BiRRTNearestNeighborFunction<State, Tree> nearest = [&](const Tree&, const State& s, const A) { sym_assert(s.id == id[1 - active][target], "towards the sampled node"); near = sym_choice(n[active], "nearest"); return near; };
  const BiRRTPropagationFunction<State> propagate = [&](const State& from, const State&, const A) { sym_assert(from.id == id[active][near], "propagates from the nearest state"); ForwardPropagation<State> r; count = 1 + sym_choice(longest, "propagated"); done = 0; first = next; for (int i = 0; i < count; i++) { rel[i] = sym_choice(i + 1, "parent") - 1; r.emplace_back(State{next}, rel[i]); next++; } return r; };
  const BiRRTStateAddedCallbackFunction<State, Tree> added = [&](Tree& x, const int64_t i, const A) {
    const int a = active; sym_assert(&x == &t[a] && i == n[a] && x.Size() == n[a] + 1 && done < count, "reports the state just added"); id[a][i] = first + done; parent[a][i] = rel[done] < 0 ? near : index[rel[done]]; index[done] = i; done++; n[a]++;
    const int grow = sym_choice(2, "grow"); if (grow) { const int64_t at = x.AddNodeAndConnect(State{next}, i); sym_assert(at == n[a], "nodes are appended"); id[a][at] = next; parent[a][at] = i; next++; n[a]++; extra++; } };
  const BiRRTStatesConnectedFunction<State> connected = [&](const State& a, const State& b, const A) { if (samples == 0) return false; sym_assert(done > 0 && a.id == id[active][index[done - 1]] && b.id == id[1 - active][target], "the added state is tested against the target"); const int l = sym_choice(2, "connected"); if (l) { const int i = static_cast<int>(index[done - 1]), j = static_cast<int>(target); bs.push_back(active == 0 ? i : j); bg.push_back(active == 0 ? j : i); } return l == 1; };
  const BiRRTGoalBridgeCallbackFunction<State, Tree> bridge = [&](Tree&, const int64_t s, Tree&, const int64_t g, const A) { sym_assert(!bs.empty() && s == bs.back() && g == bg.back(), "reports the bridge just found"); told++; };
  const BiRRTSelectActiveTreeFunction<State, Tree> swap = [&](const Tree&, const Tree&, const A) { sym_assert(done == count, "everything propagated was added"); active = 1 - active; return static_cast<A>(active); };
  const BiRRTTerminationCheckFunction stop = [&](const int64_t a, const int64_t b) { sym_assert(a == n[0] && b == n[1], "asked with the current sizes"); return samples == iterations; };
  const auto r = BiRRTPlanMultiPath<State, Tree>(t[0], t[1], select, sample, tree_sample, nearest, propagate, added, connected, bridge, swap, stop);
  for (int a = 0; a < 2; a++) { sym_assert(t[a].Size() == n[a] && Tree::CheckNodeLinkage(t[a].GetNodesImmutable()), "both trees pass the linkage check"); if (t[a].Size() != n[a]) return; for (int i = 0; i < n[a]; i++) sym_assert(t[a].GetNodeImmutable(i).GetValueImmutable().id == id[a][i] && t[a].GetNodeImmutable(i).GetParentIndex() == parent[a][i], "each state is linked to the parent its propagation named"); }
  sym_assert(told == static_cast<int>(bs.size()) && r.Paths().size() == bs.size(), "one path for each bridge");
  for (size_t k = 0; k < r.Paths().size() && k < bs.size(); k++) { const auto& p = r.Paths()[k]; std::vector<int> e; for (int64_t i = bs[k]; i >= 0; i = parent[0][i]) e.push_back(id[0][i]); std::reverse(e.begin(), e.end()); for (int64_t i = bg[k]; i >= 0; i = parent[1][i]) e.push_back(id[1][i]); sym_assert(p.size() == e.size(), "a start tree path and a reversed goal tree path"); if (p.size() == e.size()) for (size_t i = 0; i < e.size(); i++) sym_assert(p[i].id == e[i], "the path follows both trees"); if (extra && e.size() > 3) sym_cover("grown"); }
}
//@ job both h_grows time=120 must=grown
//@ job thorough h_grows states=3 iterations=2 time=1200 must=grown
//@ job both h_plans load_ite=1 store_ite=1 states=2 time=120 must=bad-sample,bad-nearest,bad-parent,long,several,swapped
//@ job both h_plans load_ite=1 store_ite=1 iterations=1 initial=1 time=120 must=empty,long,several
//@ job both h_plans load_ite=1 store_ite=1 single=1 time=120 must=bad-sample,bad-nearest,bad-parent,long,swapped
//@ job both h_plans load_ite=1 store_ite=1 single=1 iterations=1 initial=1 time=120 must=empty
//@ job thorough h_plans load_ite=1 store_ite=1 iterations=3 time=2400
//@ job thorough h_plans load_ite=1 store_ite=1 single=1 iterations=3 time=2400
//@ job thorough h_plans load_ite=1 store_ite=1 states=2 initial=1 time=2400
