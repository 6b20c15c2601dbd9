// C33: RRT propagation and sampling helpers honour their limits.
//@ srcs:
//@ bound: extend and connect (single and bidirectional) between positions on a line at every distance k/4 in [0, 4] and steps 1/4, 1/2, 3/4, 1, 3/2, 3, 8 and infinity, connect at any distance k/64 up to 4 steps of 1/2 and 1, and both at 0 to 3 steps plus or minus eight hairs from 2^-8 to 2^-46, every outcome of the edge checks; any 64-bit real step size, bias and timeout refused or accepted; draws k/16 in [0, 1) and 2^-44 next to the bias, biases k/16 in [0, 1], 1..3 goals, trees of 1..3 nodes; nearest neighbours in trees of 0..3 nodes with any distances k/4 in [0, 4], with and without parallelism; timeouts 1/2, 1 and 3 s over 3 calls at any clock
//@ outside: more than 2^31 steps; distances and interpolations that round; draws equal to the bias; the number of steps when the last step rounds
#include <sym.h>
#include <cmath>
#include <stdexcept>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
using namespace common_robotics_utilities::simple_rrt_planner;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
struct State { double x; };
using Tree = SimpleRRTPlannerTree<State>; using A = BiRRTActiveTreeType;
static const double kInf = std::numeric_limits<double>::infinity();
static double dist(const State& a, const State& b) { return std::abs(a.x - b.x); }
// one propagation: what was asked of the edge check, and the answers
struct Log { double from[32], to[32]; int n = 0; bool rejected = false; };
static Log g; static double g_step, g_dir;
static bool edge(const State& a, const State& b) { sym_assert(!g.rejected, "stops at the first rejected edge"); if (g.n >= 32) { sym_fail("too many edges"); return false; } g.from[g.n] = a.x; g.to[g.n] = b.x; g.n++; const bool ok = sym_choice(2, "valid"); if (!ok) g.rejected = true; return ok; }
static State interp(const State& a, const State& b, const double r) { sym_assert(r == g_step / dist(a, b), "one step towards the target"); sym_assert((b.x - a.x) * g_dir > 0.0, "towards the target"); return State{a.x + g_dir * g_step}; }
static void judge(const ForwardPropagation<State>& p, double a, double b, double step, bool connect) {
  sym_assert(static_cast<int>(p.size()) == g.n - (g.rejected ? 1 : 0), "emits exactly the accepted states"); sym_assert(connect || g.n == 1, "extend takes one step"); double at = a;
  for (size_t i = 0; i < p.size(); i++) { sym_assert(p[i].RelativeParentIndex() == static_cast<int64_t>(i) - 1, "each state names the one before"); sym_assert(g.from[i] == at && g.to[i] == p[i].State().x, "the edge to each state was accepted"); const double x = p[i].State().x, left = std::abs(b - at); sym_assert(std::abs(x - at) <= step, "no longer than a step"); const bool within = left <= step; if (within) { sym_assert(x == b, "ends at the target within reach"); sym_cover("reached"); } else sym_assert(std::abs(x - at) == step && std::abs(b - x) < left, "a full step towards the target"); at = x; }
  if (g.rejected) { sym_assert(g.from[g.n - 1] == at, "the rejected edge starts at the last state"); sym_cover("rejected"); } else if (connect) sym_assert(at == b, "goes on until the target"); if (p.size() > 2) sym_cover("several");
}
static void propagate(double a, double b, double step, bool up) {
  g = Log(); g_step = step; g_dir = up ? 1.0 : -1.0; const int which = sym_choice(2, "bidirectional"), how = sym_param("connect", 1); const int tree = which ? sym_choice(2, "tree") : 0; const State from{a}, to{b}; ForwardPropagation<State> p;
  if (how) p = which ? MakeKinematicBiRRTConnectPropagationFunction<State>(dist, interp, edge, step)(from, to, static_cast<A>(tree)) : MakeKinematicRRTConnectPropagationFunction<State>(dist, interp, edge, step)(from, to);
  else p = which ? MakeKinematicBiRRTExtendPropagationFunction<State>(dist, interp, edge, step)(from, to, static_cast<A>(tree)) : MakeKinematicRRTExtendPropagationFunction<State>(dist, interp, edge, step)(from, to);
  judge(p, a, b, step, how);
}
HARNESS(steps) { static const double sp[] = {0.25, 0.5, 0.75, 1.0, 1.5, 3.0, 8.0, kInf}; const double step = sp[sym_choice(8, "step")]; const int longest = step < 0.5 ? 8 : 16; const double d = 0.25 * sym_choice(longest + 1, "distance"); const bool down = sym_choice(2, "direction"); propagate(5.0, down ? 5.0 - d : 5.0 + d, step, !down); }
HARNESS(distances) { const double step = sym_choice(2, "step") ? 1.0 : 0.5; const int w = static_cast<int>(step * 64), c = sym_choice(4, "steps"); const double a = sym_double_grid(-16, 16, 3, "from"), d = sym_double_grid(c * w + 1, (c + 1) * w, 6, "distance"); const bool down = sym_choice(2, "direction"); propagate(a, down ? a - d : a + d, step, !down); }
// a hair more or less than a whole number of steps
HARNESS(hair) { const double step = sym_choice(2, "step") ? 1.0 : 0.5; static const double hair[] = {0x1p-8, 0x1p-16, 0x1p-20, 0x1p-24, 0x1p-28, 0x1p-34, 0x1p-40, 0x1p-46}; const int k = sym_choice(4, "steps"), h = sym_choice(8, "hair"); const bool less = sym_choice(2, "less"); if (less && k == 0) return; const double d = k * step + (less ? -hair[h] : hair[h]); const bool down = sym_choice(2, "direction"); propagate(5.0, down ? 5.0 - d : 5.0 + d, step, !down); }
template <class F> static bool refused(F f) { try { f(); } catch (const std::invalid_argument&) { return true; } catch (const std::runtime_error&) { return true; } return false; }
HARNESS(refuses) {
  const double v = sym_double("value"); const int which = sym_choice(9, "parameter"); int uses = 0; const auto unit = [&]() { uses++; return 0.5; }; const std::function<State()> sample = [&]() { uses++; return State{1.0}; }; const std::vector<State> goals(2, State{2.0}), none;
  if (which < 4) { const bool r = refused([&] { if (which == 0) MakeKinematicRRTExtendPropagationFunction<State>(dist, interp, edge, v); if (which == 1) MakeKinematicBiRRTExtendPropagationFunction<State>(dist, interp, edge, v); if (which == 2) MakeKinematicRRTConnectPropagationFunction<State>(dist, interp, edge, v); if (which == 3) MakeKinematicBiRRTConnectPropagationFunction<State>(dist, interp, edge, v); }); sym_assert(r == !(v > 0.0), "exactly the positive step sizes are accepted"); }
  else if (which < 7) { const bool r = refused([&] { if (which == 4) MakeUniformRandomBiRRTSelectSampleTypeFunction<State>(unit, v); if (which == 5) MakeUniformRandomBiRRTSelectActiveTreeFunction<State>(unit, v); if (which == 6) MakeStateAndGoalsSamplingFunction<State>(sample, goals, v, unit); }); sym_assert(r == !(v >= 0.0 && v <= 1.0), "exactly the probabilities are accepted"); if (r) sym_cover("refused"); else sym_cover("accepted"); }
  else if (which == 7) { const bool r = refused([&] { MakeRRTTimeoutTerminationFunction(v); }), q = refused([&] { MakeBiRRTTimeoutTerminationFunction(v); }); sym_assert(r == !(v > 0.0) && q == r, "exactly the positive timeouts are accepted"); }
  else sym_assert(refused([&] { MakeStateAndGoalsSamplingFunction<State>(sample, none, 0.5, unit); }), "no goals are refused");
  sym_assert(uses == 0, "nothing is drawn yet");
}
static double draw(const char* name) { return sym_double_grid(0, 15, 4, name); }
HARNESS(draws) {
  const int which = sym_choice(4, "helper"); const double bias = sym_double_grid(0, 16, 4, "bias"), close = draw("first draw"), second = draw("second draw"); const int near = sym_param("near", 0) ? 1 + sym_choice(2, "near") : 0; const double first = near == 0 ? close : near == 1 ? bias - 0x1p-44 : bias + 0x1p-44; if (!(first >= 0.0 && first < 1.0)) return; int draws = 0, samples = 0; const auto unit = [&]() { draws++; return draws == 1 ? first : second; };
  Tree t[2]; for (int i = 0; i < 2; i++) t[i].AddNode(State{1.0 * i}); if (first == bias && which != 3) return; const bool yes = first < bias;
  if (which == 0) { const auto f = MakeUniformRandomBiRRTSelectSampleTypeFunction<State>(unit, bias); const int active = sym_choice(2, "active"); sym_assert((f(t[0], t[1], static_cast<A>(active)) == BiRRTSampleType::TREE_SAMPLE) == yes && draws == 1, "samples the tree as often as the bias says"); if (yes) sym_cover("tree"); }
  if (which == 1) { const auto f = MakeUniformRandomBiRRTSelectActiveTreeFunction<State>(unit, bias); const int active = sym_choice(2, "active"); sym_assert(f(t[0], t[1], static_cast<A>(active)) == static_cast<A>(yes ? 1 - active : active) && draws == 1, "switches as often as the bias says"); if (yes) sym_cover("switch"); }
  if (which == 2) {
    const int n = 1 + sym_choice(3, "goals"); std::vector<State> goals; for (int i = 0; i < n; i++) goals.push_back(State{10.0 + i}); const std::function<State()> sample = [&]() { samples++; return State{1.0}; }; const auto f = MakeStateAndGoalsSamplingFunction<State>(sample, goals, bias, unit); const State s = f();
    if (!yes) { sym_assert(s.x == 1.0 && samples == 1 && draws == 1, "samples a state otherwise"); sym_cover("state"); } else { sym_assert(samples == 0, "samples a goal as often as the bias says"); int ok = 0; for (int i = 0; i < n; i++) ok |= (s.x == 10.0 + i) & (n == 1 || (second * n >= i && second * n < i + 1)); sym_assert(ok, "a goal chosen by the draw"); if (n > 1) sym_cover("goal"); }
  }
  if (which == 3) { const int n = 1 + sym_choice(3, "nodes"); for (int i = 1; i < n; i++) t[0].AddNodeAndConnect(State{1.0 * i}, 0); const auto f = MakeUniformRandomBiRRTTreeSamplingFunction<State>(unit); const int active = sym_choice(2, "active"); const int64_t i = f(t[0], static_cast<A>(active)); sym_assert(i >= 0 && i < n, "a node of the tree"); sym_assert(first * n >= static_cast<double>(i) && first * n < static_cast<double>(i + 1) && draws == 1, "a node chosen by the draw"); if (i == 2) sym_cover("node"); }
}
HARNESS(nearest) {
  const int n = sym_choice(4, "nodes"); Tree t; double d[3] = {}; for (int i = 0; i < n; i++) { d[i] = sym_double_grid(0, 16, 2, "distance"); if (i) t.AddNodeAndConnect(State{1.0 * i}, i - 1); else t.AddNode(State{0.0}); }
  const std::function<double(const State&, const State&)> f = [&](const State& a, const State& b) { sym_assert(b.x == 100.0, "distance to the sample"); return d[static_cast<int>(a.x)]; }; const std::function<double(const State&, const int&)> fi = [&](const State& a, const int& b) { sym_assert(b == 100, "distance to the sample"); return d[static_cast<int>(a.x)]; };
  const int which = sym_choice(3, "helper"); const int threads = sym_param("threads", 1); const DegreeOfParallelism p = threads > 1 ? DegreeOfParallelism(threads) : DegreeOfParallelism::None(); int64_t at = -1; bool threw = false;
  try { if (which == 0) at = MakeLinearRRTNearestNeighborsFunction<State, Tree, int>(fi, p)(t, 100); if (which == 1) at = MakeKinematicLinearRRTNearestNeighborsFunction<State>(f, p)(t, State{100.0}); if (which == 2) at = MakeKinematicLinearBiRRTNearestNeighborsFunction<State>(f, p)(t, State{100.0}, A::GOAL_TREE); } catch (const std::runtime_error&) { threw = true; }
  sym_assert(threw == (n == 0), "an empty tree has no nearest node"); if (threw) { sym_cover("empty"); return; } sym_assert(at >= 0 && at < n, "a node of the tree"); int ok = 1; for (int i = 0; i < n; i++) ok &= d[at] <= d[i]; sym_assert(ok, "no node is nearer"); if (at == 2) sym_cover("last");
}
HARNESS(timeouts) {
  static const double to[] = {0.5, 1.0, 3.0}; const double timeout = to[sym_choice(3, "timeout")]; const bool bi = sym_choice(2, "bidirectional"); const auto f = MakeRRTTimeoutTerminationFunction(timeout); const auto h = MakeBiRRTTimeoutTerminationFunction(timeout);
  const auto before = std::chrono::steady_clock::now(); const bool first = bi ? h(1, 1) : f(1); const auto started = std::chrono::steady_clock::now(); sym_assert(!first, "the first call starts the clock");
  const int calls = sym_param("calls", 2); for (int i = 0; i < calls; i++) { const auto a = std::chrono::steady_clock::now(); const bool r = bi ? h(1, 1) : f(1); const auto b = std::chrono::steady_clock::now(); const int64_t ns = static_cast<int64_t>(timeout * 1e9); const int64_t most = (b - before).count(), least = (a - started).count(); sym_assert(!r || most > ns, "never stops early"); sym_assert(r || least <= ns, "stops once the time is up"); if (r) sym_cover("timeout"); else sym_cover("time-left"); }
}
//@ job both h_hair time=200 must=reached,several
//@ job both h_hair connect=0 time=60 must=reached,rejected
//@ job both h_steps time=100 must=reached,rejected,several
//@ job both h_steps connect=0 time=60 must=reached,rejected
//@ job both h_distances time=100 must=reached,rejected,several
//@ job both h_refuses time=60 must=refused,accepted
//@ job both h_draws time=60 must=tree,switch,state,goal,node
//@ job both h_draws near=1 time=60 must=tree,switch,state,goal,node
//@ job both h_nearest time=60 must=empty,last
//@ job both h_nearest threads=2 time=60 must=empty,last
//@ job both h_timeouts clock_sym=2 calls=1 native=0 time=60 must=timeout,time-left
//@ job both h_timeouts clock_sym=1 native=0 time=60 must=timeout,time-left
