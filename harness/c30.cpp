// C30: task planning and execution only ever use what the primitives offer and produce.
//@ srcs:
//@ bound: every task of 3 states (thorough 4) and 2 primitives: each primitive refuses a state or offers one or two outcomes among the other states (or, in one job, none), one primitive at any cost k/2 in [0, 1.5] (thorough both, up to 3), the other at fixed costs; the first, the last or no state complete (thorough: any set); starts {0}, {0,1}, {1,0}, {0,0}; execution limits -1, 0..3 and any one or two outcomes returned by each execution, up to 2 executions (1 for several starts); collections of 3 (thorough 4) operations over 3 names
//@ outside: estimates (heuristics) are any consistent ones k/2 in [0, 2] from the start {0} to the last state; (the selection of an outcome is checked with a hash under which all states collide, the rest with std::hash) more than 4 states or 2 primitives; negative costs; inconsistent heuristics; longer executions
#include <sym.h>
#include <functional>
#include <stdexcept>
#include <common_robotics_utilities/simple_task_planner.hpp>
using namespace common_robotics_utilities::simple_task_planner;
typedef std::vector<int> States;
static const int kMax = 4; static const double kInf = std::numeric_limits<double>::infinity();
// the task is decided as it is looked at: the same answers for everyone, no matter who asks first
struct Entry { bool decided = false, accepts = false; int n = 0; int to[2] = {0, 0}; double cost[2] = {0.0, 0.0}; };
struct Task {
  int n; Entry e[2][kMax]; int complete[kMax];
  int goal; bool guessed[kMax] = {}; double guess[kMax] = {};
  // an estimate of the cost still to come; only consistent ones promise cheapest plans
  double estimate(int s) { if (!guessed[s]) { guessed[s] = true; guess[s] = sym_double_grid(0, 4, 1, "estimate"); } return guess[s]; }
  bool consistent() { int ok = 1; for (int s = 0; s < n; s++) { if (guessed[s] && complete[s] == 1) ok &= guess[s] == 0.0; if (guessed[s]) for (int p = 0; p < 2; p++) for (int i = 0; i < e[p][s].n; i++) { const int to = e[p][s].to[i]; const double rest = guessed[to] ? guess[to] : 0.0; ok &= guess[s] <= e[p][s].cost[i] + rest; } } return ok; }
  // the complete states: the first, the last or none - or any set
  explicit Task(int states) : n(states) { const int g = sym_param("goal", 0) ? sym_param("goal", 0) : sym_choice(3, "goal"); goal = g == 0 ? 0 : g == 1 ? n - 1 : n; for (int i = 0; i < kMax; i++) complete[i] = sym_param("goals", 1) == 1 ? i == goal : i == n - 1 ? 1 : -1; if (sym_param("goals", 1) != 1) goal = n - 1; }
  const Entry& at(int p, int s) {
    Entry& x = e[p][s]; if (x.decided) return x; x.decided = true;
    int others[kMax], m = 0; for (int i = 0; i < n; i++) if (i != s) others[m++] = i;
    // nothing, or each single other state, or a pair of them, or accepted without an outcome; without a complete state only nothing or a pair
    const int pairs = m * (m - 1) / 2; int c;
    if (goal < n) c = sym_choice(1 + m + pairs + sym_param("empty", 0), "outcomes"); else { const int yes = sym_choice(2, "outcomes"); c = yes ? 1 + m : 0; }
    x.accepts = c > 0; if (c == 0) return x;
    if (c <= m) { x.n = 1; x.to[0] = others[c - 1]; } else { int k = m + 1; for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++, k++) if (k == c) { x.n = 2; x.to[0] = others[j]; x.to[1] = others[i]; } }
    for (int i = 0; i < x.n; i++) x.cost[i] = p < sym_param("free", 1) ? sym_double_grid(0, sym_param("costs", 3), 1, "cost") : 0.5 * ((x.to[i] + 2 * s + p) % 4); return x;
  }
  bool done(int s) { if (complete[s] < 0) complete[s] = sym_choice(2, "complete"); return complete[s] == 1; }
};
// every way to complete the task without visiting a state twice
static void ways(Task& t, int s, double cost, bool* seen, std::vector<double>& out) { if (t.done(s)) { out.push_back(cost); return; } seen[s] = true; for (int p = 0; p < 2; p++) { const Entry& x = t.at(p, s); for (int i = 0; i < x.n; i++) if (!seen[x.to[i]]) ways(t, x.to[i], cost + x.cost[i], seen, out); } seen[s] = false; }
static std::vector<double> ways(Task& t, const States& starts) { std::vector<double> r; bool seen[kMax] = {}; for (int s : starts) ways(t, s, 0.0, seen, r); return r; }
static bool possible(Task& t, const States& starts) { return !ways(t, starts).empty(); }
class Primitive : public ActionPrimitiveInterface<int> {
public:
  Primitive(Task& t, int p) : t_(t), p_(p), name_(p ? "b" : "a") {}
  bool IsCandidate(const int& s) const override { return t_.at(p_, s).accepts; }
  common_robotics_utilities::simple_astar_search::StatesWithCosts<int> GetOutcomes(const int& s) const override { const Entry& x = t_.at(p_, s); sym_assert(x.accepts, "only accepted states are asked for outcomes"); common_robotics_utilities::simple_astar_search::StatesWithCosts<int> r; for (int i = 0; i < x.n; i++) r.emplace_back(x.to[i], x.cost[i]); return r; }
  States Execute(const int& s) override { return execute(s); }
  const std::string& Name() const override { return name_; }
  std::function<States(const int&)> execute;
private:
  Task& t_; int p_; std::string name_;
};
static bool in(const States& v, int s) { for (int x : v) if (x == s) return true; return false; }
// a planning result that really is a plan for these starts
static void plan(Task& t, const TaskStateAstarResult<int>& r, const States& starts) {
  const std::vector<double> all = ways(t, starts); const auto& p = r.Path();
  if (all.empty()) { sym_assert(r.PathCost() == kInf && p.empty(), "no plan for a task that cannot be completed"); sym_cover("impossible"); return; }
  sym_assert(!p.empty(), "a plan for a task that can be completed"); if (p.empty()) return; int cheapest = 1; for (double w : all) cheapest &= r.PathCost() <= w; sym_assert(cheapest, "no cheaper completion"); sym_assert(in(starts, p[0].Outcome()) && p[0].PrimitiveIndex() == -1, "starts at a start state"); double cost = 0.0;
  for (size_t i = 1; i < p.size(); i++) {
    const int64_t k = p[i].PrimitiveIndex(); sym_assert(k == 0 || k == 1, "a registered primitive"); if (k != 0 && k != 1) return; const Entry& x = t.at(static_cast<int>(k), p[i - 1].Outcome()); sym_assert(x.accepts, "the primitive accepts the state"); sym_assert(!t.done(p[i - 1].Outcome()), "a complete state ends the plan");
    bool found = false; for (int j = 0; j < x.n; j++) if (x.to[j] == p[i].Outcome()) { cost += x.cost[j]; found = true; } sym_assert(found, "continues with an outcome of the primitive");
  }
  sym_assert(cost == r.PathCost(), "the cost is the cost of the plan"); sym_assert(t.done(p.back().Outcome()), "ends complete"); if (p.size() > 2) sym_cover("long"); if (p.size() == 1) sym_cover("trivial");
}
static States starts(int n, bool single = false) { States s; const int how = single || sym_param("start", 0) ? 1 : sym_choice(4, "starts"); if (how == 0) s = {1, 0}; else if (how == 1) s = {0}; else if (how == 2) s = {0, 1}; else s = {0, 0}; return s; }
struct World { Task t; ActionPrimitiveCollection<int> c; std::shared_ptr<Primitive> p[2]; explicit World(int n) : t(n) { for (int i = 0; i < 2; i++) { p[i] = std::make_shared<Primitive>(t, i); c.RegisterPrimitive(p[i]); } } };
static StateHeuristicFunction<int> heuristic(Task& t) { const int kind = sym_param("heuristic", 0); if (kind == 1) return [](const int&) { return 0.0; }; if (kind == 2) return [&t](const int& s) { return t.estimate(s); }; return {}; }
HARNESS(plans) {
  World w(sym_param("states", 3)); const States s = starts(w.t.n); const auto r = PlanTaskStateSequence<int>(w.c, [&](const int& x) { return w.t.done(x); }, s, heuristic(w.t));
  if (sym_param("heuristic", 0) == 2) { ways(w.t, s); sym_assume(w.t.consistent()); bool any = false; for (int i = 0; i < w.t.n; i++) any |= w.t.guessed[i] && w.t.guess[i] > 0.0; if (any) sym_cover("estimated"); }
  plan(w.t, r, s);
}
struct Clash { size_t operator()(const int&) const { return 7; } };     // every state collides with every other
HARNESS(next) {
  World w(sym_param("states", 3)); const int how = sym_choice(2, "starts"); const States s = how ? starts(w.t.n) : States(); bool bad = false, unsolved = false;
  try {
    const auto r = GetNextPrimitiveToExecute<int, States, Clash>(w.c, [&](const int& x) { return w.t.done(x); }, s, heuristic(w.t)); plan(w.t, r.PlanningResult(), s); const auto& p = r.PlanningResult().Path(); sym_assert(!p.empty(), "a plan"); const int64_t i = r.SelectedOutcomeIndex(); sym_assert(i >= 0 && i < static_cast<int64_t>(s.size()) && s[static_cast<size_t>(i)] == p[0].Outcome(), "the selected outcome starts the plan");
    if (w.t.done(p[0].Outcome())) sym_assert(!r.ActionPrimitive(), "nothing to do for a complete state"); else { sym_assert(r.ActionPrimitive() == w.p[p[1].PrimitiveIndex()], "the primitive is the first of the plan"); sym_cover("primitive"); }
  } catch (const std::invalid_argument&) { bad = true; } catch (const std::runtime_error&) { unsolved = true; }
  sym_assert(bad == s.empty(), "refuses exactly the empty outcomes"); if (!s.empty()) { sym_assert(unsolved == !possible(w.t, s), "fails exactly when nothing can be completed"); if (unsolved) sym_cover("unsolved"); }
}
// everything that happens during one execution, judged as it happens
HARNESS(executes) {
  World w(sym_param("states", 3)); const int single = sym_param("single", 0); const States s = starts(w.t.n, single); const int limit = sym_choice(sym_param("limit", 3) + 2, "limit") - 1; const int longest = sym_param("longest", 2);
  States current = s, trace; int executed = 0, phase = 0, selected = -1; bool done = false, failed = false; ActionPrimitiveInterface<int>* primitive = nullptr;
  for (int i = 0; i < 2; i++) w.p[i]->execute = [&, i](const int& x) {
    sym_assert(phase == 2, "executes after the pre-execution callback"); sym_assert(primitive == w.p[i].get() && x == selected, "executes the chosen primitive on the selected outcome"); sym_assert(w.t.at(i, x).accepts, "executes only on accepted states"); executed++; sym_assert(limit < 0 || executed <= limit, "never more executions than allowed"); phase = 3;
    sym_assume(executed <= longest); const int a = static_cast<int>(sym_choice(w.t.n, "result")); current = States{a}; if (sym_choice(2, "results")) { const int b = sym_choice(w.t.n, "other result"); current.push_back(b); } return current; };
  const auto complete = [&](const int& x) { return w.t.done(x); };
  const auto outcome = [&](const States& o, const int64_t i, const TaskStateAstarResult<int>& r) { sym_assert(phase == 0, "one outcome is selected per round"); sym_assert(o == current && i >= 0 && i < static_cast<int64_t>(o.size()), "selects from what was produced"); selected = o[static_cast<size_t>(i)]; trace.push_back(selected); plan(w.t, r, current); sym_assert(r.Path()[0].Outcome() == selected, "the plan starts at the selected outcome"); phase = 1; done = w.t.done(selected); };
  const auto before = [&](const int& x, const ActionPrimitiveSharedPtr<int>& p, const TaskStateAstarResult<int>& r) { sym_assert(phase == 1 && x == selected && !done, "execution follows the selection of an incomplete outcome"); sym_assert(r.Path().size() > 1 && p == w.p[r.Path()[1].PrimitiveIndex()], "the planned primitive"); primitive = p.get(); phase = 2; };
  const auto after = [&](const States& o) { sym_assert(phase == 3 && o == current, "results are reported as produced"); phase = 0; };
  States r;
  try { r = single ? PerformSingleTaskExecution<int, States>(w.c, complete, s[0], limit, {}, std::hash<int>(), std::equal_to<int>(), before, after, outcome) : PerformSingleTaskExecution<int, States>(w.c, complete, s, limit, {}, std::hash<int>(), std::equal_to<int>(), before, after, outcome); } catch (const std::runtime_error&) { failed = true; }
  if (failed) { sym_assert(phase == 0 && !possible(w.t, current) && (limit < 0 || executed < limit), "fails only when nothing that was produced can be completed"); sym_cover("failed"); return; }
  sym_assert(r == trace, "the trace is the selected outcomes"); if (done) { sym_assert(phase == 1 && r.size() == static_cast<size_t>(executed) + 1, "ends when complete"); sym_cover("complete"); if (executed > 1) sym_cover("several"); } else { sym_assert(phase == 0 && executed == limit && r.size() == static_cast<size_t>(executed), "ends incomplete only at the limit"); sym_cover("limited"); }
}
// collections: unique names, in registration order
static const char* const kNames[3] = {"x", "y", "z"};
HARNESS(collection) {
  ActionPrimitiveCollection<int> c; States expect; const int steps = sym_param("steps", 4); std::vector<int> ids; int calls = 0;
  for (int k = 0; k < steps; k++) {
    const int op = 2 + sym_choice(4, "operation"), which = sym_choice(3, "name");
    if (op == 2) {
      auto p = std::make_shared<ActionPrimitiveWrapper<int>>([&calls, which](const int& s) { calls++; return s == which; }, [which](const int& s) { common_robotics_utilities::simple_astar_search::StatesWithCosts<int> r; r.emplace_back(s + which, 1.0); return r; }, [which](const int& s) { return States{s, which}; }, kNames[which]); bool threw = false; try { c.RegisterPrimitive(p); } catch (const std::invalid_argument&) { threw = true; }
      sym_assert(threw == in(expect, which), "exactly duplicate names are refused"); if (!threw) expect.push_back(which); else sym_cover("duplicate"); }
    else if (op == 3) { c.UnregisterPrimitiveByName(kNames[which]); States e; for (int x : expect) if (x != which) e.push_back(x); if (e.size() < expect.size()) sym_cover("removed"); expect = e; }
    else if (op == 4) { const int other = (which + 1) % 3; c.UnregisterPrimitivesByName({kNames[which], kNames[other]}); States e; for (int x : expect) if (x != which && x != other) e.push_back(x); expect = e; }
    else { c.ClearPrimitives(); expect.clear(); }
    sym_assert(c.Primitives().size() == expect.size(), "as many primitives as registered names"); for (size_t i = 0; i < expect.size(); i++) { const auto& p = c.Primitives()[i]; const int w = expect[i]; sym_assert(p->Name() == kNames[w], "in registration order"); const bool yes = p->IsCandidate(w), no = p->IsCandidate(w + 1); const auto o = p->GetOutcomes(5); const States x = p->Execute(7); sym_assert(yes && !no && o.size() == 1 && o[0].State() == 5 + w && o[0].Cost() == 1.0 && x == (States{7, w}), "wrapped functions are called"); }
  }
}
//@ job both h_plans load_ite=1 store_ite=1 time=120 must=impossible,long,trivial
//@ job both h_plans free=0 empty=1 time=120
//@ job both h_plans heuristic=2 start=1 goal=1 load_ite=1 store_ite=1 time=240 must=impossible,long,estimated
//@ job both h_next free=0 time=120 must=primitive,unsolved
//@ job both h_executes free=0 longest=1 time=150 must=failed,complete,limited
//@ job both h_executes free=0 single=1 time=150 must=failed,complete,limited,several
//@ job both h_collection steps=3 time=60 must=duplicate,removed
//@ job thorough h_collection steps=4 time=600
//@ job thorough h_executes free=0 longest=2 time=1200 must=failed,complete,limited,several
//@ job thorough h_plans load_ite=1 store_ite=1 heuristic=1 time=600
//@ job thorough h_plans goals=2 free=0 time=600
//@ job thorough h_plans load_ite=1 store_ite=1 costs=6 time=2400
//@ job thorough h_plans load_ite=1 store_ite=1 free=2 time=1200
//@ job thorough h_plans states=4 free=0 time=1800
