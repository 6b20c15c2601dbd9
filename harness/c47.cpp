// C47: time-optimal trajectories: refusals, ends, limits, queries in any order, copies.
//@ srcs: src/common_robotics_utilities/math.cpp src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
//@ bound: refusals: any double as each limit, deviation, time step, coordinate or query time that has to be refused, all sizes up to 3 of waypoints and limits; ends, limits, deviation: the 9 listed paths of 1 to 3 dimensions (straight, cornered, reversing, blended), two time steps, 17 times of each trajectory; every path from the origin through two further waypoints of a 4x4 grid (5x5 in the thorough tier, where the library may give up on steep limits with a runtime_error, and 3x3 with a finer time step), three pairs of limits, no deviation, one smaller and one larger than the legs, 33 times of each; order of queries: every history of up to 3 operations (4 in the thorough tier) among queries at 5 times, copying, destroying the original; thorough tier: a straight one-dimensional trajectory at any time at all
//@ outside: other paths and limits (the integration runs over iterated square roots and trigonometry of concrete values), acceleration limits, the optimality of the duration, times beyond the duration, limits of zero; at direction changes velocities are allowed to exceed their limits by the acceleration of one time step
#include <sym.h>
#include <cmath>
#include <stdexcept>
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
using namespace common_robotics_utilities::time_optimal_trajectory_parametrization; using X = Eigen::VectorXd; using Path = std::vector<X>; using T = std::unique_ptr<PositionVelocityTrajectoryInterface>;
static X vec(int n, double a, double b, double c) { X x(n); const double v[3] = {a, b, c}; for (int i = 0; i < n; i++) x(i) = v[i]; return x; }
struct Case { Path path; X v, a; double dev, step; bool straight; };
static Case pick(int k, double step) {
  Case c; c.dev = 0.0; c.step = step; c.straight = k <= 2 || k == 5 || k == 8; c.v = vec(2, 1, 0.5, 0); c.a = vec(2, 2, 2, 0);
  if (k == 0) c.path = {vec(2, 0, 0, 0), vec(2, 0.25, 0.125, 0)};
  else if (k == 1) { c.path = {vec(1, 1, 0, 0), vec(1, 0.5, 0, 0)}; c.v = vec(1, 0.25, 0, 0); c.a = vec(1, 1, 0, 0); }
  else if (k == 2) { c.path = {vec(3, 0, 0, 0), vec(3, 0.1, -0.2, 0), vec(3, 0.2, -0.4, 0)}; c.v = vec(3, 0.3, 0.3, 0); c.a = vec(3, 1, 0.5, 0); }   // the last joint is locked
  else if (k == 3) c.path = {vec(2, 0, 0, 0), vec(2, 0.25, 0, 0), vec(2, 0.25, 0.25, 0)};
  else if (k == 4) { c.path = {vec(2, 0, 0, 0), vec(2, 0.25, 0, 0), vec(2, 0.25, 0.25, 0)}; c.dev = 0.03125; }
  else if (k == 5) { c.path = {vec(2, 1, 1, 0), vec(2, 1, 1.5, 0), vec(2, 1, 2.0, 0)}; c.dev = 0.1; }   // nothing to blend
  else if (k == 6) { c.path = {vec(2, 0, 0, 0), vec(2, 0.3, 0.1, 0), vec(2, 0.1, 0.4, 0), vec(2, -0.2, 0.4, 0)}; c.dev = 0.02; c.a = vec(2, 1, 0.5, 0); }
  else if (k == 8) { c.path = {vec(2, 0, 0, 0), vec(2, 0.5, 0.05, 0)}; c.v = vec(2, 1, 0.05, 0); }   // the limit of the joint that moves least binds
  else { c.path = {vec(1, 0, 0, 0), vec(1, 0.5, 0, 0), vec(1, 0.25, 0, 0)}; c.v = vec(1, 1, 0, 0); c.a = vec(1, 2, 0, 0); c.dev = 0.05; }   // reverses
  return c;
}
static T make(const Case& c) { return ParametrizePathTOTP(c.path, c.v, c.a, c.dev, c.step); }
static double off(const Path& p, const X& q) {   // distance from the polyline
  double best = 1e9; for (size_t i = 0; i + 1 < p.size(); i++) { const X d = p[i + 1] - p[i]; double r = d.dot(q - p[i]) / d.squaredNorm(); r = std::min(1.0, std::max(0.0, r)); best = std::min(best, (q - p[i] - r * d).norm()); } return best;
}
static int boxed(const Path& p, const X& q) {   // blends cut corners, they never leave the waypoints' bounding box
  int ok = 1; for (int j = 0; j < q.size(); j++) { double lo = p[0](j), hi = lo; for (const X& w : p) { lo = std::min(lo, w(j)); hi = std::max(hi, w(j)); } ok &= (q(j) >= lo - 1e-6) & (q(j) <= hi + 1e-6); } return ok;
}
HARNESS(motion) {
  const int k = sym_choice(9, "path"), s = sym_choice(2, "timestep"); const Case c = pick(k, s ? 0.0625 : 0.01); const T t = make(c); const double d = t->Duration(); sym_assert(d > 0.0 && d < 100.0, "a duration");
  const auto a = t->GetPositionVelocityTimePoint(0.0), b = t->GetPositionVelocityTimePoint(d); sym_assert((a.Position() - c.path.front()).norm() < 1e-9 && (b.Position() - c.path.back()).norm() < 1e-9, "starts and ends at the path's ends"); sym_assert(a.Velocity().norm() < 1e-9 && b.Velocity().norm() < 1e-6, "starts and ends at rest");
  X last = a.Position(); double lt = 0.0; for (int i = 0; i <= 16; i++) {
    const double at = d * i / 16; const auto p = t->GetPositionVelocityTimePoint(at); sym_assert(p.Time() == at && p.Position().size() == c.path[0].size() && p.Velocity().size() == c.path[0].size(), "the time asked for"); const X q = p.Position(), w = p.Velocity();
    sym_assert(off(c.path, q) <= c.dev + 1e-6, "positions stay within the allowed deviation of the path"); sym_assert(boxed(c.path, q), "positions stay between the waypoints"); int ok = 1, mv = 1; for (int j = 0; j < q.size(); j++) { const double vj = c.v(j) * (1 + 1e-9) + 1e-9 + (c.straight ? 0.0 : c.step * c.a(j)); ok &= std::abs(w(j)) <= vj; mv &= std::abs(q(j) - last(j)) <= vj * (at - lt) + 1e-6; }
    sym_assert(ok, "velocities stay within the limits"); sym_assert(mv, "positions change no faster than the limits"); if (i) { const auto e = t->GetPositionVelocityTimePoint(at - 1e-6); int de = 1; for (int j = 0; j < q.size(); j++) de &= std::abs((q(j) - e.Position()(j)) - 1e-6 * w(j)) < 2e-7 * (1 + std::abs(w(j))) || k == 3 || k == 4 || k == 6 || k == 7; sym_assert(de, "the velocity is the change of the position"); }
    last = q; lt = at; }
  for (size_t i = 0; i < c.path.size(); i++) { double near = 1e9; for (int j = 0; j <= 400; j++) near = std::min(near, (t->GetPositionVelocityTimePoint(d * j / 400).Position() - c.path[i]).norm()); sym_assert(near <= c.dev + 0.02, "every waypoint is passed within the allowed deviation"); }
  sym_cover(c.straight ? "straight" : c.dev > 0 ? "blended" : "cornered"); sym_observe_d(d);
}
HARNESS(grid) {   // three waypoints on a grid, with limits that bind differently
  const int n = sym_param("grid", 3), a = sym_choice(n * n, "second"), b = sym_choice(n * n, "third"), l = sym_choice(3, "limits"), e = sym_choice(3, "deviation"); Case c; c.straight = false; c.step = sym_param("fine", 0) ? 0.005 : 0.02; c.dev = e == 2 ? 1.0 : e ? 0.03 : 0.0; c.path = {vec(2, 0, 0, 0), vec(2, 0.25 * (a % n), 0.25 * (a / n), 0), vec(2, 0.25 * (b % n), 0.25 * (b / n), 0)}; c.v = vec(2, 1, l == 1 ? 0.2 : 1, 0); c.a = vec(2, l == 2 ? 0.3 : 2, 2, 0);
  T t; try { t = make(c); } catch (const std::invalid_argument&) { sym_assert(a == 0 && b == 0, "only paths without length are refused"); sym_cover("no length"); return; } catch (const std::runtime_error&) { if (!sym_param("lenient", 0)) throw; sym_cover("gave up"); return; }
  const double d = t->Duration(); sym_assert(d > 0.0 && d < 100.0, "a duration"); const auto p = t->GetPositionVelocityTimePoint(0.0), q = t->GetPositionVelocityTimePoint(d); sym_assert((p.Position() - c.path.front()).norm() < 1e-9 && (q.Position() - c.path.back()).norm() < 1e-9, "starts and ends at the path's ends"); sym_assert(p.Velocity().norm() < 1e-9 && q.Velocity().norm() < 1e-6, "starts and ends at rest");
  X last = p.Position(); for (int i = 1; i <= 32; i++) { const auto r = t->GetPositionVelocityTimePoint(d * i / 32); sym_assert(off(c.path, r.Position()) <= c.dev + 1e-6, "positions stay within the allowed deviation of the path"); sym_assert(boxed(c.path, r.Position()), "positions stay between the waypoints"); int mv = 1, ok = 1; for (int j = 0; j < 2; j++) { const double vj = c.v(j) * (1 + 1e-9) + 1e-9 + c.step * c.a(j); ok &= std::abs(r.Velocity()(j)) <= vj; mv &= std::abs(r.Position()(j) - last(j)) <= vj * d / 32 + 1e-6; } sym_assert(ok, "velocities stay within the limits"); sym_assert(mv, "positions change no faster than the limits"); last = r.Position(); } sym_cover("grid"); sym_observe_d(d);
}
HARNESS(history) {   // what a query returns depends on its time only
  const int k = 3 + sym_choice(2, "path"); const Case c = pick(k, 0.0625); const T ref = make(c); const double d = ref->Duration(); static const double at[5] = {0.0, 0.25, 0.5, 0.9, 1.0}; X pos[5], vel[5]; for (int i = 0; i < 5; i++) { const T f = make(c); const auto p = f->GetPositionVelocityTimePoint(d * at[i]); pos[i] = p.Position(); vel[i] = p.Velocity(); }
  T cur = make(c), kept; const int steps = sym_param("steps", 3); for (int i = 0; i < steps; i++) {
    const int op = sym_choice(3, "operation"); if (op == 1) { T n = cur->Clone(); kept = std::move(cur); cur = std::move(n); } else if (op == 2) { T n = cur->Clone(); cur = std::move(n); sym_cover("original"); }   // go on with the copy, the original kept or destroyed
    const int q = sym_choice(5, "time"); const auto p = cur->GetPositionVelocityTimePoint(d * at[q]); sym_assert(p.Position() == pos[q] && p.Velocity() == vel[q], "a query's result depends on its time only"); sym_assert(cur->Duration() == d, "copies take as long"); if (kept) { const auto o = kept->GetPositionVelocityTimePoint(d * at[q]); sym_assert(o.Position() == pos[q] && o.Velocity() == vel[q], "copies do not disturb the original"); } }
  sym_cover("history"); sym_observe_d(d);
}
HARNESS(back) {   // going back by any part of a time step
  const int k = sym_choice(2, "path"); const Case c = pick(k ? 4 : 7, 0.0625); const T t = make(c); const double d = t->Duration(); static const int kBack[] = {1, 2, 3, 5, 9}; const int i = 1 + sym_choice(64, "time"), j = std::max(0, i - kBack[sym_choice(5, "back")]); t->GetPositionVelocityTimePoint(d * i / 64); const auto p = t->GetPositionVelocityTimePoint(d * j / 64); const T f = make(c); const auto q = f->GetPositionVelocityTimePoint(d * j / 64); sym_assert(p.Position() == q.Position() && p.Velocity() == q.Velocity(), "a query's result depends on its time only"); sym_cover("back");
}
template<class F> static int refuses(F f) { try { f(); } catch (const std::invalid_argument&) { return 1; } return 0; }
HARNESS(refused) {   // one argument that has no parametrization
  const int k = sym_choice(2, "path"); Case c = pick(k ? 4 : 0, 0.0625); const int what = sym_choice(8, "argument"), j = sym_choice(2, "joint"); const double bad = sym_double("value"); const int odd = !(bad - bad == 0.0);   // infinite or not a number
  if (what == 0) { sym_assume(odd | (bad < 0.0)); c.v(j) = bad; } else if (what == 1) { sym_assume(odd | (bad < 0.0)); c.a(j) = bad; } else if (what == 2) { sym_assume(odd); c.dev = bad; } else if (what == 3) { sym_assume(odd | (bad <= 0.0)); c.step = bad; }
  else if (what == 4) { const int n = sym_choice(4, "size"); if (n == 2) return; c.v = vec(n, 1, 1, 1); } else if (what == 5) { const int n = sym_choice(4, "size"); if (n == 2) return; c.a = vec(n, 1, 1, 1); }
  else if (what == 6) { const int n = sym_choice(4, "size"); const size_t i = sym_choice(2, "waypoint"); if (n == 2) return; c.path[i] = vec(n, 1, 1, 1); } else { const int n = sym_choice(3, "waypoints"); const X p = c.path[0]; if (n == 2) c.path = {p, p, p}; else c.path.resize(n); }
  sym_assert(refuses([&] { make(c); }), "arguments without a parametrization are refused"); sym_cover("refused"); sym_observe(what);
}
HARNESS(timestep) {   // refused time steps with nothing else wrong
  static const double bad[] = {0.0, -0.0, -1e-3, -INFINITY, INFINITY, NAN}; Case c = pick(sym_choice(9, "path"), 0.0625); const int i = sym_choice(6, "time step"); c.step = bad[i]; sym_assert(refuses([&] { make(c); }), "time steps that are not positive numbers are refused"); sym_cover("time-step");
}
HARNESS(times) {   // query times that are refused, at any point of a history
  const Case c = pick(0, 0.0625); const T t = make(c); const double bad = sym_double("time"); sym_assume(!(bad >= 0.0)); const int first = sym_choice(2, "first"); if (first) t->GetPositionVelocityTimePoint(t->Duration() * 0.5); sym_assert(refuses([&] { t->GetPositionVelocityTimePoint(bad); }), "times that are negative or not a number are refused"); const auto p = t->GetPositionVelocityTimePoint(t->Duration()); sym_assert((p.Position() - c.path.back()).norm() < 1e-9, "the trajectory is usable afterwards");
  const int n = sym_choice(4, "size"), m = sym_choice(4, "size"); const double at = sym_double("time"); const X a = X::Zero(n), b = X::Zero(m); sym_assume(at == at); const int r = refuses([&] { PositionVelocityTimePoint q(a, b, at); }); sym_assert(r == ((n != m) | (at < 0.0)), "points with mismatched sizes or negative times are refused, others not"); sym_cover("times"); sym_observe(r);
}
HARNESS(anytime) {   // a straight motion at any time
  const Case c = pick(1, 0.25); const T t = make(c); const double d = t->Duration(), time = sym_double("time"); sym_assume(time >= 0.0 && time <= d);
  const auto p = t->GetPositionVelocityTimePoint(time); sym_assert(p.Time() == time && p.Position().size() == 1 && p.Velocity().size() == 1, "the time asked for"); const double v = p.Velocity()(0), x = p.Position()(0); sym_assert((v <= 1e-9) & (v >= -0.25 * (1 + 1e-9)), "velocities stay within the limits at all times"); sym_assert((x >= 0.5 - 1e-9) & (x <= 1.0 + 1e-9), "positions stay between the ends of a straight path"); sym_cover("anytime");
}
//@ job both h_motion time=200 must=straight,blended,cornered
//@ job both h_grid grid=4 time=200 must=grid
//@ job both h_history time=200 must=history,original
//@ job both h_back time=200 must=back
//@ job both h_timestep max_instr=4000000 time=60 must=time-step
//@ job both h_refused time=100 must=refused
//@ job both h_times time=100 must=times
//@ job thorough h_grid grid=5 lenient=1 time=1500
//@ job thorough h_grid fine=1 time=1500
//@ job thorough h_history steps=4 time=2000
//@ job thorough h_anytime time=3000 must=anytime
