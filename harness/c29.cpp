// C29: path resampling keeps every waypoint and bounds the step.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs:
//@ bound: paths of 0..3 states (thorough 4) on a line at every start k/8 in [-2, 2] and every distance k/64 (two states: k/2^30) up to 4 spacings in both directions, spacings 1/4, 1/2, 1, 2 and 8; integer distances 0..12 with spacings 3, 1.5, 5 and 7; every negative or zero spacing refused; vectors and deques
//@ outside: longer paths; distances whose number of pieces does not fit 32 bits; interpolations that do not return the end state at ratio 1; spacings whose division by the distance rounds across an integer
#include <sym.h>
#include <cmath>
#include <deque>
#include <stdexcept>
#include <common_robotics_utilities/path_processing.hpp>
using namespace common_robotics_utilities::path_processing;
// a state is the point a + (b - a) * r; waypoints have r == 0
struct State { double a, b, r; };
static int g_calls, g_interp;
static double dist(const State& x, const State& y) { g_calls++; return std::abs(x.a - y.a); }
static State interp(const State& x, const State& y, const double r) { g_interp++; sym_assert(r > 0.0 && r <= 1.0, "ratios are between the ends"); return r == 1.0 ? y : State{x.a, y.a, r}; }
template <class Path> static void run(const Path& path, double spacing) {
  const size_t n = path.size(); const Path r = ResamplePath<State, Path>(path, spacing, dist, interp); if (n <= 1) { sym_assert(r.size() == n && (n == 0 || r[0].a == path[0].a), "a single state stays"); return; }
  sym_assert(!r.empty() && r[0].r == 0.0 && r[0].a == path[0].a, "the start is kept"); size_t at = 1; double prev = path[0].a;
  for (size_t i = 1; i < n; i++) {
    const double to = path[i].a, d = std::abs(to - prev); if (d == 0.0) continue; int k = 0;   // the same place again: nothing to add
    while (at + static_cast<size_t>(k) < r.size() && r[at + static_cast<size_t>(k)].r != 0.0) k++; const int pieces = k + 1; sym_assert(at + static_cast<size_t>(k) < r.size() && r[at + static_cast<size_t>(k)].a == to, "every waypoint is kept, in order");
    for (int j = 0; j < k; j++) { const State& s = r[at + static_cast<size_t>(j)]; sym_assert(s.a == prev && s.b == to && s.r == static_cast<double>(j + 1) / pieces, "the states between are evenly spaced interpolations"); }
    sym_assert(pieces * spacing >= d && (pieces - 1) * spacing < d, "as many pieces as the spacing needs"); if (k) sym_cover("cut"); else sym_cover("whole"); at += static_cast<size_t>(pieces); prev = to;
  }
  sym_assert(at == r.size(), "nothing else is added"); sym_assert(r.back().r == 0.0 && r.back().a == path.back().a, "the end is kept");
}
// any distance; the choice of the number of pieces only splits the work
static double next(double x, double spacing) { const int bits = sym_param("bits", 6); const int c = sym_choice(1 + sym_param("pieces", 4), "pieces"); if (!c) return x; const int64_t w = static_cast<int64_t>(spacing * std::ldexp(1.0, bits)); const bool down = sym_choice(2, "direction"); const double d = sym_double_grid((c - 1) * w + 1, c * w, bits, "distance"); return down ? x - d : x + d; }
template <class Path> static void line(double spacing, int n) { Path p; double x = sym_double_grid(-16, 16, 3, "x"); for (int i = 0; i < n; i++) { p.push_back(State{x, x, 0.0}); x = next(x, spacing); } run(p, spacing); }
HARNESS(line) {
  static const double sp[] = {0.5, 2.0, 1.0, 8.0, 0.25}; const double spacing = sp[sym_choice(5, "spacing")]; const int n = sym_choice(sym_param("states", 3) + 1, "states"); if (sym_choice(2, "container")) line<std::deque<State>>(spacing, n); else line<std::vector<State>>(spacing, n);
}
HARNESS(integers) { static const double sp[] = {3.0, 1.5, 5.0, 7.0}; const double spacing = sp[sym_choice(4, "spacing")]; std::vector<State> p{State{0.0, 0.0, 0.0}}; const int n = sym_choice(3, "states"); double x = 0.0; for (int i = 0; i < n; i++) { x += sym_choice(13, "distance"); p.push_back(State{x, x, 0.0}); } run(p, spacing); }
HARNESS(refused) { const double spacing = sym_double("spacing"); const int n = sym_choice(3, "states"); std::vector<State> p; for (int i = 0; i < n; i++) p.push_back(State{1.0 * i, 1.0 * i, 0.0}); if (spacing <= 0.0) { bool threw = false; try { ResamplePath<State>(p, spacing, dist, interp); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (n > 1), "spacing that cannot be reached is refused"); sym_assert(g_calls == 0, "nothing was done"); sym_cover("refused"); } }
//@ job both h_line states=3 time=150 must=cut,whole
//@ job both h_line states=2 bits=30 time=150 must=cut,whole
//@ job both h_integers time=60 must=cut,whole
//@ job both h_refused time=30 must=refused
//@ job thorough h_line states=4 time=1500 must=cut,whole
