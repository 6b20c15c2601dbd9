// C28: path shortcutting keeps the ends and uses only validated edges.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/math.cpp
//@ bound: single shortcuts: paths of 2..5 states, every start and end, every outcome of every edge check, 0..3 backtracking steps, resampling into 1..3 pieces, with and without the check of the pieces; smoothing: paths of 0..4 states (thorough 5), 1..2 iterations (thorough 3) and failure limits, every random draw k/2^10, shortcut fractions 1/4, 1/2 and 1
//@ outside: longer paths, more iterations; edge checks that answer differently when asked again
#include <sym.h>
#include <stdexcept>
#include <common_robotics_utilities/path_processing.hpp>
using namespace common_robotics_utilities::path_processing;
static const int kMax = 48, kOrig = 8;
// a state is a number: 0.. are the original states, kOrig.. are interpolated ones
struct Origin { int p, q, k, n; }; static Origin g_from[kMax]; static int g_next, g_valid[kMax][kMax], g_dist[kMax][kMax], g_checks, g_rejected, g_draws, g_pieces;
static void reset(int pieces) { g_next = kOrig; g_checks = g_rejected = g_draws = 0; g_pieces = pieces; for (auto& r : g_valid) for (int& v : r) v = -1; for (auto& r : g_dist) for (int& v : r) v = -1; }
static int ask(int p, int q) { int& v = g_valid[p][q]; if (v < 0) v = sym_choice(2, "valid"); return v; }
static bool valid(const int& p, const int& q) { sym_assert(p >= 0 && p < g_next && q >= 0 && q < g_next, "only states of the path are checked"); g_checks++; const int v = ask(p, q); g_rejected += !v; return v; }
static double dist(const int& p, const int& q) { int& d = g_dist[p][q]; if (d < 0) d = sym_choice(g_pieces + 1, "pieces"); return d; }
static int interp(const int& p, const int& q, const double r) { sym_assert(g_valid[p][q] == 1, "only accepted edges are resampled"); sym_assert(g_next < kMax, "harness: too many states"); const int n = g_dist[p][q]; int k = 0; for (int i = 1; i < n; i++) if (r == static_cast<double>(i) / n) k = i; sym_assert(k > 0, "pieces are evenly spaced"); g_from[g_next] = Origin{p, q, k, n}; return g_next++; }
// any k/2^10; the cells only split the work at the values where another state is selected
static double unit() { static const int odd[] = {0, 128, 171, 256, 342, 384, 512, 640, 683, 768, 854, 896, 1024}, even[] = {0, 256, 342, 512, 683, 768, 1024}; const bool first = g_draws++ % 2 == 0; const int c = first ? sym_choice(6, "cell") : sym_choice(12, "cell"); const int lo = first ? even[c] : odd[c], hi = first ? even[c + 1] : odd[c + 1]; return sym_double_grid(lo, hi - 1, 10, "u"); }
static bool edge_ok(int x, int y, bool marginal) {
  if (x < kOrig && y == x + 1 && y < kOrig) return true; if (g_valid[x][y] == 1) return true; if (marginal) { /* every piece must have been accepted on its own unless the edge was never cut */ }
  for (int s = 0; s < 2; s++) { const int i = s ? y : x; if (i < kOrig) continue; const Origin& o = g_from[i]; if (s == 0 && o.k + 1 == o.n && o.q == y && !marginal) return true; if (s == 1 && o.k == 1 && o.p == x && !marginal) return true; }
  return x >= kOrig && y >= kOrig && !marginal && g_from[x].p == g_from[y].p && g_from[x].q == g_from[y].q && g_from[x].k + 1 == g_from[y].k;
}
template <class Path> static void check_edges(const Path& r, bool marginal) { for (size_t i = 1; i < r.size(); i++) sym_assert(edge_ok(r[i - 1], r[i], marginal), "every edge is an original one or was accepted"); }
HARNESS(attempt) {
  const int pieces = sym_param("pieces", 0); reset(pieces); const int n = 2 + sym_choice(sym_param("states", 5) - 1, "states"), s = sym_choice(n, "start"), e = sym_choice(n, "end"); const uint32_t back = static_cast<uint32_t>(sym_choice(sym_param("back", 3) + 1, "backtracking")); const bool marginal = pieces && sym_choice(2, "marginal"); std::vector<int> path; for (int i = 0; i < n; i++) path.push_back(i); const auto orig = path;
  std::vector<int> r; bool threw = false; try { r = AttemptShortcut<int>(path, static_cast<size_t>(s), static_cast<size_t>(e), back, pieces ? 1.0 : 0.0, marginal, valid, dist, interp); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (s >= e), "a window without an edge is refused"); if (threw) return;
  sym_assert(path == orig, "the path is not changed"); if (r.empty()) { sym_assert(g_rejected > 0, "a shortcut only fails for a rejected edge"); sym_cover("failed"); return; } sym_assert(r.front() == s && r.back() == e, "a shortcut keeps the ends of its window"); check_edges(r, marginal); sym_assert(back > 0 || g_valid[s][e] == 1, "without backtracking the whole edge was accepted"); sym_cover("made");
  if (!pieces) { for (size_t i = 1; i < r.size(); i++) sym_assert(r[i] > r[i - 1], "the states keep their order"); sym_assert(g_valid[s][e] != 1 || r.size() == 2, "an accepted edge is used whole"); }
}
HARNESS(smooth) {
  const int pieces = sym_param("pieces", 0); reset(pieces); const int most = sym_param("states", 4), n = sym_choice(most + 1, "states"); const uint32_t iters = static_cast<uint32_t>(sym_choice(sym_param("iters", 2) + 1, "iterations")), fails = 1 + static_cast<uint32_t>(sym_choice(2, "failures")), back = static_cast<uint32_t>(sym_param("back", 0)); static const double f[] = {1.0, 0.5, 0.25}; const double frac = f[sym_choice(3, "fraction")]; const bool marginal = pieces && sym_choice(2, "marginal"); std::vector<int> path; for (int i = 0; i < n; i++) path.push_back(i); const auto orig = path;
  const auto r = ShortcutSmoothPath<int>(path, iters, fails, back, frac, pieces ? 1.0 : 0.0, marginal, valid, dist, interp, unit); sym_assert(path == orig, "the path is not changed"); if (n <= 2) { sym_assert(r == path && g_checks == 0, "nothing to shorten"); return; }
  sym_assert(!r.empty() && r.front() == 0 && r.back() == n - 1, "a smoothed path keeps its ends"); check_edges(r, marginal); sym_assert(g_draws <= static_cast<int>(2 * iters), "no more than the iterations allowed");
  if (!pieces) { sym_assert(r.size() <= path.size(), "without resampling the path does not grow"); for (size_t i = 1; i < r.size(); i++) sym_assert(r[i] > r[i - 1], "the states keep their order"); if (!back) { sym_assert(g_rejected <= static_cast<int>(fails), "no more than the failures allowed"); sym_assert(g_draws == static_cast<int>(2 * iters) || g_rejected == static_cast<int>(fails) || r.size() <= 2, "it only stops at a limit or when nothing is left to shorten"); } if (r.size() < path.size()) sym_cover("shortened"); else sym_cover("same"); }
  if (r.size() != path.size()) sym_cover("changed");
}
HARNESS(percent) {
  reset(0); const int n = sym_choice(6, "states"); std::vector<int> path; for (int i = 0; i < n; i++) path.push_back(i); const double p = ComputePercentCollisionFree<int>(path, [](const int& a, const int& b) { return valid(a, b); }); int first = 0; while (first + 1 < n && g_valid[first][first + 1] == 1) first++; const double want = n >= 2 ? static_cast<double>(first) / (n - 1) : n == 1 ? g_valid[0][0] : 1.0; sym_assert(p == want, "the part of the path in front of the first rejected edge");
}
//@ job both h_attempt states=5 back=3 time=100 must=failed,made
//@ job both h_attempt states=3 back=1 pieces=3 time=100 must=failed,made
//@ job both h_smooth states=4 iters=2 time=150 must=shortened,same
//@ job both h_smooth states=4 iters=1 back=2 time=150 must=shortened,same
//@ job both h_smooth states=4 iters=1 pieces=2 back=1 time=150 must=changed
//@ job both h_percent time=30
//@ job thorough h_smooth states=5 iters=3 time=1500 must=shortened,same
//@ job thorough h_smooth states=5 iters=2 back=2 time=1500 must=shortened,same
//@ job thorough h_smooth states=4 iters=2 pieces=2 back=1 time=1500 must=changed
