// C53: Gaussian helpers stay within their bounds.
//@ srcs:
//@ bound: truncated draws: means 0, 3 and -2.5, deviations 0, 1/4, 1, 2 and 3, ten bounds each side (both infinities and equal bounds included, given in deviations from the mean), any normal and uniform draws k/1024 (normal: magnitude up to 32 or 1e300), eight exponential draws from 0 to 45, up to 2 (thorough 3) rejected draws, either answer of every acceptance test; distribution functions: the same means, deviations and bounds, values and limits at, between and beyond the bounds, any error function that is monotone with values k/8 (integrals: k/4; thorough k/32 and k/8); densities: any exponential between 0 and 1; multivariate: dimensions 1..3, seven covariances per dimension kind (diagonal, full, semi-definite), integer means and draws up to 2^20, every mismatch of sizes up to 3
//@ outside: negative deviations, equal bounds at the mean (drawing does not end), bounds whose interval has no probability at double precision, the shape of the distributions
//@ assume: the standard distributions return any value of their support (the harness replaces them by a choice), erf is monotone and exp of a non-positive value is between 0 and 1
#include <sym.h>
#include <cmath>
#include <limits>
#include <random>
#include <stdexcept>
#include <vector>
#include <Eigen/Cholesky>
#include <Eigen/Eigenvalues>
#include <Eigen/Geometry>
static int g_draws, g_n; static double g_x[16], g_lo, g_hi; static int64_t g_y[16]; static std::vector<double> g_normal; static size_t g_next;
namespace std {
inline double sym_exp(int x) { return exp(x); }
// either answer of an acceptance test
inline double sym_exp(double x) { if (g_n < 0) { const double r = sym_double("exp"); sym_assume(r >= 0.0 && (x > 0.0 || r <= 1.0)); return r; } return sym_choice(2, "accept") ? 1e300 : -1.0; }
inline double sym_erf(double x) { for (int i = 0; i < g_n; i++) if (g_x[i] == x) return static_cast<double>(g_y[i]) / sym_param("erf", 32); const int64_t y = sym_range(-sym_param("erf", 32), sym_param("erf", 32), "erf"); for (int i = 0; i < g_n; i++) { if (g_x[i] <= x) sym_assume(g_y[i] <= y); if (g_x[i] >= x) sym_assume(g_y[i] >= y); } g_x[g_n] = x; g_y[g_n] = y; g_n++; return static_cast<double>(y) / sym_param("erf", 32); }
}
#define exp sym_exp
#define erf sym_erf
#include <common_robotics_utilities/gaussian_distributions.hpp>
#undef exp
#undef erf
struct Gen { typedef uint64_t result_type; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~UINT64_C(0); } uint64_t operator()() { sym_fail("the generator is only used by the distributions"); return 0; } };
namespace std {
template <> template <> inline double normal_distribution<double>::operator()(Gen&, const param_type& p) { sym_assume(++g_draws <= sym_param("draws", 2)); sym_assert(p.mean() == 0.0 && p.stddev() == 1.0, "draws are from the unit normal distribution"); if (!g_normal.empty()) return g_normal[g_next++]; const int far = sym_choice(3, "far"); if (far == 1) return 1e300; if (far == 2) return -1e300; return sym_double_grid(-(1 << 15), 1 << 15, 10, "normal"); }
template <> template <> inline double exponential_distribution<double>::operator()(Gen&, const param_type& p) { sym_assume(++g_draws <= sym_param("draws", 2)); sym_assert(p.lambda() == 1.0, "draws are from the unit exponential distribution"); static const double e[] = {0.0, 1e-300, 1e-17, 0.001, 0.125, 1.0, 2.7, 45.0}; return e[sym_choice(8, "exponential")]; }
template <> template <> inline double uniform_real_distribution<double>::operator()(Gen&, const param_type& p) { if (p.a() == 0.0 && p.b() == 1.0) return 0.5; sym_assume(++g_draws <= sym_param("draws", 2)); sym_assert(p.a() <= p.b(), "uniform draws are from a range"); const int end = sym_choice(3, "end"); if (end == 1) return p.a(); if (end == 2) return p.b(); const int64_t l = static_cast<int64_t>(std::ceil(p.a() * 1024)), h = static_cast<int64_t>(std::floor(p.b() * 1024)); return sym_double_grid(l, h, 10, "uniform"); }
}
using namespace common_robotics_utilities; namespace N = gaussian_distributions; static const double kInf = std::numeric_limits<double>::infinity();
static double pick_mean() { static const double m[] = {0.0, 3.0, -2.5}; return m[sym_choice(3, "mean")]; }
static double pick_bound(const char* name) { static const double b[] = {-kInf, -16.0, -5.0, -0.5, 0.0, 0.25, 0.5, 3.0, 7.0, kInf}; return b[sym_choice(10, name)]; }
HARNESS(draws) {
  static const double sd[] = {0.25, 1.0, 2.0, 3.0, 0.0}; g_draws = 0; g_n = 0; g_normal.clear(); const double mean = pick_mean(), dev = sd[sym_choice(5, "deviation")], a = pick_bound("lower"), b = pick_bound("upper"); const double lo = mean + a * (dev == 0.0 ? 1.0 : dev), hi = mean + b * (dev == 0.0 ? 1.0 : dev);
  if (a > b) { bool threw = false; try { N::TruncatedGaussianDistribution d(mean, dev, lo, hi); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "inverted bounds are refused"); sym_cover("inverted"); return; }
  if (a == b && (a == 0.0 || a == kInf || a == -kInf)) return;
  N::TruncatedGaussianDistribution d(mean, dev, lo, hi); Gen g; const double x = d(g); if (dev == 0.0) { sym_assert(x == mean, "without deviation the mean is returned"); sym_cover("exact"); return; }
  const double slack = dev == 3.0 ? 1e-9 : 0.0; sym_assert((x >= lo - slack) & (x <= hi + slack), "every draw is within the bounds"); if (a > 0.0) sym_cover("right"); else if (b < 0.0) sym_cover("left"); else sym_cover("middle"); if (a == b) sym_cover("equal"); if (a == -kInf && b < 0.0) sym_cover("left-tail"); if (g_draws > 1) sym_cover("rejected");
}
HARNESS(cdf) {
  static const double sd[] = {0.25, 2.0}; g_n = 0; const double mean = pick_mean(), dev = sd[sym_choice(2, "deviation")], a = pick_bound("lower"), b = pick_bound("upper"); const double lo = mean + a * dev, hi = mean + b * dev; static const double at[] = {-20.0, -5.0, -1.0, 0.0, 0.375, 4.0, 30.0}; const double v = mean + dev * at[sym_choice(7, "value")];
  if (a > b) { int threw = 0; try { N::EvaluateTruncatedGaussianCDF(mean, lo, hi, dev, v); } catch (const std::invalid_argument&) { threw++; } try { N::EvaluateTruncatedGaussianPDF(mean, lo, hi, dev, v); } catch (const std::invalid_argument&) { threw++; } try { N::IntegrateTruncatedGaussian(mean, lo, hi, dev, v, v); } catch (const std::invalid_argument&) { threw++; } sym_assert(threw == 3, "inverted bounds are refused"); sym_cover("inverted"); return; }
  const double full = N::EvaluateGaussianCDF(mean, dev, v); sym_assert((full >= 0.0) & (full <= 1.0), "the distribution function is a probability");
  const double inside = N::EvaluateGaussianCDF(mean, dev, hi) - N::EvaluateGaussianCDF(mean, dev, lo); if (lo < hi) sym_assume(inside > 0.0);
  const double t = N::EvaluateTruncatedGaussianCDF(mean, lo, hi, dev, v); sym_assert((t >= 0.0) & (t <= 1.0), "the truncated distribution function is a probability"); if (v <= lo) { sym_assert(t == 0.0, "nothing is below the lower bound"); sym_cover("below"); } else if (v >= hi) { sym_assert(t == 1.0, "everything is below the upper bound"); sym_cover("above"); } else sym_cover("inside");
}
HARNESS(integrate) {
  g_n = 0; const double mean = 3.0, dev = 2.0; static const double at[] = {-kInf, -1.0, 0.0, 30.0, kInf}; const double from = mean + dev * at[sym_choice(5, "from")], to = mean + dev * at[sym_choice(5, "to")], lo = mean - 4.0, hi = mean + 3.0;
  bool threw = false; double p = 0.0; try { p = N::IntegrateGaussian(mean, dev, from, to); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (from > to), "exactly inverted limits are refused"); bool again = false; double q = 0.0; const double inside = N::EvaluateGaussianCDF(mean, dev, hi) - N::EvaluateGaussianCDF(mean, dev, lo); sym_assume(inside > 0.0);
  try { q = N::IntegrateTruncatedGaussian(mean, lo, hi, dev, from, to); } catch (const std::invalid_argument&) { again = true; } sym_assert(again == (from > to), "exactly inverted limits are refused"); if (threw) { sym_cover("inverted"); return; }
  sym_assert((p >= 0.0) & (p <= 1.0) & (q >= 0.0) & (q <= 1.0), "the integral is a probability"); if (from <= lo && to >= hi) { sym_assert(q == 1.0, "all of it is between the bounds"); sym_cover("all"); } if (to <= lo || from >= hi) { sym_assert(q == 0.0, "none of it is outside the bounds"); sym_cover("none"); } if (from == to) sym_assert(p == 0.0 && q == 0.0, "nothing is between equal limits");
}
HARNESS(pdf) {
  static const double sd[] = {0.25, 2.0}; g_n = -1; const double mean = pick_mean(), dev = sd[sym_choice(2, "deviation")]; static const double at[] = {-20.0, -1.0, 0.0, 0.375, 30.0}; const double v = mean + dev * at[sym_choice(5, "value")]; const double p = N::EvaluateGaussianPDF(mean, dev, v); sym_assert(p >= 0.0, "densities are not negative"); sym_cover("density");
}
HARNESS(truncated_pdf) {
  g_n = 0; const double mean = pick_mean(), dev = 2.0, a = pick_bound("lower"), b = pick_bound("upper"); if (a > b) return; const double lo = mean + a * dev, hi = mean + b * dev; static const double at[] = {-20.0, -1.0, 0.0, 0.375, 30.0}; const double v = mean + dev * at[sym_choice(5, "value")]; if (lo < v && v < hi) return;
  sym_assert(N::EvaluateTruncatedGaussianPDF(mean, lo, hi, dev, v) == 0.0, "no density at or beyond the bounds"); sym_cover("outside");
}
static Eigen::MatrixXd root(int n, int which) { Eigen::MatrixXd l = Eigen::MatrixXd::Zero(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) l(i, j) = which == 0 ? (i == j) : which == 1 ? (i == j ? i + 2 : 0) : (i == j ? 1 + i : 2 * i - j); return l; }
HARNESS(multivariate) {
  g_n = 0; g_draws = -100; const int n = 1 + sym_choice(3, "dimensions"), which = sym_choice(3, "covariance"); const Eigen::MatrixXd l = root(n, which); Eigen::VectorXd m(n); int64_t mi[3], di[3]; g_normal.clear(); g_next = 0; for (int i = 0; i < n; i++) { mi[i] = sym_range(-(1 << 20), 1 << 20, "mean"); di[i] = sym_range(-(1 << 20), 1 << 20, "draw"); m(i) = static_cast<double>(mi[i]); g_normal.push_back(static_cast<double>(di[i])); }
  N::MultivariteGaussianDistribution d(m, l * l.transpose()); Gen g; const Eigen::VectorXd x = d(g); sym_assert(x.size() == n && g_next == static_cast<size_t>(n), "one draw per dimension"); for (int i = 0; i < n; i++) { int64_t e = mi[i]; for (int j = 0; j <= i; j++) e += static_cast<int64_t>(l(i, j)) * di[j]; sym_assert(static_cast<int64_t>(x(i)) == e, "unit draws are scaled by a root of the covariance and moved to the mean"); } sym_cover("drawn");
}
HARNESS(semidefinite) {
  g_n = 0; g_draws = -100; const int n = 1 + sym_choice(3, "dimensions"), zero = sym_choice(n, "degenerate"); Eigen::MatrixXd c = Eigen::MatrixXd::Zero(n, n); for (int i = 0; i < n; i++) if (i != zero) c(i, i) = 4.0; if (sym_choice(2, "negative")) c(zero, zero) = -1.0; Eigen::MatrixXd t(n, n);
  for (int k = 0; k < n; k++) { g_normal.assign(static_cast<size_t>(n), 0.0); g_normal[static_cast<size_t>(k)] = 1.0; g_next = 0; N::MultivariteGaussianDistribution d(Eigen::VectorXd::Zero(n), c); Gen g; t.col(k) = d(g); } const Eigen::MatrixXd r = t * t.transpose(); c(zero, zero) = 0.0; sym_assert((r - c).norm() < 1e-9, "degenerate directions are not varied"); sym_cover("semidefinite");
}
HARNESS(mismatch) {
  const int n = 1 + sym_choice(3, "mean"), r = 1 + sym_choice(3, "rows"), c = 1 + sym_choice(3, "columns"); bool threw = false; try { N::MultivariteGaussianDistribution d(Eigen::VectorXd::Zero(n), Eigen::MatrixXd::Identity(r, c)); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (n != r || n != c), "exactly mismatched sizes are refused"); if (threw) sym_cover("refused"); else sym_cover("accepted");
}
//@ job both h_draws time=200 must=inverted,exact,right,left,middle,equal,left-tail,rejected
//@ job both h_cdf erf=8 time=200 must=inverted,below,above,inside
//@ job both h_integrate erf=4 time=200 must=inverted,all,none
//@ job both h_pdf time=60 must=density
//@ job both h_truncated_pdf time=60 must=outside
//@ job both h_multivariate time=100 must=drawn
//@ job both h_semidefinite time=60 must=semidefinite
//@ job both h_mismatch time=60 must=refused,accepted
//@ job thorough h_draws draws=3 time=1200
//@ job thorough h_cdf erf=32 time=1200
//@ job thorough h_integrate erf=8 time=2400
