// C40: interpolation and averaging respect their ends and sizes.
//@ srcs: src/common_robotics_utilities/math.cpp
//@ bound: ends: any finite arguments and any ratio that is a number, sizes 0..3; between: arguments that are integers up to 2^20 in magnitude and ratios k/8; multilinear: cells with corners at integers up to 64 and power-of-two sides, integer corner values (up to 2^12, trilinear 2^8, two opposite corners at a time), query points at quarters or halves of the cell; averages: any finite values, weights of any value that is a number, 1..3 elements (interior values: multiples of 12 up to 2^19 with equal weights, 1:3 or 1:1:2); rotations: 4 fixed unit quaternions, any ratio beyond or at the ends; 8 fixed unit quaternions and their negations in pairs at ratios k/8 and averaged without weights or with the 7 listed pairs of weights; spreads: 2 to 5 values with a whole mean
//@ outside: arguments whose interpolation rounds, rotations other than the listed ones, the average of three or more or of nearly opposite rotations, the proportion in which unequal weights count for rotations, infinite or NaN values
#include <sym.h>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <common_robotics_utilities/math.hpp>
using namespace common_robotics_utilities; using math::Interpolate; using V = std::vector<double>;
static double finite(const char* n) { const double d = sym_double(n); sym_assume(d - d == 0.0); return d; }
static double whole(int64_t m, const char* n) { const int64_t i = sym_range(-m, m, n); return static_cast<double>(i); }
// the end reached and a ratio at or beyond it
static double beyond(bool second) { const int k = sym_choice(2, "at or beyond"); if (k == 0) { if (second) return 1.0; return 0.0; } const double r = sym_double("ratio"); if (second) sym_assume(r > 1.0); else sym_assume(r < 0.0); return r; }
HARNESS(ends) {
  const bool second = sym_choice(2, "second") == 1; const double r = beyond(second); const int n = sym_choice(4, "size"); const double x0 = finite("a"), y0 = finite("b"); const double a[4] = {x0, 1.5, x0, -2.0}, b[4] = {y0, y0, 7.0, 3.0}; V v, w; for (int i = 0; i < n; i++) { v.push_back(a[i]); w.push_back(b[i]); }
  const double* e = second ? b : a; sym_assert(Interpolate(a[0], b[0], r) == e[0], "scalars reach their ends");
  const V o = Interpolate(v, w, r); int ok = static_cast<int>(o.size()) == n; for (int i = 0; ok && i < n; i++) ok &= o[i] == e[i]; sym_assert(ok, "vectors reach their ends");
  Eigen::VectorXd x(n), y(n); for (int i = 0; i < n; i++) { x(i) = a[i]; y(i) = b[i]; } const Eigen::VectorXd z = math::InterpolateXd(x, y, r); ok = z.size() == n; for (int i = 0; ok && i < n; i++) ok &= z(i) == e[i]; sym_assert(ok, "Eigen vectors reach their ends");
  const Eigen::Vector3d t = math::Interpolate3d(Eigen::Vector3d(a[0], a[1], a[2]), Eigen::Vector3d(b[0], b[1], b[2]), r); sym_assert((t(0) == e[0]) & (t(1) == e[1]) & (t(2) == e[2]), "3d vectors reach their ends");
  const Eigen::Vector4d f = math::Interpolate4d(Eigen::Vector4d(a[0], a[1], a[2], a[3]), Eigen::Vector4d(b[0], b[1], b[2], b[3]), r); sym_assert((f(0) == e[0]) & (f(1) == e[1]) & (f(2) == e[2]) & (f(3) == e[3]), "4d vectors reach their ends"); sym_cover(second ? "second" : "first");
}
HARNESS(between) {
  const int k = sym_choice(9, "eighths"); const double r = k / 8.0; double a[4], b[4], e[4]; for (int i = 0; i < 4; i++) { const int64_t p = sym_range(-(1 << 20), 1 << 20, "a"), q = sym_range(-(1 << 20), 1 << 20, "b"); a[i] = static_cast<double>(p); b[i] = static_cast<double>(q); e[i] = static_cast<double>(p * (8 - k) + q * k) * 0.125; }
  sym_assert(Interpolate(a[0], b[0], r) == e[0], "scalars are combined by the ratio"); const V o = Interpolate(V(a, a + 3), V(b, b + 3), r); sym_assert(o.size() == 3 && (o[0] == e[0]) & (o[1] == e[1]) & (o[2] == e[2]), "vectors are combined component by component");
  Eigen::VectorXd x(2), y(2); x << a[0], a[1]; y << b[0], b[1]; const Eigen::VectorXd z = math::InterpolateXd(x, y, r); sym_assert(z.size() == 2 && (z(0) == e[0]) & (z(1) == e[1]), "Eigen vectors component by component");
  const Eigen::Vector3d t = math::Interpolate3d(Eigen::Vector3d(a[0], a[1], a[2]), Eigen::Vector3d(b[0], b[1], b[2]), r); sym_assert((t(0) == e[0]) & (t(1) == e[1]) & (t(2) == e[2]), "3d vectors component by component"); const Eigen::Vector4d f = math::Interpolate4d(Eigen::Vector4d(a[0], a[1], a[2], a[3]), Eigen::Vector4d(b[0], b[1], b[2], b[3]), r); sym_assert((f(0) == e[0]) & (f(1) == e[1]) & (f(2) == e[2]) & (f(3) == e[3]), "4d vectors component by component"); sym_cover("between");
}
HARNESS(mismatch) {
  const int n = sym_choice(4, "size"), m = sym_choice(4, "size"); const double r = sym_double("ratio"); sym_assume(r == r); const V v(n, 1.0), w(m, 2.0); Eigen::VectorXd x(n), y(m); x.setOnes(); y.setOnes(); bool a = false, b = false; try { Interpolate(v, w, r); } catch (const std::invalid_argument&) { a = true; } try { math::InterpolateXd(x, y, r); } catch (const std::invalid_argument&) { b = true; } sym_assert(a == (n != m) && b == (n != m), "mismatched sizes throw"); sym_cover(n == m ? "match" : "mismatch");
}
HARNESS(linear) {
  const int64_t lo = sym_choice(3, "low") * 37 - 40; const int s = sym_choice(4, "side"); const double side = 0.5 * (1 << s), low = static_cast<double>(lo), high = low + side; const int64_t p = sym_range(-4096, 4096, "low value"), q = sym_range(-4096, 4096, "high value"), k = 2 * sym_choice(13, "query") - 8; const double at = low + side * 0.125 * static_cast<double>(k);
  const double v = math::LinearInterpolate<double>(low, high, static_cast<double>(p), static_cast<double>(q), at); sym_assert(static_cast<int64_t>(v * 8.0) == p * (8 - k) + q * k, "linear interpolation is the line through both values"); if (k == 0) { sym_assert(v == static_cast<double>(p), "the low value at the low point"); sym_cover("low"); } if (k == 8) { sym_assert(v == static_cast<double>(q), "the high value at the high point"); sym_cover("high"); }
}
static double side(int a) { return 0.5 * (1 << a); }
HARNESS(bilinear) {
  const int kx = sym_choice(3, "x query") * 4, ky = sym_choice(3, "y query") * 4, s = sym_choice(2, "sides"); const double lx = 3.0, ly = -5.0, sx = side(s), sy = side(2 - s); int64_t c[2][2]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) c[i][j] = sym_range(-4096, 4096, "corner"); const auto d = [&](int i, int j) { return static_cast<double>(c[i][j]); };
  const double v = math::BilinearInterpolate<double>(Eigen::Vector2d(lx, ly), Eigen::Vector2d(lx + sx, ly + sy), d(0, 0), d(0, 1), d(1, 0), d(1, 1), Eigen::Vector2d(lx + sx * kx / 8, ly + sy * ky / 8)); const int64_t w = c[0][0] * (8 - kx) * (8 - ky) + c[0][1] * (8 - kx) * ky + c[1][0] * kx * (8 - ky) + c[1][1] * kx * ky; sym_assert(static_cast<int64_t>(v * 64.0) == w, "bilinear interpolation weighs every corner by the opposite area"); sym_cover("bilinear");
}
HARNESS(trilinear) {
  const int kx = sym_choice(3, "x query") * 4, ky = sym_choice(3, "y query") * 4, kz = sym_choice(3, "z query") * 4, s = sym_choice(static_cast<int>(sym_param("sides", 1)), "sides"); const Eigen::Vector3d lo(3.0, -5.0, 1.0), sd(side(s), side(2 - s), side(3 - s)); int64_t c[2][2][2]; const int pair = sym_choice(4, "symbolic corners"); for (int i = 0; i < 8; i++) { int64_t x = 5 * i - 17; if (i == pair || i == 7 - pair) x = sym_range(-256, 255, "corner"); c[i & 1][(i >> 1) & 1][i >> 2] = x; } const auto d = [&](int i, int j, int k) { return static_cast<double>(c[i][j][k]); };
  const double v = math::TrilinearInterpolate<double>(lo, lo + sd, d(0, 0, 0), d(0, 0, 1), d(0, 1, 0), d(0, 1, 1), d(1, 0, 0), d(1, 0, 1), d(1, 1, 0), d(1, 1, 1), Eigen::Vector3d(lo(0) + sd(0) * kx / 8, lo(1) + sd(1) * ky / 8, lo(2) + sd(2) * kz / 8)); int64_t w = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) w += c[i][j][k] * (i ? kx : 8 - kx) * (j ? ky : 8 - ky) * (k ? kz : 8 - kz); sym_assert(static_cast<int64_t>(v * 512.0) == w, "trilinear interpolation weighs every corner by the opposite volume"); sym_cover("trilinear");
}
// every average of the library over the same first components
struct Averages { double scalar, revolute, v3, v4, xd; bool threw[5]; };
static Averages average(const V& a, const V& w) {
  Averages r; std::memset(&r, 0, sizeof r); math::VectorVector3d v3; math::VectorVector4d v4; std::vector<Eigen::VectorXd> xd; for (double d : a) { v3.push_back(Eigen::Vector3d(d, 1.0, 2.0)); v4.push_back(Eigen::Vector4d(0.0, d, 1.0, 2.0)); Eigen::VectorXd x(1); x << d; xd.push_back(x); }
  try { r.scalar = math::AverageStdVectorDouble(a, w); } catch (const std::invalid_argument&) { r.threw[0] = true; } try { r.revolute = math::AverageContinuousRevolute(a, w); } catch (const std::invalid_argument&) { r.threw[1] = true; }
  try { r.v3 = math::AverageEigenVector3d(v3, w)(0); } catch (const std::invalid_argument&) { r.threw[2] = true; } try { r.v4 = math::AverageEigenVector4d(v4, w)(1); } catch (const std::invalid_argument&) { r.threw[3] = true; } try { r.xd = math::AverageEigenVectorXd(xd, w)(0); } catch (const std::invalid_argument&) { r.threw[4] = true; } return r;
}
static int threw(const Averages& r) { return r.threw[0] + r.threw[1] + r.threw[2] + r.threw[3] + r.threw[4]; }
HARNESS(refused) {
  const int n = sym_choice(4, "values"), m = sym_choice(4, "weights"); V a(n, 1.0), w(m); int any = m == 0; for (int i = 0; i < m; i++) { w[i] = sym_double("weight"); sym_assume(w[i] - w[i] == 0.0); any |= w[i] != 0.0; } const bool bad = n == 0 || (m != 0 && m != n) || !any;
  const Averages r = average(a, w); sym_assert(threw(r) == (bad ? 5 : 0), "averages throw exactly for empty or mismatched input or weights that are all zero"); sym_cover(bad ? "refused" : "accepted");
  bool q = false, t = false; if (n <= 1 || bad) { math::VectorQuaterniond qs; math::VectorIsometry3d ts; for (int i = 0; i < n; i++) { qs.push_back(Eigen::Quaterniond::Identity()); ts.push_back(Eigen::Isometry3d::Identity()); } try { math::AverageEigenQuaterniond(qs, w); } catch (const std::invalid_argument&) { q = true; } try { math::AverageEigenIsometry3d(ts, w); } catch (const std::invalid_argument&) { t = true; } sym_assert(q == bad && t == bad, "rotation averages throw for the same input"); }
}
HARNESS(single) {
  const double x = finite("value"); const bool weighted = sym_bool("weighted"); V w; if (weighted) { const double k = finite("weight"); sym_assume(k != 0.0); w.push_back(k); } const Averages r = average(V(1, x), w); sym_assert(threw(r) == 0 && (r.scalar == x) & (r.revolute == x) & (r.v3 == x) & (r.v4 == x) & (r.xd == x), "the average of one element is the element"); sym_assert(math::ComputeStdDevStdVectorDouble(V(1, x)) == 0.0, "one element has no spread");
  double c[4]; for (double& d : c) d = sym_double("component"); const math::VectorQuaterniond qs(1, Eigen::Quaterniond(c[3], c[0], c[1], c[2])); const Eigen::Quaterniond q = math::AverageEigenQuaterniond(qs, w); sym_assert(std::memcmp(q.coeffs().data(), qs[0].coeffs().data(), 32) == 0, "one rotation is kept"); Eigen::Isometry3d iso = Eigen::Isometry3d::Identity(); iso.translation() = Eigen::Vector3d(c[0], c[1], c[2]); const math::VectorIsometry3d ts(1, iso); const Eigen::Isometry3d t = math::AverageEigenIsometry3d(ts, w); sym_assert(std::memcmp(t.matrix().data(), iso.matrix().data(), sizeof(double) * 16) == 0, "one transform is kept"); sym_cover("single");
}
HARNESS(zero_weights) {   // only one element counts: the others have weight zero
  const int n = 2 + sym_choice(2, "extra"), at = sym_choice(n, "position"); V a(n), w(n); for (int i = 0; i < n; i++) { a[i] = whole(1 << 20, "value"); w[i] = 0.0; } const double k = finite("weight"); sym_assume(k != 0.0); w[at] = k; const Averages r = average(a, w); sym_assert(threw(r) == 0 && (r.scalar == a[at]) & (r.revolute == a[at]) & (r.v3 == a[at]) & (r.v4 == a[at]) & (r.xd == a[at]), "elements of weight zero do not count"); sym_cover("zero");
}
HARNESS(weighted) {   // exact cases: two elements of equal weights or of weights 1 and 3, and three of weights 1, 1 and 2
  const int kind = sym_choice(4, "weights"); const int n = kind == 3 ? 3 : 2; V a(n), w; int64_t s[4]; for (int i = 0; i < n; i++) { s[i] = sym_range(-(1 << 16), 1 << 16, "value") * 12; a[i] = static_cast<double>(s[i]); } if (kind == 1) { w.push_back(2.5); w.push_back(-2.5); } if (kind == 2) { w.push_back(1.0); w.push_back(3.0); } if (kind == 3) { w.push_back(1.0); w.push_back(1.0); w.push_back(2.0); }
  int64_t e = 0; if (kind == 3) e = (s[0] + s[1] + 2 * s[2]) / 4; else if (kind == 2) e = (s[0] + 3 * s[1]) / 4; else e = (s[0] + s[1]) / 2; const Averages r = average(a, w); const auto near = [&](double v) { return static_cast<int64_t>(v) == e; };
  sym_assert(threw(r) == 0 && near(r.scalar) & near(r.revolute) & near(r.v3) & near(r.v4) & near(r.xd), "every element counts by the size of its weight"); sym_cover("weighted");
}
HARNESS(stddev) {   // values whose mean and spread are whole: m - d and m + d in turn and m, or m - 3d, m + 4d for two (spread in units of d / sqrt(0.5))
  const int n = 2 + sym_choice(static_cast<int>(sym_param("values", 4)), "values"); const int64_t m = sym_range(-1024, 1024, "middle"), d = sym_range(0, n == 3 ? 1024 : sym_param("wide", 64), "half width"); const double mean = static_cast<double>(m); V v; for (int i = 0; i + 1 < n || (n == 2 && i < 2); i++) v.push_back(static_cast<double>(i % 2 ? m + d : m - d)); if (n != 2) v.push_back(mean); double sum = 0; if (n == 2 || n == 4) { v[0] = static_cast<double>(m - d); v[1] = static_cast<double>(m + d); if (n == 4) { v[2] = v[3] = mean; } sum = 2; } else sum = n - 1;
  const double s = math::ComputeStdDevStdVectorDouble(v, mean), e = static_cast<double>(d); if (sum == n - 1) sym_assert(s == e, "the standard deviation of m - d, m + d, ..., m is d"); else { const double q = std::sqrt(sum / (n - 1)); sym_assert((s >= e * q * (1 - 1e-12)) & (s <= e * q * (1 + 1e-12)), "the standard deviation divides by one less than the number of values"); }
  if (n == 3) { const double o = math::ComputeStdDevStdVectorDouble(v); sym_assert((o >= e - 1e-6) & (o <= e + 1e-6), "from the mean when none is given"); sym_cover("own-mean"); } bool threw = false; try { math::ComputeStdDevStdVectorDouble(V(), 0.0); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "empty input throws"); sym_cover("spread");
}
static const double kQ[][4] = {{1, 0, 0, 0}, {0, 0.6, 0, 0.8}, {0.5, 0.5, -0.5, 0.5}, {-0.28, 0.96, 0, 0}};
static bool same(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { const double d = std::abs(a.dot(b)); return std::abs(d - 1.0) < 1e-12; }
HARNESS(rotation) {
  const bool second = sym_choice(2, "second") == 1; const double r = beyond(second); const int i = sym_choice(4, "from"), j = sym_choice(4, "to"); const Eigen::Quaterniond a(kQ[i][0], kQ[i][1], kQ[i][2], kQ[i][3]), b(kQ[j][0], kQ[j][1], kQ[j][2], kQ[j][3]), o = Interpolate(a, b, r); sym_assert(same(o, second ? b : a), "rotations reach their ends");
  const Eigen::Isometry3d x = Eigen::Translation3d(1, 2, 3) * a, y = Eigen::Translation3d(-4, 5, 60) * b, z = Interpolate(x, y, r); const Eigen::Isometry3d& e = second ? y : x; double worst = 0; for (int p = 0; p < 3; p++) for (int q = 0; q < 4; q++) worst = std::max(worst, std::abs(z.matrix()(p, q) - e.matrix()(p, q))); sym_assert(worst < 1e-9, "transforms reach their ends"); sym_cover(second ? "second" : "first");
}
static const double kR[][4] = {{1, 0, 0, 0}, {0.8, 0.6, 0, 0}, {0.96, 0, -0.28, 0}, {0.5, 0.5, -0.5, 0.5}, {0.1, 0.7, 0.7, 0.1}, {-0.6, 0.64, 0.48, 0}, {0, 0, 0.6, 0.8}, {0.9998, 0.02, 0, 0}};
static Eigen::Quaterniond listed(int i) { Eigen::Quaterniond q(kR[i][0], kR[i][1], kR[i][2], kR[i][3]); q.normalize(); return q; }
static double overlap(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) { return std::abs(a.dot(b)); }
HARNESS(rotations) {   // averages of several rotations
  const int i = sym_choice(8, "first"), j = sym_choice(8, "second"), kind = sym_choice(8, "weights"), flip = sym_choice(2, "negated"); const Eigen::Quaterniond a = listed(i); Eigen::Quaterniond b = listed(j); if (flip) b.coeffs() = -b.coeffs(); const double c = overlap(a, b), mid = std::sqrt((1.0 + c) / 2.0); if (c < 0.05) { sym_cover("opposite"); return; }
  V w; if (kind == 1) w = {2.5, -2.5}; else if (kind == 2) w = {-3.0, 0.0}; else if (kind == 3) w = {0.0, 0.25}; else if (kind == 4) w = {1.0, 3.0}; else if (kind == 5) w = {-1.0, -1.0}; else if (kind == 6) w = {-4.0, -0.5}; else if (kind == 7) w = {1e-3, 1e-3};
  const math::VectorQuaterniond qs{a, b}; const Eigen::Quaterniond q = math::AverageEigenQuaterniond(qs, w); const double oa = overlap(q, a), ob = overlap(q, b); sym_assert(std::abs(q.norm() - 1.0) < 1e-9, "averages of rotations are rotations");
  if (kind == 0 || kind == 1 || kind == 5 || kind == 7) { sym_assert(std::abs(oa - mid) < 1e-6 && std::abs(ob - mid) < 1e-6, "rotations of equal weight meet half way"); sym_cover("half-way"); }
  else if (kind == 2) sym_assert(oa > 1 - 1e-9, "rotations of weight zero do not count"); else if (kind == 3) sym_assert(ob > 1 - 1e-9, "rotations of weight zero do not count"); else { const double ha = std::abs(w[0]) > std::abs(w[1]) ? oa : ob, hb = std::abs(w[0]) > std::abs(w[1]) ? ob : oa; sym_assert(ha >= hb - 1e-9 && ha >= mid - 1e-6 && hb >= c - 1e-6, "the heavier rotation is nearer"); if (c < 0.99) { sym_assert(ha > mid + 1e-6 && ha < 1 - 1e-9, "and the other one counts"); sym_cover("heavier"); } }
  if (sym_param("transforms", 1)) { Eigen::Isometry3d s = Eigen::Translation3d(1, 2, 3) * a, t = Eigen::Translation3d(5, -2, 11) * b; const math::VectorIsometry3d ts{s, t}; const Eigen::Isometry3d r = math::AverageEigenIsometry3d(ts, w); sym_assert(overlap(Eigen::Quaterniond(r.linear()), q) > 1 - 1e-9, "transforms average their rotations with the weights"); const double f = w.empty() ? 0.5 : std::abs(w[1]) / (std::abs(w[0]) + std::abs(w[1])); sym_assert((r.translation() - ((1 - f) * s.translation() + f * t.translation())).norm() < 1e-9, "and their translations"); }
  sym_observe_d(oa);
}
HARNESS(slerp) {   // rotations in between
  const int i = sym_choice(8, "from"), j = sym_choice(8, "to"), k = sym_choice(9, "eighths"), flip = sym_choice(2, "negated"); const Eigen::Quaterniond a = listed(i); Eigen::Quaterniond b = listed(j); if (flip) b.coeffs() = -b.coeffs(); const double c = std::min(1.0, overlap(a, b)), th = std::acos(c), r = k / 8.0; if (c < 0.001) return; const Eigen::Quaterniond o = Interpolate(a, b, r);
  sym_assert(std::abs(o.norm() - 1.0) < 1e-9, "interpolated rotations are rotations"); sym_assert(std::abs(overlap(a, o) - std::cos(r * th)) < 1e-9 && std::abs(overlap(b, o) - std::cos((1.0 - r) * th)) < 1e-9, "the angle is divided by the ratio, the short way");
  const Eigen::Isometry3d s = Eigen::Translation3d(1, 2, 3) * a, t = Eigen::Translation3d(-4, 5, 60) * b, z = Interpolate(s, t, r); sym_assert(overlap(Eigen::Quaterniond(z.linear()), o) > 1 - 1e-9 && (z.translation() - ((1 - r) * s.translation() + r * t.translation())).norm() < 1e-9, "transforms interpolate rotation and translation"); sym_cover("slerp"); sym_observe_d(o.w());
}
//@ job both h_ends must=first,second time=60
//@ job both h_between must=between time=100
//@ job both h_mismatch must=match,mismatch
//@ job both h_linear must=low,high time=100
//@ job both h_bilinear must=bilinear time=100
//@ job quick h_trilinear must=trilinear time=100
//@ job thorough h_trilinear must=trilinear time=600 sides=2
//@ job both h_refused must=refused,accepted time=60
//@ job both h_single must=single time=60
//@ job both h_zero_weights must=zero time=60
//@ job both h_weighted must=weighted time=100
//@ job both h_stddev time=100 must=spread,own-mean
//@ job both h_rotations time=200 must=half-way,heavier
//@ job both h_slerp time=200 must=slerp
//@ job both h_rotation must=first,second time=60
