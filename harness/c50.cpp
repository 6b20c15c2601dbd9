// C50: random rotations are unit, use every draw, and their raw forms agree.
//@ srcs:
//@ bound: unit length and ranges: every combination of three (four) draws among 11 values of [0, 1) including its ends; which draw decides what, and the order of raw components: any draws at all, with the trigonometric functions replaced by arbitrary distinct stand-ins; first, second and fourth moments over an equidistributed 16x8x8 grid of draws against those of the uniform distribution
//@ assume: std::uniform_real_distribution<double> returns any value of [0, 1) (the harness replaces it by a symbolic value)
//@ outside: uniformity beyond the moments, other draws with the real trigonometric functions
#include <cmath>
#include <vector>
#include <sym.h>
static bool standin = false; static int calls = 0;
namespace std { inline double sym_cos(double x) { if (!standin) return std::cos(x); return 2.0 * x; } inline double sym_sin(double x) { if (!standin) return std::sin(x); return -4.0 * x; } inline double sym_sqrt(double x) { if (!standin) return std::sqrt(x); return 0.5 * x; } inline double sym_acos(double x) { if (!standin) return std::acos(x); return 8.0 * x; } }
#include <Eigen/Geometry>
#include <functional>
#include <random>
struct Gen { typedef uint64_t result_type; double d[4]; int n = 0; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~UINT64_C(0); } uint64_t operator()() { sym_fail("the generator is only used by the distribution"); return 0; } };
namespace std { template <> template <> inline double uniform_real_distribution<double>::operator()(Gen& g, const param_type& p) { sym_assert(p.a() == 0.0 && p.b() == 1.0, "draws are from [0, 1)"); const double x = g.d[g.n & 3]; g.n++; return x; } }
#define cos sym_cos
#define sin sym_sin
#define sqrt sym_sqrt
#define acos sym_acos
#include <common_robotics_utilities/random_rotation_generator.hpp>
#undef cos
#undef sin
#undef sqrt
#undef acos
using namespace common_robotics_utilities::random_rotation_generator; using G = RandomRotationGenerator; using Q = Eigen::Quaterniond;
static int same(double a, double b) { return (a == b) | ((a != a) & (b != b)); }
static double drawn(int k) { static const double d[11] = {0.0, 0x1p-53, 0.01, 0.125, 0.25, 1.0 / 3, 0.5, 0.6, 0.75, 0.99, 1 - 0x1p-53}; return d[k]; }
struct Feed { double d[4]; int n = 0; double operator()() { const double x = d[n & 3]; n++; return x; } };
HARNESS(unit) {
  Feed f; for (int i = 0; i < 3; i++) { const int k = sym_choice(11, "draw"); f.d[i] = drawn(k); } const Q q = G::GenerateUniformRandomQuaternion([&] { return f(); }); const Q& p = q; sym_assert(std::abs(p.norm() - 1.0) < 1e-12, "random rotations are unit quaternions"); sym_cover("unit"); sym_observe_d(q.w());
}
HARNESS(angles) {
  Feed f; for (int i = 0; i < 4; i++) { const int k = sym_choice(11, "draw"); f.d[i] = drawn(k); } const Eigen::Vector3d e = G::GenerateUniformRandomEulerAngles([&] { return f(); }); sym_assert(e(0) >= -M_PI && e(0) <= M_PI && e(2) >= -M_PI && e(2) <= M_PI, "roll and yaw lie within a turn"); sym_assert(e(1) >= -1e-12 && e(1) <= 2 * M_PI + 1e-12, "pitch lies within a turn");
  sym_cover("angles"); sym_observe_d(e(1));
}
HARNESS(raw) {   // raw forms are the same rotation, component by component, for any draws
  standin = true; Gen a; for (int i = 0; i < 4; i++) { const double u = sym_double("draw"); sym_assume((u >= 0.0) & (u < 1.0)); a.d[i] = u; } Gen b = a; G g; const int what = sym_choice(2, "kind");
  if (what == 0) { const Q q = g.GetQuaternion(a); const std::vector<double> r = g.GetRawQuaternion(b); sym_assert(r.size() == 4 && a.n == b.n, "as many components and draws"); sym_assert(same(r[0], q.x()) & same(r[1], q.y()) & same(r[2], q.z()) & same(r[3], q.w()), "raw rotations are x, y, z, w"); sym_cover("quaternion"); }
  else { const Eigen::Vector3d q = g.GetEulerAngles(a); const std::vector<double> r = g.GetRawEulerAngles(b); sym_assert(r.size() == 3 && a.n == b.n, "as many components and draws"); sym_assert(same(r[0], q(0)) & same(r[1], q(1)) & same(r[2], q(2)), "raw angles are x, y, z"); sym_cover("angles"); }
}
HARNESS(moments) {   // over equidistributed draws
  const int i = sym_choice(4, "component"), j = sym_choice(4, "component"); double m1 = 0, m2 = 0, m22 = 0; int n = 0; const int A = 16, B = 8;
  for (int a = 0; a < A; a++) for (int b = 0; b < B; b++) for (int c = 0; c < B; c++) { Feed f; f.d[0] = (a + 0.5) / A; f.d[1] = (b + 0.25) / B; f.d[2] = (c + 0.375) / B; const Q q = G::GenerateUniformRandomQuaternion([&] { return f(); }); const double x = q.coeffs()(i), y = q.coeffs()(j); m1 += x; m2 += x * y; m22 += x * x * y * y; n++; }
  m1 /= n; m2 /= n; m22 /= n; sym_assert(std::abs(m1) < 1e-3, "no direction is preferred"); sym_assert(std::abs(m2 - (i == j ? 0.25 : 0.0)) < 1e-3, "components are uncorrelated and equally large"); sym_assert(std::abs(m22 - (i == j ? 0.125 : 1.0 / 24)) < 2e-3, "fourth moments of the uniform distribution"); sym_cover("moments"); sym_observe_d(m22);
}
HARNESS(spread) {   // the same for angles: the rotated axes point everywhere alike
  const int i = sym_choice(3, "axis"), j = sym_choice(3, "component"); double m1 = 0, m2 = 0; int n = 0; for (int a = 0; a < 8; a++) for (int b = 0; b < 16; b++) for (int c = 0; c < 2; c++) for (int d = 0; d < 8; d++) { Feed f; f.d[0] = (a + 0.25) / 8; f.d[1] = (b + 0.5) / 16; f.d[2] = (c + 0.5) / 2; f.d[3] = (d + 0.375) / 8; const Eigen::Vector3d e = G::GenerateUniformRandomEulerAngles([&] { return f(); });
    const double cr = std::cos(e(0)), sr = std::sin(e(0)), cp = std::cos(e(1)), sp = std::sin(e(1)), cy = std::cos(e(2)), sy = std::sin(e(2)); const double R[3][3] = {{cp * cy, sr * sp * cy - cr * sy, cr * sp * cy + sr * sy}, {cp * sy, sr * sp * sy + cr * cy, cr * sp * sy - sr * cy}, {-sp, sr * cp, cr * cp}}; const double x = R[j][i]; m1 += x; m2 += x * x; n++; }
  m1 /= n; m2 /= n; sym_assert(std::abs(m1) < 5e-3, "no direction is preferred"); sym_assert(std::abs(m2 - 1.0 / 3) < 5e-3, "every component is equally large"); sym_cover("spread"); sym_observe_d(m2);
}
//@ job both h_unit time=100 must=unit
//@ job both h_angles time=200 must=angles
//@ job both h_raw time=200 must=quaternion,angles
//@ job both h_moments time=100 must=moments
//@ job both h_spread time=100 must=spread
