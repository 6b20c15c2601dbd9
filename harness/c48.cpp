// C48: transform conversions keep component order and round-trip.
//@ srcs: src/common_robotics_utilities/conversions.cpp
//@ bound: any component bit patterns, vectors of 0..7 components; Euler composition: any translation that is not NaN and every combination of 6 angles per axis (0, quarter and half turns, 0.3, -1.1, 2.5), sizes 0..8 for six-component vectors
//@ outside: other angles (the sine and cosine of a symbolic angle are not encoded), longer vectors
#include <sym.h>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <common_robotics_utilities/conversions.hpp>
using namespace common_robotics_utilities::conversions;
static uint64_t bits(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
HARNESS(vectors) {
  const int n = sym_choice(1 + sym_param("n", 7), "size"); std::vector<double> v(n); for (int i = 0; i < n; i++) v[i] = sym_double("component");
  bool threw = false; Eigen::Vector3d e; try { e = StdVectorDoubleToEigenVector3d(v); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (n != 3), "exactly three components are accepted");
  if (n == 3) { sym_assert(bits(e(0)) == bits(v[0]) && bits(e(1)) == bits(v[1]) && bits(e(2)) == bits(v[2]), "every component keeps its place"); const std::vector<double> b = EigenVector3dToStdVectorDouble(e); sym_assert(b.size() == 3 && bits(b[0]) == bits(v[0]) && bits(b[1]) == bits(v[1]) && bits(b[2]) == bits(v[2]), "round trip"); sym_cover("three"); }
  threw = false; Eigen::Quaterniond q; try { q = StdVectorDoubleToEigenQuaterniond(v); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (n != 4), "exactly four components are accepted");
  if (n == 4) { sym_assert(bits(q.x()) == bits(v[0]) && bits(q.y()) == bits(v[1]) && bits(q.z()) == bits(v[2]) && bits(q.w()) == bits(v[3]), "x, y, z, w order"); const std::vector<double> b = EigenQuaterniondToStdVectorDouble(q); int ok = b.size() == 4; for (int i = 0; ok && i < 4; i++) ok &= bits(b[i]) == bits(v[i]); sym_assert(ok, "round trip"); sym_cover("four"); }
  const Eigen::VectorXd x = StdVectorDoubleToEigenVectorXd(v); int ok = x.size() == n; for (int i = 0; ok && i < n; i++) ok &= bits(x(i)) == bits(v[i]); sym_assert(ok, "every component keeps its place"); const std::vector<double> b = EigenVectorXdToStdVectorDouble(x); ok = static_cast<int>(b.size()) == n; for (int i = 0; ok && i < n; i++) ok &= bits(b[i]) == bits(v[i]); sym_assert(ok, "round trip"); sym_observe(n); if (n == 0) sym_cover("empty");
}
static const double kAngle[] = {0.0, 1.57079632679489661923, 3.14159265358979323846, 0.3, -1.1, 2.5};
using M = double[3][3];
static void axis(M& m, int a, double t) { const double c = std::cos(t), s = std::sin(t); const int b = (a + 1) % 3, d = (a + 2) % 3; for (auto& r : m) for (double& v : r) v = 0; m[a][a] = 1; m[b][b] = c; m[d][d] = c; m[b][d] = -s; m[d][b] = s; }
static void mul(M& o, const M& a, const M& b) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { o[i][j] = 0; for (int k = 0; k < 3; k++) o[i][j] += a[i][k] * b[k][j]; } }
static bool close(const Eigen::Matrix3d& r, const M& e) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(std::abs(r(i, j) - e[i][j]) < 1e-9)) return false; return true; }
static void expected(M& e, bool urdf, double r, double p, double y) { M a, b, c, t; axis(a, 0, r); axis(b, 1, p); axis(c, 2, y); if (urdf) { mul(t, c, b); mul(e, t, a); } else { mul(t, a, b); mul(e, t, c); } }
HARNESS(euler) {
  const bool urdf = sym_bool("urdf"); const double r = kAngle[sym_choice(6, "roll")], p = kAngle[sym_choice(6, "pitch")], y = kAngle[sym_choice(6, "yaw")]; M e; expected(e, urdf, r, p, y);
  const Eigen::Quaterniond q = urdf ? QuaternionFromUrdfRPY(r, p, y) : QuaternionFromRPY(r, p, y); sym_assert(close(q.toRotationMatrix(), e), urdf ? "rotations compose as yaw, pitch, roll" : "rotations compose as roll, pitch, yaw");
  const Eigen::Vector3d a = EulerAnglesFromQuaternion(q), am = EulerAnglesFromRotationMatrix(q.toRotationMatrix()); M back; expected(back, false, a(0), a(1), a(2)); sym_assert(close(q.toRotationMatrix(), back), "the extracted angles give the same rotation"); expected(back, false, am(0), am(1), am(2)); sym_assert(close(q.toRotationMatrix(), back), "the extracted angles give the same rotation");
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity(); t.linear() = q.toRotationMatrix(); const Eigen::Vector3d ai = EulerAnglesFromIsometry3d(t); expected(back, false, ai(0), ai(1), ai(2)); sym_assert(close(q.toRotationMatrix(), back), "the extracted angles give the same rotation"); sym_cover("angles");
}
HARNESS(transform) {
  double x[3]; for (double& v : x) { v = sym_double("translation"); sym_assume(v == v); } const int how = sym_choice(6, "form"); const bool urdf = how >= 3; const int k = sym_choice(3, "roll"), l = sym_choice(3, "pitch"), m = sym_choice(3, "yaw"); const double r = kAngle[k * 2], p = kAngle[(l * 2 + 1) % 6], y = kAngle[3 + m]; M e; expected(e, urdf, r, p, y); Eigen::VectorXd six(6); six << x[0], x[1], x[2], r, p, y; const Eigen::Vector3d tr(x[0], x[1], x[2]), ro(r, p, y); Eigen::Isometry3d t;
  if (how == 0) t = TransformFromXYZRPY(x[0], x[1], x[2], r, p, y); else if (how == 1) t = TransformFromRPY(tr, ro); else if (how == 2) t = TransformFromRPY(six); else if (how == 3) t = TransformFromUrdfXYZRPY(x[0], x[1], x[2], r, p, y); else if (how == 4) t = TransformFromUrdfRPY(tr, ro); else t = TransformFromUrdfRPY(six);
  sym_assert(t.translation()(0) == x[0] && t.translation()(1) == x[1] && t.translation()(2) == x[2], "the translation is kept"); sym_assert(close(t.linear(), e), "the rotation composes in the documented order"); sym_assert(t.matrix()(3, 0) == 0.0 && t.matrix()(3, 1) == 0.0 && t.matrix()(3, 2) == 0.0 && t.matrix()(3, 3) == 1.0, "an affine transform");
  const Eigen::VectorXd c = TransformToRPY(t); sym_assert(c.size() == 6 && c(0) == x[0] && c(1) == x[1] && c(2) == x[2], "translation first"); M back; expected(back, false, c(3), c(4), c(5)); sym_assert(close(t.linear(), back), "then angles of the same rotation"); sym_cover("transform");
}
HARNESS(sizes) { const int n = sym_choice(9, "size"); Eigen::VectorXd v(n); for (int i = 0; i < n; i++) v(i) = 0.0; const bool urdf = sym_bool("urdf"); bool threw = false; try { if (urdf) TransformFromUrdfRPY(v); else TransformFromRPY(v); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (n != 6), "exactly six components are accepted"); sym_cover(threw ? "refused" : "accepted"); }
//@ job both h_vectors must=three,four,empty
//@ job both h_euler must=angles time=100
//@ job both h_transform must=transform time=100
//@ job both h_sizes must=refused,accepted
