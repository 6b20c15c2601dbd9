// C39: angles wrap into [-pi, pi) and angular distance is consistent.
//@ srcs: src/common_robotics_utilities/math.cpp
//@ bound: range of a wrapped angle: every double within 30 of zero (almost five turns each way); its value, and distances, ranges and interpolation: magnitudes 2^e*(1+m/2^b) of either sign for e from -20 to 4 and every m (quick b=9 for wrapping and 2 for the second angle of a distance, thorough 20 and 12; the first angle of a distance, and the angles of range checks and interpolations, are among 6 fixed ones with every width in [0, 2 pi] and ratios of b=2, thorough 8, bits), and the doubles within 8 steps of every multiple of pi up to one turn (thorough: five)
//@ outside: larger angles; accuracy is checked to 2^-37, not to the last bit
//@ assume: the reduction of std::fmod by powers of two times the modulus is exact (Sterbenz), which is how the executor encodes it
//@ job quick h_range time=300 must=range
//@ job quick h_edge time=300 must=inside
//@ job quick h_wrap from=-20 step=5 bits=9 time=300 must=inside
//@ job quick h_wrap from=1 step=1 bits=9 time=300 must=inside,turned
//@ job quick h_distance bits=2 angles=1 exps=2 time=300 must=distance
//@ job quick h_sector angles=6 time=300 must=in,notin
//@ job both h_exact time=300 must=in,notin
//@ job thorough h_exact free=1 bits=3 time=1800 must=in,notin
//@ job quick h_ends angles=2 time=300 must=ends
//@ job quick h_interpolate bits=2 angles=2 time=300 must=between
//@ job thorough h_range reach=94 time=1800 must=range
//@ job thorough h_edge turns=5 time=600 must=inside,turned
//@ job thorough h_wrap from=-20 step=5 bits=20 time=1800 must=inside
//@ job thorough h_wrap from=1 step=1 bits=20 time=1800 must=inside,turned
//@ job thorough h_distance bits=12 angles=6 time=2400 must=distance
//@ job thorough h_sector bits=8 angles=6 time=2400 must=in,notin
//@ job thorough h_ends angles=6 time=1800 must=ends
//@ job thorough h_interpolate bits=8 angles=6 time=2400 must=between
#include <sym.h>
#include <cmath>
#include <cstring>
#include <common_robotics_utilities/math.hpp>
using namespace common_robotics_utilities::math;
static const double kTurn = 2.0 * M_PI, kScale = 1099511627776.0;   // comparisons are made in steps of 2^-40
static const int64_t kTurnSteps = static_cast<int64_t>(kTurn * kScale);
static double from_bits(uint64_t b) { double v; std::memcpy(&v, &b, 8); return v; }
static uint64_t to_bits(double v) { uint64_t b; std::memcpy(&b, &v, 8); return b; }
/// a double of either sign with the binary exponent e and `bits` bits of mantissa
static double grid(const char* n, int e, uint64_t bits) { const bool neg = sym_choice(2, "neg"); const uint64_t m = sym_u64(n); return from_bits(((m >> (64 - bits)) << (52 - bits)) | (static_cast<uint64_t>(e + 1023) << 52) | (static_cast<uint64_t>(neg) << 63)); }
static int64_t steps(double v) { return static_cast<int64_t>(v * kScale); }
static int zero(int64_t d) { return (d <= 8) & (d >= -8); }
static int whole(int64_t d) { return zero(d) | zero(d - kTurnSteps) | zero(d + kTurnSteps); }
static int in_range(double r) { return (r >= -M_PI) & (r < M_PI); }
static int turn_of(double v) { int k = 0; if (v < M_PI) { while (v < (2 * k - 1) * M_PI) k--; } else { while (v >= (2 * k + 1) * M_PI) k++; } return k; }

HARNESS(range) { const double reach = static_cast<double>(sym_param("reach", 30)); const double v = sym_double("v"); sym_assume((v >= -reach) & (v <= reach)); const double r = EnforceContinuousRevoluteBounds(v); sym_assert(in_range(r), "a wrapped angle lies in [-pi, pi)"); sym_cover("range"); }
static void wrapped(double v) {
  const double r = EnforceContinuousRevoluteBounds(v); sym_assert(in_range(r), "a wrapped angle lies in [-pi, pi)"); const int k = turn_of(v);
  sym_assert(whole(steps(r) - steps(v) + k * kTurnSteps), "the wrapped angle differs from the angle by whole turns"); if (k == 0) sym_cover("inside"); else sym_cover("turned");
}
HARNESS(edge) { const int n = sym_param("turns", 1); const int k = static_cast<int>(sym_choice(2 * n + 1, "multiple")) - n; const uint64_t o = sym_range(0, 16, "offset"); const uint64_t bits = k == 0 ? o : to_bits(k * M_PI) - 8 + o; const double v = from_bits(bits); wrapped(v); }
HARNESS(wrap) { const int e = sym_param("from", 0) + sym_param("step", 1) * static_cast<int>(sym_choice(4, "exponent")); const double v = grid("v", e, sym_param("bits", 10)); wrapped(v); }
static const int kExponents[] = {0, 1, 2, -20};
static const double kAngles[] = {1.0, -3.0, -M_PI, 5.0, 0.0, -2.5};
HARNESS(distance) {
  const uint64_t bits = sym_param("bits", 4); const uint64_t p = sym_choice(sym_param("angles", 6), "a"), q = sym_choice(sym_param("exps", 4), "exponent b"); const double a = kAngles[p], b = grid("b", kExponents[q], bits);
  const double d = ContinuousRevoluteSignedDistance(a, b), u = ContinuousRevoluteDistance(a, b);
  sym_assert(in_range(d), "the signed distance lies in [-pi, pi)"); sym_assert((u == d) | (u == -d), "the distance is the signed distance without its sign"); sym_assert((u >= 0.0) & (u <= M_PI), "the distance lies in [0, pi]");
  const int64_t D = steps(d) - steps(b) + steps(a); sym_assert(whole(D) | zero(D - 2 * kTurnSteps) | zero(D + 2 * kTurnSteps), "the signed distance leads from the first angle to the second"); sym_cover("distance");
}
HARNESS(sector) {
  const int n = sym_param("angles", 6); const uint64_t p = sym_choice(n, "a"), q = sym_choice(n, "b"), o = sym_choice(n, "end"); const double a = kAngles[p], b = kAngles[q], end = kAngles[o]; const double w = sym_double("width"); sym_assume((w >= 0.0) & (w <= kTurn));
  const double forward = GetContinuousRevoluteRange(a, b), d = ContinuousRevoluteSignedDistance(a, b); sym_assert((forward >= 0.0) & (forward <= kTurn) & whole(steps(forward) - steps(d)), "a range is the signed distance taken forwards");
  const bool in = CheckInContinuousRevoluteRange(a, w, b); if (in) sym_cover("in"); else sym_cover("notin");
  sym_assert(!in | (forward <= w + 1e-12) | (forward >= kTurn - 1e-12), "an angle reported inside a range is reached within it"); sym_assert(in | (forward >= w - 1e-12) | (forward <= 1e-12), "an angle reported outside a range is not reached within it");
  const double extent = GetContinuousRevoluteRange(a, end); const bool in2 = CheckInContinuousRevoluteBounds(a, end, b); sym_assert(!in2 | (forward <= extent + 1e-12) | (forward >= kTurn - 1e-12), "an angle reported inside bounds lies between them"); sym_assert(in2 | (forward >= extent - 1e-12) | (forward <= 1e-12), "an angle reported outside bounds does not lie between them");
}
HARNESS(exact) {   // on multiples of 2^-24 inside [-pi, pi) (and at -pi) every operation is exact, so the ends of ranges count to the last bit
  const double kE[] = {1.0, -3.0, -M_PI, 0.0, 2.5}; const uint64_t p = sym_choice(5, "a"), q = sym_choice(5, "b"); const double a = kE[p]; double b = kE[q]; if (sym_param("free", 0) && q == 0) { b = grid("b", kExponents[sym_choice(2, "exponent b")], sym_param("bits", 4)); sym_assume((b >= -M_PI) & (b < M_PI)); }
  const double forward = GetContinuousRevoluteRange(a, b), w = sym_double("width"); sym_assume((w >= 0.0) & (w <= kTurn)); sym_assert((b >= a) ? forward == b - a : forward == (b - a) + kTurn, "the range from one angle to another is the forward difference");
  const bool in = CheckInContinuousRevoluteRange(a, w, b); sym_assert(in == (forward <= w), "an angle is inside a range exactly when it is reached within it"); sym_assert(CheckInContinuousRevoluteBounds(a, b, b) & CheckInContinuousRevoluteBounds(a, b, a), "bounds include their ends"); sym_cover(in ? "in" : "notin");
}
HARNESS(ends) {
  const int n = sym_param("angles", 6); const uint64_t p = sym_choice(n, "a"), q = sym_choice(n, "b"); const double a = kAngles[p], b = kAngles[q]; const bool hi = sym_choice(2, "end"); const double t = sym_double("t"); sym_assume(hi ? t >= 1.0 : t <= 0.0);
  const double r = InterpolateContinuousRevolute(a, b, t); sym_assert(r == (hi ? InterpolateContinuousRevolute(a, b, 1.0) : EnforceContinuousRevoluteBounds(a)), "a ratio outside [0, 1] counts as the nearest end"); sym_assert(!hi | whole(steps(r) - steps(EnforceContinuousRevoluteBounds(b))), "ratio 1 gives the second angle"); sym_cover("ends");
}
HARNESS(interpolate) {
  const int n = sym_param("angles", 6); const uint64_t p = sym_choice(n, "a"), q = sym_choice(n, "b"); const double a = kAngles[p], b = kAngles[q]; const uint64_t bits = sym_param("bits", 3); const int e = -1 - static_cast<int>(sym_choice(3, "exponent")); const uint64_t m = sym_u64("ratio"); const double t = from_bits(((m >> (64 - bits)) << (52 - bits)) | (static_cast<uint64_t>(e + 1023) << 52));
  const double r = InterpolateContinuousRevolute(a, b, t); sym_assert(in_range(r), "an interpolated angle lies in [-pi, pi)"); const double m1 = EnforceContinuousRevoluteBounds(a) + ContinuousRevoluteSignedDistance(a, b) * t; sym_assert(whole(steps(r) - steps(m1)), "the interpolation moves along the shorter way in proportion"); sym_cover("between");
}
