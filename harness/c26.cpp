// C26: numeric helpers stay within their stated range.
//@ srcs:
//@ bound: random index: sizes up to 2^16 with every unit value k/2^20, and every double in [0, 1) for 20 sizes from 1 to 2^63 of 32 and 64 bit types; ranges at any 32-bit start; clamping and spreading of every double and every 64-bit integer with every bounds; every 8, 16, 32 and 64-bit word and bit position; alignments 1..64
//@ outside: ranges whose size does not fit the index type
#include <sym.h>
#include <cmath>
#include <cstring>
#include <stdexcept>
#include <common_robotics_utilities/utility.hpp>
using namespace common_robotics_utilities::utility;
HARNESS(index) {   // exact arithmetic: which index each unit value selects
  const uint64_t k = sym_range(0, (1 << 20) - 1, "k"), n = sym_range(1, sym_param("max", 1 << 16), "n"); const double u = static_cast<double>(k) / 1048576.0; const bool wide = sym_choice(2, "wide"); const uint64_t r = wide ? GetUniformRandomIndex<uint64_t>([&] { return u; }, n) : static_cast<uint64_t>(GetUniformRandomIndex<int32_t>([&] { return u; }, static_cast<int32_t>(n))); sym_assert((r < n) & (r * 1048576 <= k * n) & (k * n < (r + 1) * 1048576), "the index divides the unit interval evenly"); sym_cover("index");
}
HARNESS(any) {   // any unit value
  static const uint64_t sizes[] = {1, 2, 3, 5, 6, 7, 10, 11, 100, 127, 1000, 65535, (1ull << 31) - 1, 1ull << 31, (1ull << 53) - 1, (1ull << 53) + 1, (1ull << 53) + 3, (1ull << 54) + 6, (1ull << 63) - 1, 1ull << 63}; const int w = sym_param("from", 0) + sym_choice(5, "size"); const uint64_t n = sizes[w]; const double u = sym_double("u"); sym_assume(u >= 0.0 && u < 1.0);
  const uint64_t r = GetUniformRandomIndex<uint64_t>([&] { return u; }, n); sym_assert(r < n, "the index is in range"); if (w < 13) { const int32_t s = GetUniformRandomIndex<int32_t>([&] { return u; }, static_cast<int32_t>(n)); sym_assert(s >= 0 && static_cast<uint64_t>(s) == r, "the same index for every type"); } sym_cover("any");
}
HARNESS(range) {
  const uint64_t k = sym_range(0, 1023, "k"); const double u = static_cast<double>(k) / 1024.0; const int32_t start = sym_i32("start"), end = sym_i32("end"); const int64_t width = static_cast<int64_t>(end) - start; sym_assume(width < 1000); bool threw = false; int32_t r = 0; if (start > end) { try { r = GetUniformRandomInRange<int32_t>([&] { return u; }, start, end); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "an empty range is refused"); sym_cover("empty"); return; }
  r = GetUniformRandomInRange<int32_t>([&] { return u; }, start, end); sym_assert((r >= start) & (r <= end), "the value is in the range"); sym_assert(k != 0 || r == start, "the first value can be drawn"); sym_assert(k != 1023 || width >= 1000 || (r == end), "the last value can be drawn"); sym_cover("range");
  const int64_t bad = sym_i64("bad"); if (bad < 1) { threw = false; try { GetUniformRandomIndex<int64_t>([&] { return u; }, bad); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "an empty container is refused"); }
}
template <typename T> static void clamp(T v, T lo, T hi) {
  int logged = 0; bool threw = false, threw2 = false; T r = v, q = v; try { r = ClampValue<T>(v, lo, hi); } catch (const std::invalid_argument&) { threw = true; } try { q = ClampValueAndLog<T>(v, lo, hi, [&](const std::string&) { logged++; }); } catch (const std::invalid_argument&) { threw2 = true; }
  const int ok = (lo <= hi); sym_assert((threw == !ok) & (threw2 == !ok), "an interval is refused exactly when it is empty"); if (!ok) return; sym_cover("clamped"); sym_assert((std::memcmp(&r, &q, sizeof(T)) == 0) & (logged == ((v < lo) | (v > hi))), "logging does not change the result and reports exactly the changes");
  if (v == v) { sym_assert((r >= lo) & (r <= hi) & ((r == v) | (v < lo) | (v > hi)) & (!(v < lo) | (r == lo)) & (!(v > hi) | (r == hi)), "clamping gives the nearest value of the interval"); }
}
HARNESS(clamp_double) { const double v = sym_double("v"), lo = sym_double("lo"), hi = sym_double("hi"); clamp<double>(v, lo, hi); }
HARNESS(clamp_int) { const int64_t v = sym_i64("v"), lo = sym_i64("lo"), hi = sym_i64("hi"); clamp<int64_t>(v, lo, hi); const uint32_t a = sym_u32("a"), b = sym_u32("b"), c = sym_u32("c"); clamp<uint32_t>(a, b, c); }
template <typename T> static void spread(T v, T lo, T mid, T hi) {
  int logged = 0; bool threw = false, threw2 = false; T r = v, q = v; try { r = SpreadValue<T>(v, lo, mid, hi); } catch (const std::invalid_argument&) { threw = true; } try { q = SpreadValueAndLog<T>(v, lo, mid, hi, [&](const std::string&) { logged++; }); } catch (const std::invalid_argument&) { threw2 = true; }
  const int ok = (lo <= mid) & (mid <= hi); sym_assert((threw == !ok) & (threw2 == !ok), "thresholds are refused exactly when out of order"); if (!ok) return; const int up = (v >= mid) & (v < hi), down = (v < mid) & (v > lo); sym_assert((std::memcmp(&r, &q, sizeof(T)) == 0) & (logged == (up | down)), "logging does not change the result and reports exactly the changes");
  sym_assert((!up | (r == hi)) & (!down | (r == lo)), "values between the thresholds move to the threshold on their side"); if (!(up | down)) sym_assert(std::memcmp(&r, &v, sizeof(T)) == 0, "other values stay"); sym_cover("spread");
}
HARNESS(spread_double) { const double v = sym_double("v"), lo = sym_double("lo"), mid = sym_double("mid"), hi = sym_double("hi"); spread<double>(v, lo, mid, hi); }
HARNESS(spread_int) { const int64_t v = sym_i64("v"), lo = sym_i64("lo"), mid = sym_i64("mid"), hi = sym_i64("hi"); spread<int64_t>(v, lo, mid, hi); }
template <typename T> static void bits(T w) {
  const uint32_t p = static_cast<uint32_t>(sym_range(0, sizeof(T) * 8 - 1, "position")), q = static_cast<uint32_t>(sym_range(0, sizeof(T) * 8 - 1, "other")); const bool b = sym_bool("bit"); const T r = SetBit<T>(w, p, b); sym_assert(GetBit<T>(r, p) == b, "a bit reads what was set"); sym_assert((q == p) | (GetBit<T>(r, q) == GetBit<T>(w, q)), "setting a bit changes that bit only"); sym_assert(GetBit<T>(w, q) == (((w >> q) & 1) != 0), "a bit is read by its position");
}
HARNESS(bits) { const uint64_t w = sym_u64("word"); switch (sym_choice(4, "width")) { case 0: bits<uint8_t>(static_cast<uint8_t>(w)); break; case 1: bits<uint16_t>(static_cast<uint16_t>(w)); break; case 2: bits<uint32_t>(static_cast<uint32_t>(w)); break; default: bits<uint64_t>(w); } sym_cover("bits"); }
HARNESS(alignment) {
  alignas(64) static char mem[128]; const uint64_t off = static_cast<uint64_t>(sym_choice(65, "offset")), al = 1ull << sym_choice(7, "alignment"); const char& c = mem[off]; const bool ok = off % al == 0; int logged = 0; sym_assert(CheckAlignment<char>(c, al) == ok && CheckAlignment<char>(c, al, [&](const std::string&) { logged++; }) == ok && logged == 1, "alignment is reported exactly"); bool threw = false; try { RequireAlignment<char>(c, al); } catch (const std::runtime_error&) { threw = true; } sym_assert(threw == !ok, "misaligned items are refused exactly"); sym_cover("aligned");
}
//@ job both h_index time=150 must=index
//@ job both h_any from=0 time=200 must=any
//@ job both h_any from=5 time=200 must=any
//@ job both h_any from=10 time=200 must=any
//@ job both h_any from=15 time=200 must=any
//@ job both h_range time=120 must=range,empty
//@ job both h_clamp_double time=60 must=clamped
//@ job both h_clamp_int time=60 must=clamped
//@ job both h_spread_double time=60 must=spread
//@ job both h_spread_int time=60 must=spread
//@ job both h_bits time=60 must=bits
//@ job both h_alignment time=60 must=aligned
