// C08: static work ranges partition the range exactly.
//@ srcs:
//@ bound: range start and size any 64-bit values whose end is representable, for every thread count 1..6 (thorough 1..16) and every thread; every thread count up to 130 with every range size below 2^7 (thorough 300 and 2^8) and any start; all argument quadruples for the rejected calls
//@ outside: thread counts above 6 (thorough 16) together with range sizes of 2^7 (thorough 2^8) and more; ranges whose size is not representable
#include <sym.h>
#include <stdexcept>
#include <common_robotics_utilities/parallelism.hpp>
using common_robotics_utilities::parallelism::CalcStaticThreadRangeStartAndEnd;
static void check(int64_t start, int64_t end, int64_t n, int64_t t) {
  const auto r = CalcStaticThreadRangeStartAndEnd(start, end, n, t);
  sym_assert(r.first <= r.second, "a thread's range is not reversed");
  sym_assert(r.first >= start && r.second <= end, "a thread's range lies inside the whole range");
  if (t == 0) sym_assert(r.first == start, "the first thread starts at the start");
  if (t + 1 == n) sym_assert(r.second == end, "the last thread ends at the end");
  else {
    const auto q = CalcStaticThreadRangeStartAndEnd(start, end, n, t + 1);
    sym_assert(q.first == r.second, "consecutive threads leave no gap and do not overlap");
  }
  const int64_t size = end - start, mine = r.second - r.first;
  const int64_t lo = size / n;
  sym_assert(mine == lo || (mine == lo + 1 && t < size % n), "sizes differ by at most one");
  sym_observe(static_cast<uint64_t>(r.first)); sym_observe(static_cast<uint64_t>(r.second));
  sym_cover("partition");
}
// every 64-bit start and size, few threads
HARNESS(wide) {
  const int64_t lo = sym_param("from", 1); const int64_t n = lo + static_cast<int64_t>(sym_choice(sym_param("threads", 12) - lo + 1, "n"));
  const int64_t t = static_cast<int64_t>(sym_choice(n, "t"));
  // every size is q * n + r for exactly one q and r < n
  const int64_t q = sym_range(0, INT64_MAX / n, "q"), r = sym_range(0, n - 1, "r");
  int64_t size; sym_assume(!__builtin_add_overflow(q * n, r, &size));
  const int64_t start = sym_i64("start"); int64_t end; sym_assume(!__builtin_add_overflow(start, size, &end));
  check(start, end, n, t);
}
// symbolic thread count
HARNESS(many) {
  const int64_t bits = sym_param("bits", 12);
  const int64_t n = sym_range(1, sym_param("maxn", 0x7fffffff), "n");
  const int64_t t = sym_range(0, sym_param("maxn", 0x7fffffff) - 1, "t"); sym_assume(t < n);
  const int64_t start = sym_i64("start"); const int64_t size = sym_range(0, (1LL << bits) - 1, "size");
  int64_t end; sym_assume(!__builtin_add_overflow(start, size, &end));
  check(start, end, n, t);
}
// rejected arguments throw, everything else does not
HARNESS(reject) {
  const int64_t n = sym_i64("n"), t = sym_i64("t"), start = sym_i64("start"), end = sym_i64("end");
  int64_t size; sym_assume(end < start || !__builtin_sub_overflow(end, start, &size));
  const bool bad = end < start || n < 1 || t < 0 || t >= n;
  bool threw = false;
  try { CalcStaticThreadRangeStartAndEnd(start, end, n, t); } catch (const std::invalid_argument&) { threw = true; }
  sym_assert(threw == bad, "exactly the invalid arguments are rejected");
  sym_cover(bad ? "rejected" : "accepted"); sym_observe(threw);
}
//@ job both h_wide threads=4 time=100 must=partition
//@ job both h_wide from=5 threads=5 time=100 must=partition
//@ job both h_wide from=6 threads=6 time=100 must=partition
//@ job both h_many bits=7 maxn=130 time=100 must=partition
//@ job both h_reject time=100 must=rejected,accepted
//@ job thorough h_wide from=7 threads=16 time=3000
//@ job thorough h_many bits=8 maxn=300 time=1500 must=partition
//@ job thorough h_many bits=12 maxn=2147483647 time=1500
