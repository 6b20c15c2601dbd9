// C09: parallel loops run every index exactly once.
//@ srcs:
//@ bound: ranges of 0..3 (thorough 5) indices starting anywhere in the 64-bit range, 1..3 (thorough 4) requested threads, every granted number of OpenMP threads, every interleaving of workers with up to 2 (thorough 3) preemptions besides those at blocking operations
//@ outside: longer ranges and more threads; ranges whose size is not representable; nested loops
//@ assume: OpenMP hands each iteration to one team member exactly once (schedule static: by contiguous blocks; dynamic: to any member), as its specification says
#include "par.h"
static const size_t kMax = 16;
static void run(unsigned kind, size_t backend) {
  const int64_t n = sym_choice(sym_param("len", 4), "size"); const int32_t threads = 1 + static_cast<int32_t>(sym_choice(sym_param("threads", 3), "threads"));
  const int64_t start = sym_range(INT64_MIN, INT64_MAX - kMax, "start");
  std::atomic<int> runs[kMax] = {}, finished{0}; bool outside = false;
  loop(kind, DegreeOfParallelism(threads), start, start + n, kBackend[backend], [&](int32_t, int64_t lo, int64_t hi) {
    for (int64_t i = lo; i < hi; i++) { if (i < start || i >= start + n) { outside = true; continue; } runs[i - start]++; }
    sym_yield(); finished += static_cast<int>(hi - lo);
  });
  sym_assert(!outside, "nothing outside the range runs"); sym_assert(finished == n, "all calls have finished when the loop returns");
  for (int64_t i = 0; i < n; i++) sym_assert(runs[i] == 1, "every index runs exactly once");
  sym_observe(n); sym_cover("returned");
}
HARNESS(openmp) { const unsigned k = sym_choice(4, "kind"); run(k, 0); }
HARNESS(async) { const unsigned k = sym_choice(4, "kind"); run(k, 1); }
HARNESS(best) { const unsigned k = sym_choice(4, "kind"); run(k, 2); }
HARNESS(reversed) {
  const unsigned k = sym_choice(4, "kind"); const size_t b = sym_choice(3, "backend"); const int32_t t = 1 + static_cast<int32_t>(sym_choice(3, "threads")); const int64_t start = sym_i64("start"), end = sym_i64("end"); sym_assume(end < start);
  int calls = 0; bool threw = false; try { loop(k, DegreeOfParallelism(t), start, end, kBackend[b], [&](int32_t, int64_t, int64_t) { calls++; }); } catch (const std::runtime_error&) { threw = true; }
  sym_assert(threw && calls == 0, "a reversed range is refused without running anything"); sym_cover("refused");
}
//@ job both h_openmp len=6 threads=4 preempt=3 time=100 must=returned
//@ job both h_async preempt=3 time=100 must=returned
//@ job both h_async len=5 threads=4 preempt=1 time=100 must=returned
//@ job both h_openmp len=13 threads=5 preempt=0 time=100 must=returned
//@ job both h_async len=7 threads=4 preempt=0 time=100 must=returned
//@ job both h_best preempt=2 time=100 must=returned
//@ job both h_reversed time=60 must=refused
//@ job thorough h_openmp len=7 threads=5 preempt=4 time=3000 must=returned
//@ job thorough h_async len=5 threads=4 preempt=3 time=3000 must=returned
