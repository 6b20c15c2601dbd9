// C10: thread numbers are in range and never shared; exceptions reach the caller.
//@ srcs:
//@ bound: ranges of 0..3 (thorough 4) indices, 1..3 (thorough 4) requested threads, every granted number of OpenMP threads, every subset of the calls throwing, every interleaving of workers with up to 2 (thorough 3) preemptions besides those at blocking operations
//@ outside: longer ranges and more threads; nested loops
//@ assume: OpenMP hands each iteration to one team member exactly once (schedule static: by contiguous blocks; dynamic: to any member), as its specification says
#include "par.h"
static const size_t kMax = 16;
struct Boom { int64_t index; };
static void run(unsigned kind, size_t backend) {
  const int64_t n = sym_choice(sym_param("len", 4), "size"); const int32_t threads = 1 + static_cast<int32_t>(sym_choice(sym_param("threads", 3), "threads"));
  const int64_t start = sym_param("start", 5); const uint64_t mask = sym_choice(1ull << n, "throwing calls");
  std::atomic<int> running{0}, busy[kMax] = {}; std::atomic<uint64_t> thrown{0}; std::atomic<int> threw{0};
  std::atomic<bool> range{true}, shared{false};
  int64_t caught = -1;
  try {
    loop(kind, DegreeOfParallelism(threads), start, start + n, kBackend[backend], [&](int32_t thread, int64_t lo, int64_t hi) {
      if (thread < 0 || thread >= threads) { range = false; return; }
      if (busy[thread].exchange(1) != 0) shared = true;
      running++; sym_yield(); running--;
      busy[thread] = 0;
      for (int64_t i = lo; i < hi; i++) if ((mask >> (i - start)) & 1) { thrown.fetch_or(1ull << (i - start)); threw++; throw Boom{i - start}; }
    });
  } catch (const Boom& b) { caught = b.index; }
  sym_assert(range, "the thread number is in [0, threads)"); sym_assert(!shared, "no two running calls share a thread number");
  sym_assert(running == 0, "all running calls have finished when the loop returns or throws");
  if (threw == 0) { sym_assert(caught == -1, "nothing is thrown when no call threw"); sym_assert(mask == 0, "every call runs when nothing is thrown"); sym_cover("returned"); }
  else { sym_assert(caught >= 0 && ((thrown.load() >> caught) & 1), "one of the thrown exceptions reaches the caller"); sym_cover("threw"); if (threw > 1) sym_cover("several"); }
  sym_observe(threw > 0);
}
HARNESS(openmp) { const unsigned k = sym_choice(4, "kind"); run(k, 0); }
HARNESS(async) { const unsigned k = sym_choice(4, "kind"); run(k, 1); }
HARNESS(best) { const unsigned k = sym_choice(4, "kind"); run(k, 2); }
//@ job both h_openmp len=4 threads=3 preempt=2 time=100 must=returned,threw,several
//@ job both h_async len=4 threads=3 preempt=2 time=100 must=returned,threw
//@ job both h_best len=3 threads=3 preempt=2 time=100 must=returned,threw
//@ job thorough h_openmp len=5 threads=4 preempt=3 time=3000 must=returned,threw
//@ job thorough h_async len=5 threads=4 preempt=2 time=3000 must=returned,threw
