// C51: scoped OpenMP settings set the requested count while alive and restore the previous one.
//@ srcs:
//@ bound: any previous setting 1..4 (6 for sequences) and any team size the runtime grants at every parallel region, requested counts 1..3 nested, 1..6 in sequence, every refused 32-bit count, up to 3 nested wrappers of either kind left in normal or exceptional order, any history of up to 3 sequential scopes; previous settings and requests from {1, 2, 5, 7, 64, 1000, 100000, 2^31-1} on machines with 1 or 4 processors and a thread limit of 6 or none; teams of up to 3 threads for use inside a parallel region
//@ outside: other OpenMP settings (dynamic adjustment itself, thread limits), wrappers shared between threads, deeper nesting
//@ assume: the OpenMP runtime model: omp_set_num_threads/omp_get_max_threads write and read the calling thread's nthreads setting, and a parallel region is granted any number of threads from 1 to the setting
#include <sym.h>
#include <stdexcept>
#include <common_robotics_utilities/openmp_helpers.hpp>
using namespace common_robotics_utilities::openmp_helpers;
struct Stop {};
static int setting() { return GetContextMaxNumOmpThreads(); }
static int team() { int n = 0;
#pragma omp parallel
  {
#pragma omp master
    n = GetContextNumOmpThreads();
  }
  return n; }
// Nested scopes; each level picks its kind and count, the innermost picks how the scopes are left.
static void nest(int depth, bool leave_by_exception) {
  const int before = setting(); const int kind = sym_choice(3, "wrapper_kind"); bool threw = false;
  if (kind == 0 || depth == 0) { if (leave_by_exception) throw Stop(); return; }
  try {
    if (kind == 1) { const int n = (int)sym_range(1, sym_param("count", 3), "count"); ChangeOmpNumThreadsWrapper w(n); sym_assert(setting() == n, "the requested count is set while the wrapper is alive"); const int t = team(); sym_assert(t >= 1 && t <= n, "parallel regions use at most the requested count"); nest(depth - 1, leave_by_exception); sym_assert(setting() == n, "inner scopes restore the outer wrapper's count"); }
    else { DisableOmpWrapper w; sym_assert(setting() == 1, "the disabling wrapper sets one thread"); const int t = team(); sym_assert(t == 1, "parallel regions run on one thread while disabled"); nest(depth - 1, leave_by_exception); sym_assert(setting() == 1, "inner scopes restore the outer wrapper's count"); }
  } catch (const Stop&) { threw = true; }
  sym_assert(setting() == before, "the previous count is restored"); sym_assert(threw == leave_by_exception, "harness");
  if (depth == sym_param("depth", 2)) sym_cover(leave_by_exception ? "exception" : "normal");
  if (threw) throw Stop();
}
HARNESS(nested) {
  const int start = (int)sym_range(1, sym_param("start", 4), "previous_setting"); omp_set_num_threads(start); const bool exc = sym_bool("leave_by_exception"); bool threw = false;
  try { nest(sym_param("depth", 2), exc); } catch (const Stop&) { threw = true; }
  sym_assert(setting() == start, "the previous count is restored"); sym_assert(threw == exc, "harness"); sym_observe(setting());
}
HARNESS(sequence) {
  const int start = (int)sym_range(1, 6, "previous_setting"); omp_set_num_threads(start); int cur = start; const int steps = sym_param("steps", 3);
  for (int i = 0; i < steps; i++) {
    const int op = sym_choice(3, "operation");
    if (op == 0) { const int n = (int)sym_range(1, 6, "set"); omp_set_num_threads(n); cur = n; }
    else if (op == 1) { const int n = (int)sym_range(1, 6, "count"); ChangeOmpNumThreadsWrapper w(n); sym_assert(setting() == n, "the requested count is set while the wrapper is alive"); }
    else { DisableOmpWrapper w; sym_assert(setting() == 1, "the disabling wrapper sets one thread"); }
    sym_assert(setting() == cur, "the previous count is restored");
  }
  sym_cover("sequence"); sym_observe(cur);
}
HARNESS(large) {   // settings and requests far above the processors and thread limit of the machine: no region is opened here
  const int some[8] = {1, 2, 5, 7, 64, 1000, 100000, 0x7fffffff}; const int si = sym_choice(8, "previous_setting"), ci = sym_choice(8, "count"), ki = sym_choice(8, "inner_count"); const int start = some[si], n = some[ci], k = some[ki];
  omp_set_num_threads(start); const int order = sym_choice(4, "nesting");
  { ChangeOmpNumThreadsWrapper w(n); sym_assert(setting() == n, "the requested count is set while the wrapper is alive");
    if (order == 1) { ChangeOmpNumThreadsWrapper v(k); sym_assert(setting() == k, "the inner wrapper's requested count is set while it is alive"); }
    if (order == 2) { DisableOmpWrapper v; sym_assert(setting() == 1, "the disabling wrapper sets one thread"); }
    sym_assert(setting() == n, "inner scopes restore the outer wrapper's count"); }
  sym_assert(setting() == start, "the previous count is restored");
  { DisableOmpWrapper w; sym_assert(setting() == 1, "the disabling wrapper sets one thread"); if (order == 3) { ChangeOmpNumThreadsWrapper v(k); sym_assert(setting() == k, "the inner wrapper's requested count is set while it is alive"); } sym_assert(setting() == 1, "inner scopes restore the outer wrapper's count"); }
  sym_assert(setting() == start, "the previous count is restored"); sym_cover("large"); sym_observe(start);
}
HARNESS(refuse) {
  const int start = (int)sym_range(1, 6, "previous_setting"); omp_set_num_threads(start); const int32_t n = sym_i32("count"); sym_assume(n <= 0); bool bad = false;
  try { ChangeOmpNumThreadsWrapper w(n); } catch (const std::invalid_argument&) { bad = true; }
  sym_assert(bad, "counts of zero or less are refused"); sym_assert(setting() == start, "a refused wrapper leaves the setting alone"); sym_cover("refused"); sym_observe(start);
}
HARNESS(inside) {
  const int start = (int)sym_range(1, 3, "previous_setting"); omp_set_num_threads(start); const int n = (int)sym_range(1, 6, "count"); int refused[8] = {0}, kept[8] = {0}, size = 0; const bool disable = sym_bool("disable");
#pragma omp parallel
  {
    const int me = GetContextOmpThreadNum(); const int mine = setting();
    try { if (disable) { DisableOmpWrapper w; } else { ChangeOmpNumThreadsWrapper w(n); } } catch (const std::runtime_error&) { refused[me] = 1; }
    kept[me] = setting() == mine;
#pragma omp master
    size = GetContextNumOmpThreads();
  }
  for (int i = 0; i < size; i++) { sym_assert(size == 1 || refused[i], "use inside a parallel region is refused"); sym_assert(kept[i], "the thread's setting is unchanged after the attempt"); }
  sym_assert(setting() == start, "the setting outside the region is unchanged"); if (size > 1) sym_cover("parallel"); sym_observe(size);
}
HARNESS(counts) {   // the library's own queries
  const int start = (int)sym_range(1, sym_param("max", 4), "previous_setting"); omp_set_num_threads(start); const int m = GetMaxNumOmpThreads(); sym_assert(m == start, "the maximum number of threads is the setting");
  const int n = GetNumOmpThreads(); sym_assert(n >= 1 && n <= start, "a region has at least one thread and at most the setting"); sym_assert(!IsOmpInParallel() && GetContextOmpThreadNum() == 0 && GetContextNumOmpThreads() == 1, "outside a region there is one thread"); sym_assert(IsOmpEnabledInBuild() && GetOmpThreadLimit() > 0, "OpenMP is enabled"); sym_assert(setting() == start, "queries leave the setting alone"); if (n > 1) sym_cover("team"); sym_observe(m);
}
//@ job both h_counts preempt=1 max=3 time=60 must=team
//@ job both h_nested depth=2 time=60 must=normal,exception
//@ job both h_sequence time=60 must=sequence
//@ job both h_large omp_procs=4 omp_thread_limit=6 time=60 must=large
//@ job both h_large omp_procs=1 omp_thread_limit=2147483647 time=60 must=large
//@ job both h_refuse must=refused
//@ job both h_inside preempt=1 time=60 must=parallel
//@ job thorough h_nested depth=3 count=2 start=3 time=2000
//@ job thorough h_sequence steps=4 time=2000
