// shared by C09 and C10: the eight loops, run over any small range
#pragma once
#include <sym.h>
#include <atomic>
#include <stdexcept>
#include <common_robotics_utilities/parallelism.hpp>
using namespace common_robotics_utilities::parallelism;
// kind: bit 0 dynamic, bit 1 index loop
template <class F> static void loop(unsigned kind, const DegreeOfParallelism& p, int64_t start, int64_t end, ParallelForBackend b, const F& f) {
  const auto range = [&](const ThreadWorkRange& r) { f(r.GetThreadNum(), r.GetRangeStart(), r.GetRangeEnd()); };
  const auto index = [&](int32_t t, int64_t i) { f(t, i, i + 1); };
  if (kind == 0) StaticParallelForRangeLoop(p, start, end, range, b);
  else if (kind == 1) DynamicParallelForRangeLoop(p, start, end, range, b);
  else if (kind == 2) StaticParallelForIndexLoop(p, start, end, index, b);
  else DynamicParallelForIndexLoop(p, start, end, index, b);
}
static const ParallelForBackend kBackend[] = {ParallelForBackend::OPENMP, ParallelForBackend::ASYNC, ParallelForBackend::BEST_AVAILABLE};
