// C03: deserializing arbitrary bytes never leaves the buffer.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/serialization.cpp
//@ bound: buffers of 0..18 bytes (thorough 23) (fixed-size values: 0..size+2) at every 64-bit starting offset for the primitive and container deserializers, and of the lengths listed per job for graphs, Dijkstra results, RRT trees, grid sizes, voxel grids and spatially hashed grids; every byte symbolic, so every length field takes all 2^64 values; allocations above 64 bytes (trees and graphs 200, hashed grids 600, whose chunk count is 0, 1 or above 2^20 and data size is 0..3 or above 2^20, and whose cell counts are (1,1,1), (1,1,2), (0,1,1), (-1,1,1) or (1,1,0)) are assumed to fail with bad_alloc
//@ outside: longer buffers; grids whose three cell counts multiply to more than 2^63; user-written element deserializers other than the library's own
#include <sym.h>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
namespace S = common_robotics_utilities::serialization;
namespace cru = common_robotics_utilities;
using Buf = std::vector<uint8_t>;
static Buf bytes(size_t n) { Buf v(n); for (auto& b : v) b = sym_u8("byte"); return v; }
template <class De> static void probe(const Buf& buf, uint64_t off, De de) {
  const Buf before = buf; int64_t how = 0;
  try {
    const auto r = de(buf, off); const uint64_t n = r.BytesRead();
    sym_assert(off <= buf.size() && n <= buf.size() - off, "the byte count lies inside the buffer");
    sym_observe(n); sym_cover("accepted"); how = 1;
  } catch (const std::exception&) { sym_cover("rejected"); }
  sym_observe(how); sym_assert(buf == before, "the buffer is not changed");
}
template <class T> static S::Deserializer<T> de(bool net) { return [net](const Buf& b, uint64_t o) { return net ? S::DeserializeNetworkMemcpyable<T>(b, o) : S::DeserializeMemcpyable<T>(b, o); }; }
HARNESS(fixed) {
  const uint64_t k = sym_choice(9, "type"); static const size_t kSize[] = {1, 2, 8, 8, 16, 24, 32, 32, 128};
  const size_t n = sym_choice(5, "length"), size = kSize[k] < 2 ? n : n < 2 ? n : kSize[k] + n - 3;   // 0, 1, size-1, size, size+1
  const Buf b = bytes(size); const uint64_t o = sym_u64("offset");
  switch (k) {
    case 0: probe(b, o, S::DeserializeMemcpyable<uint8_t>); probe(b, o, S::DeserializeNetworkMemcpyable<uint8_t>); break;
    case 1: probe(b, o, S::DeserializeMemcpyable<uint16_t>); probe(b, o, S::DeserializeNetworkMemcpyable<uint16_t>); break;
    case 2: probe(b, o, S::DeserializeMemcpyable<double>); break;
    case 3: probe(b, o, S::DeserializeNetworkMemcpyable<uint64_t>); probe(b, o, S::DeserializeNetworkMemcpyable<double>); break;
    case 4: probe(b, o, S::DeserializeVector2d); break;
    case 5: probe(b, o, S::DeserializeVector3d); break;
    case 6: probe(b, o, S::DeserializeVector4d); break;
    case 7: probe(b, o, S::DeserializeQuaterniond); break;
    default: probe(b, o, S::DeserializeIsometry3d);
  }
}
static uint64_t offset(size_t) { static const uint64_t kOff[] = {0, 1}; const uint64_t k = sym_choice(3, "which offset"); return k < 2 ? kOff[k] : sym_u64("offset"); }
#define BUFS const size_t n = sym_choice(sym_param("len", 21), "length"); const Buf b = bytes(n); const uint64_t o = offset(n)
HARNESS(string) { const uint64_t k = sym_choice(4, "form"); BUFS;
  if (k == 0) probe(b, o, S::DeserializeString<char>);
  else if (k == 1) probe(b, o, S::DeserializeString<char16_t>);
  else if (k == 2) probe(b, o, S::DeserializeNetworkString<uint8_t>);
  else probe(b, o, S::DeserializeNetworkString<uint16_t>);
}
HARNESS(memvector) { const uint64_t k = sym_choice(7, "form"); BUFS;
  if (k == 0) probe(b, o, S::DeserializeMemcpyableVectorLike<uint8_t>);
  else if (k == 1) probe(b, o, S::DeserializeMemcpyableVectorLike<uint16_t>);
  else if (k == 2) probe(b, o, S::DeserializeMemcpyableVectorLike<int64_t>);
  else if (k == 3) probe(b, o, S::DeserializeNetworkMemcpyableVectorLike<uint16_t>);
  else if (k == 4) probe(b, o, S::DeserializeNetworkMemcpyableVectorLike<uint64_t>);
  else if (k == 5) probe(b, o, S::DeserializeVectorXd);
  else probe(b, o, S::DeserializeMatrixXd);
}
HARNESS(vector) { const uint64_t k = sym_choice(4, "form"); BUFS;
  if (k < 2) probe(b, o, [&](const Buf& x, uint64_t at) { return k ? S::DeserializeNetworkVectorLike<uint16_t>(x, at, de<uint16_t>(true)) : S::DeserializeVectorLike<uint16_t>(x, at, de<uint16_t>(false)); });
  else if (k == 2) probe(b, o, [](const Buf& x, uint64_t at) { return S::DeserializePair<uint8_t, std::string>(x, at, de<uint8_t>(false), S::DeserializeString<char>); });
  else probe(b, o, [](const Buf& x, uint64_t at) { return S::DeserializeVectorLike<std::string>(x, at, S::DeserializeString<char>); });
}
HARNESS(keyed) { const uint64_t k = sym_choice(4, "form"); BUFS;
  if (k == 0) probe(b, o, [](const Buf& x, uint64_t at) { return S::DeserializeMapLike<uint16_t, uint8_t>(x, at, de<uint16_t>(false), de<uint8_t>(false)); });
  else if (k == 1) probe(b, o, [](const Buf& x, uint64_t at) { return S::DeserializeNetworkMapLike<uint16_t, uint8_t>(x, at, de<uint16_t>(true), de<uint8_t>(true)); });
  else if (k == 2) probe(b, o, [](const Buf& x, uint64_t at) { return S::DeserializeSetLike<uint16_t>(x, at, de<uint16_t>(false)); });
  else probe(b, o, [](const Buf& x, uint64_t at) { return S::DeserializeNetworkSetLike<uint16_t>(x, at, de<uint16_t>(true)); });
}
// library objects: a few lengths around those of well-formed objects
HARNESS(graph) {
  namespace G = cru::simple_graph; static const size_t kLen[] = {8, 12, 28, 29, 47, 48, 49, 60, 92, 112, 113};
  const Buf b = bytes(kLen[sym_choice(sym_param("lens", 9), "length")]); const uint64_t o = sym_choice(2, "offset");
  probe(b, o, [](const Buf& x, uint64_t at) { return G::Graph<uint32_t>::Deserialize(x, at, de<uint32_t>(false)); });
}
HARNESS(dijkstra) { const Buf b = bytes(sym_choice(sym_param("len", 36), "length")); const uint64_t o = sym_choice(2, "offset");
  probe(b, o, cru::simple_graph_search::DijkstrasResult::Deserialize); }
HARNESS(tree) { static const size_t kLen[] = {8, 12, 27, 28, 29, 36, 48, 56, 57}; const Buf b = bytes(kLen[sym_choice(sym_param("lens", 9), "length")]); const uint64_t o = sym_choice(2, "offset");
  probe(b, o, [](const Buf& x, uint64_t at) { return cru::simple_rrt_planner::SimpleRRTPlannerTree<uint32_t>::Deserialize(x, at, de<uint32_t>(false)); }); }
using cru::voxel_grid::GridSizes;
// cell counts at the given position have a representable product
static void bound_counts(const Buf& b, size_t at) { int64_t c[3]; if (at + 24 > b.size()) return; std::memcpy(c, &b[at], 24); for (auto x : c) sym_assume(x <= 1 << 20); }
HARNESS(sizes) { const Buf b = bytes(sym_choice(4, "length") + 46); const uint64_t o = sym_choice(2, "offset"); bound_counts(b, o + 24); probe(b, o, GridSizes::Deserialize); }
HARNESS(grid) {   // isometry 128, default, oob, 8 + cells, sizes 48, flag
  const size_t cells = sym_choice(sym_param("cells", 3), "cells"), full = 128 + 2 + 8 + cells + 48 + 1;
  const Buf b = bytes(full + sym_choice(3, "length") - 1); for (uint64_t k = 0; k < 4; k++) bound_counts(b, 138 + k + 24);
  probe(b, 0, [](const Buf& x, uint64_t at) { return cru::voxel_grid::VoxelGrid<uint8_t>::Deserialize(x, at, de<uint8_t>(false)); });
}
// cell counts at the given position are one of a few, and with a chunk the grid's own cell sizes are 1 (products of symbolic counts and sizes are beyond the solver)
static void fix_counts(Buf& b, size_t at) { static const int64_t kC[5][3] = {{1, 1, 1}, {1, 1, 2}, {0, 1, 1}, {-1, 1, 1}, {1, 1, 0}}; std::memcpy(&b[at], kC[sym_choice(5, "counts")], 24); }
HARNESS(hashed) {   // isometry 128, default, sizes 48, 8 + n * (32 + [32 + 48 + 8 + cells + 1]), flag
  const size_t n = sym_choice(sym_param("chunks", 2), "chunks"), cells = n ? sym_choice(2, "cells") : 0, full = 128 + 1 + 48 + 8 + n * (32 + 32 + 48 + 8 + cells + 1) + 1;
  Buf b = bytes(full + sym_choice(3, "length") - 1); fix_counts(b, 129 + 24); if (n) { const double one[3] = {1, 1, 1}; std::memcpy(&b[129], one, 24); } if (n) fix_counts(b, 185 + 64 + 24);
  uint64_t count; std::memcpy(&count, &b[177], 8); sym_assume(count < 2 || count > 1 << 20);   // (a table of n buckets makes n paths)
  if (n) { std::memcpy(&count, &b[297], 8); sym_assume(count < 4 || count > 1 << 20); }
  probe(b, 0, [](const Buf& x, uint64_t at) { return cru::voxel_grid::DynamicSpatialHashedVoxelGrid<uint8_t>::Deserialize(x, at, de<uint8_t>(false)); });
}
//@ job both h_fixed cap=64 time=100 must=accepted,rejected
//@ job both h_string len=19 cap=64 time=100 must=accepted,rejected
//@ job both h_memvector len=25 cap=64 time=100 must=accepted,rejected
//@ job both h_vector len=19 cap=64 time=100 must=accepted,rejected
//@ job both h_keyed len=17 cap=64 time=100 must=accepted,rejected
//@ job both h_graph cap=200 time=100 must=accepted,rejected
//@ job both h_dijkstra cap=64 time=100 must=accepted,rejected
//@ job both h_tree cap=200 time=100 must=accepted,rejected
//@ job both h_sizes time=100 must=accepted,rejected
//@ job both h_grid cap=16 time=100 must=accepted,rejected
//@ job both h_hashed cap=600 time=100 must=accepted,rejected
//@ job thorough h_string len=24 cap=64 time=1900 must=accepted,rejected
//@ job thorough h_vector len=24 cap=64 time=1900 must=accepted,rejected
//@ job thorough h_keyed len=20 cap=64 time=1900 must=accepted,rejected
//@ job thorough h_memvector len=40 cap=64 time=1900 must=accepted,rejected
//@ job thorough h_graph lens=11 cap=300 time=1900 must=accepted,rejected
//@ job thorough h_grid cells=6 cap=16 time=1900 must=accepted,rejected
