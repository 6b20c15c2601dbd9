// C04: library objects survive serialization.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/serialization.cpp
//@ bound: graphs of 0..3 nodes with up to 3 (thorough 4) arbitrary edges, RRT trees of 0..4 nodes of any structure, search results of 0..3 nodes, grid sizes of any valid cell sizes and counts up to 2^20, dense grids of up to 2x2x2 cells with any origin transform, spatially hashed grids with up to 2 chunks of 1x2x1 cells; every value, weight and transform entry any bit pattern; followed by other bytes and at non-zero offsets
//@ outside: larger objects; value serializers other than the library's own; derived grid classes that serialize extra members
#include <sym.h>
#include <cstring>
#include <vector>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
namespace S = common_robotics_utilities::serialization;
namespace cru = common_robotics_utilities;
using Buf = std::vector<uint8_t>;
static uint64_t bits(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
static double anydouble(const char* n) { const uint64_t u = sym_u64(n); double d; std::memcpy(&d, &u, 8); return d; }
template <class T> static S::Serializer<T> ser() { return S::SerializeMemcpyable<T>; }
template <class T> static S::Deserializer<T> de() { return S::DeserializeMemcpyable<T>; }
template <class T, class Ser, class De> static T trip(const T& v, Ser s, De d) {
  Buf buf(sym_choice(2, "prefix"), 0x5a); const size_t at = buf.size(); const uint64_t n = s(v, buf);
  sym_assert(buf.size() - at == n, "reports the bytes it appended"); sym_assert(at == 0 || buf[0] == 0x5a, "earlier bytes are untouched");
  if (sym_choice(2, "suffix")) for (int i = 0; i < 9; i++) buf.push_back(0xee);
  const auto r = d(buf, at); sym_assert(r.BytesRead() == n, "reads exactly the bytes that were written"); sym_observe(n); sym_cover("round_trip");
  return r.Value();
}
namespace G = cru::simple_graph;
using Graph = G::Graph<uint32_t>;
template <class E> static void same_edges(const E& a, const E& b) {
  sym_assert(a.size() == b.size(), "as many edges");
  for (size_t i = 0; i < a.size(); i++) sym_assert(a[i].GetFromIndex() == b[i].GetFromIndex() && a[i].GetToIndex() == b[i].GetToIndex() && bits(a[i].GetWeight()) == bits(b[i].GetWeight()) && a[i].GetScratchpad() == b[i].GetScratchpad(), "the same edge, weight and scratchpad");
}
HARNESS(graph) {
  const int64_t n = sym_choice(4, "nodes"); Graph g; for (int64_t i = 0; i < n; i++) g.AddNode(sym_u32("value"));
  const int64_t m = n < 2 ? 0 : sym_choice(sym_param("edges", 2) + 1, "edges");
  for (int64_t k = 0; k < m; k++) {
    const int64_t a = sym_choice(n, "from"), b = (a + 1 + static_cast<int64_t>(sym_choice(n - 1, "to"))) % n; g.AddEdgeBetweenNodes(a, b, anydouble("weight"));
    g.GetNodeMutable(a).GetOutEdgesMutable().back().SetScratchpad(sym_u64("scratchpad")); g.GetNodeMutable(b).GetInEdgesMutable().back().SetScratchpad(sym_u64("scratchpad"));
  }
  const Graph h = trip(g, [](const Graph& x, Buf& b) { return Graph::Serialize(x, b, ser<uint32_t>()); }, [](const Buf& b, uint64_t o) { return Graph::Deserialize(b, o, de<uint32_t>()); });
  sym_assert(h.Size() == n, "as many nodes");
  for (int64_t i = 0; i < n; i++) {
    sym_assert(h.GetNodeImmutable(i).GetValueImmutable() == g.GetNodeImmutable(i).GetValueImmutable(), "the same value");
    same_edges(h.GetNodeImmutable(i).GetInEdgesImmutable(), g.GetNodeImmutable(i).GetInEdgesImmutable()); same_edges(h.GetNodeImmutable(i).GetOutEdgesImmutable(), g.GetNodeImmutable(i).GetOutEdgesImmutable());
  }
}
// the bytes of any nodes, linked or not, load exactly when the linkage check accepts them
HARNESS(badgraph) {
  const int64_t n = 1 + sym_choice(2, "nodes"); std::vector<Graph::NodeType, G::GraphNodeAllocator<uint32_t>> nodes;
  for (int64_t i = 0; i < n; i++) { nodes.emplace_back(7u); const int64_t in = sym_choice(2, "in edges"), out = sym_choice(2, "out edges");
    for (int64_t k = 0; k < in; k++) { const int64_t f = sym_i64("from"), t = sym_i64("to"); nodes.back().AddInEdge(G::GraphEdge(f, t, 1.0)); } for (int64_t k = 0; k < out; k++) { const int64_t f = sym_i64("from"), t = sym_i64("to"); nodes.back().AddOutEdge(G::GraphEdge(f, t, 1.0)); } }
  Graph raw; raw.GetNodesMutable() = nodes; const bool good = raw.CheckGraphLinkage(); Buf b; Graph::Serialize(raw, b, ser<uint32_t>());
  bool loaded = false, built = false; try { Graph::Deserialize(b, 0, de<uint32_t>()); loaded = true; } catch (const std::invalid_argument&) {} try { Graph x(nodes); built = true; } catch (const std::invalid_argument&) {}
  sym_assert(loaded == good, "a graph loads exactly when its linkage is valid"); sym_assert(built == good, "a graph is built exactly when its linkage is valid"); sym_observe(good); sym_cover(good ? "accepted" : "rejected");
}
HARNESS(search) {
  const size_t n = sym_choice(4, "nodes"); std::vector<int64_t> p(n); std::vector<double> d(n); for (size_t i = 0; i < n; i++) { p[i] = sym_i64("previous"); d[i] = anydouble("distance"); }
  using R = cru::simple_graph_search::DijkstrasResult; const R r(p, d); const R q = trip(r, R::Serialize, R::Deserialize); sym_assert(q.Size() == static_cast<int64_t>(n), "as many nodes");
  for (size_t i = 0; i < n; i++) sym_assert(q.GetPreviousIndex(i) == p[i] && bits(q.GetNodeDistance(i)) == bits(d[i]), "the same previous index and distance");
}
namespace R = cru::simple_rrt_planner;
using Tree = R::SimpleRRTPlannerTree<uint32_t>;
HARNESS(tree) {
  const int64_t n = sym_choice(5, "nodes"); Tree t; for (int64_t i = 0; i < n; i++) { const int64_t p = static_cast<int64_t>(sym_choice(i + 1, "parent")) - 1; if (p < 0) t.AddNode(sym_u32("value")); else t.AddNodeAndConnect(sym_u32("value"), p); }
  const Tree u = trip(t, [](const Tree& x, Buf& b) { return Tree::Serialize(x, b, ser<uint32_t>()); }, [](const Buf& b, uint64_t o) { return Tree::Deserialize(b, o, de<uint32_t>()); });
  sym_assert(u.Size() == n, "as many nodes");
  for (int64_t i = 0; i < n; i++) { const auto &a = u.GetNodeImmutable(i), &b = t.GetNodeImmutable(i); sym_assert(a.GetValueImmutable() == b.GetValueImmutable() && a.GetParentIndex() == b.GetParentIndex() && a.GetChildIndices() == b.GetChildIndices(), "the same value, parent and children"); }
}
HARNESS(badtree) {
  const int64_t n = 1 + sym_choice(3, "nodes"); R::SimpleRRTPlannerStateVector<uint32_t> nodes;
  for (int64_t i = 0; i < n; i++) { std::vector<int64_t> c(sym_choice(2, "children")); for (auto& x : c) x = sym_i64("child"); const int64_t p = sym_i64("parent"); nodes.emplace_back(7u, p, c); }
  const bool good = Tree::CheckNodeLinkage(nodes); Tree raw; raw.GetNodesMutable() = nodes; Buf b; Tree::Serialize(raw, b, ser<uint32_t>());
  bool loaded = false; try { Tree::Deserialize(b, 0, de<uint32_t>()); loaded = true; } catch (const std::invalid_argument&) {}
  sym_assert(loaded == good, "a tree loads exactly when its linkage is valid"); sym_observe(good); sym_cover(good ? "accepted" : "rejected");
}
using cru::voxel_grid::GridSizes; using cru::voxel_grid::GridIndex;
static void same_sizes(const GridSizes& a, const GridSizes& b) {
  sym_assert(a.Valid() == b.Valid() && a == b && a.NumXCells() == b.NumXCells() && a.NumYCells() == b.NumYCells() && a.NumZCells() == b.NumZCells() && a.Stride1() == b.Stride1() && a.Stride2() == b.Stride2(), "the same counts and strides");
  sym_assert(bits(a.CellXSize()) == bits(b.CellXSize()) && bits(a.CellYSize()) == bits(b.CellYSize()) && bits(a.CellZSize()) == bits(b.CellZSize()), "the same cell sizes");
  sym_assert(bits(a.InvCellXSize()) == bits(b.InvCellXSize()) && bits(a.InvCellYSize()) == bits(b.InvCellYSize()) && bits(a.InvCellZSize()) == bits(b.InvCellZSize()), "the same inverse cell sizes");
  sym_assert(bits(a.XSize()) == bits(b.XSize()) && bits(a.YSize()) == bits(b.YSize()) && bits(a.ZSize()) == bits(b.ZSize()), "the same sizes");
}
HARNESS(sizes) {
  GridSizes s;
  if (sym_choice(2, "valid")) { double c[3]; int64_t k[3]; for (auto& x : c) { x = anydouble("cell size"); sym_assume(x > 0 && x < 1e308 * 10); } for (auto& x : k) x = sym_range(1, 1 << 20, "count"); s = GridSizes(c[0], c[1], c[2], k[0], k[1], k[2]); }
  same_sizes(trip(s, GridSizes::Serialize, GridSizes::Deserialize), s);
}
static Eigen::Isometry3d anytransform() { Eigen::Isometry3d t = Eigen::Isometry3d::Identity(); for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) t.matrix()(r, c) = anydouble("transform"); return t; }
static void same_transform(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b) { for (int i = 0; i < 16; i++) { const double x = a.matrix().data()[i], y = b.matrix().data()[i]; sym_assert(bits(x) == bits(y) || (x == 0.0 && y == 0.0), "the same transform"); } }
using VG = cru::voxel_grid::VoxelGrid<uint16_t>;
HARNESS(grid) {
  VG g;
  if (sym_choice(2, "initialized")) {
    const int64_t x = 1 + sym_choice(2, "x"), y = 1 + sym_choice(2, "y"), z = 1 + sym_choice(2, "z"); const Eigen::Isometry3d at = anytransform(); const uint16_t def = sym_u16("default"), oob = sym_u16("oob"); g = VG(at, GridSizes(0.25, 0.5, 2.0, x, y, z), def, oob);
    for (int64_t i = 0; i < x * y * z; i++) g.SetDataIndex(i, sym_u16("cell"));
    if (sym_choice(2, "moved")) g.UpdateOriginTransform(anytransform());
  } else { g.SetDefaultValue(sym_u16("default")); g.SetOOBValue(sym_u16("oob")); }
  const VG h = trip(g, [](const VG& v, Buf& b) { return VG::Serialize(v, b, ser<uint16_t>()); }, [](const Buf& b, uint64_t o) { return VG::Deserialize(b, o, de<uint16_t>()); });
  sym_assert(h.IsInitialized() == g.IsInitialized(), "initialized alike"); sym_assert(h.GetImmutableRawData() == g.GetImmutableRawData(), "the same cells");
  sym_assert(h.GetDefaultValue() == g.GetDefaultValue(), "the same default"); sym_assert(h.GetOOBValue() == g.GetOOBValue(), "the same out-of-bounds value");
  same_sizes(h.GetGridSizes(), g.GetGridSizes()); same_transform(h.GetOriginTransform(), g.GetOriginTransform()); same_transform(h.GetInverseOriginTransform(), g.GetInverseOriginTransform());
}
using HG = cru::voxel_grid::DynamicSpatialHashedVoxelGrid<uint16_t>; using cru::voxel_grid::DSHVGSetType;
HARNESS(hashed) {
  HG g; bool init = sym_choice(2, "initialized");
  if (init) {
    g = HG(GridSizes(1.0, 0.5, 2.0, static_cast<int64_t>(1), static_cast<int64_t>(2), static_cast<int64_t>(1)), sym_u16("default"), 2);
    const size_t n = sym_choice(4, "writes");
    for (size_t i = 0; i < n; i++) { static const double kX[] = {0.5, -0.5, 0.5, 1.5}; static const double kY[] = {0.25, 0.75, 0.75, 0.25}; const size_t k = sym_choice(4, "where"); const bool whole = sym_choice(2, "whole chunk"); const uint16_t v = sym_u16("cell"); g.SetLocation(kX[k], kY[k], 1.0, whole ? DSHVGSetType::SET_CHUNK : DSHVGSetType::SET_CELL, v); }
    if (sym_choice(2, "moved")) g.UpdateOriginTransform(anytransform());
  } else g.SetDefaultValue(sym_u16("default"));
  const HG h = trip(g, [](const HG& v, Buf& b) { return HG::Serialize(v, b, ser<uint16_t>()); }, [](const Buf& b, uint64_t o) { return HG::Deserialize(b, o, de<uint16_t>()); });
  sym_assert(h.IsInitialized() == g.IsInitialized() && h.GetDefaultValue() == g.GetDefaultValue(), "the same default and state"); same_sizes(h.GetChunkGridSizes(), g.GetChunkGridSizes());
  same_transform(h.GetOriginTransform(), g.GetOriginTransform()); same_transform(h.GetInverseOriginTransform(), g.GetInverseOriginTransform());
  sym_assert(h.GetImmutableInternalChunks().size() == g.GetImmutableInternalChunks().size(), "as many chunks");
  for (const auto& p : g.GetImmutableInternalChunks()) {
    const auto it = h.GetImmutableInternalChunks().find(p.first); sym_assert(it != h.GetImmutableInternalChunks().end(), "the same chunks"); const auto &a = it->second, &b = p.second;
    sym_assert(a.FillStatus() == b.FillStatus(), "filled alike"); const Eigen::Vector4d ca = a.GetChunkCenterInGridFrame(), cb = b.GetChunkCenterInGridFrame(); for (int i = 0; i < 4; i++) sym_assert(bits(ca(i)) == bits(cb(i)), "the same place");
    const int64_t cells = b.FillStatus() == cru::voxel_grid::DSHVGFillStatus::CELL_FILLED ? 2 : 1;
    for (int64_t i = 0; i < cells; i++) { const auto x = a.GetIndexImmutable(GridIndex(0, i, 0)), y = b.GetIndexImmutable(GridIndex(0, i, 0)); sym_assert(x.FoundStatus() == y.FoundStatus() && x.Value() == y.Value(), "the same cell"); }
  }
}
//@ job both h_graph edges=3 time=100 must=round_trip
//@ job both h_badgraph time=100 must=accepted,rejected
//@ job both h_search time=100 must=round_trip
//@ job both h_tree time=100 must=round_trip
//@ job both h_badtree time=100 must=accepted,rejected
//@ job both h_sizes time=100 must=round_trip
//@ job both h_grid time=100 must=round_trip
//@ job both h_hashed time=100 must=round_trip
//@ job thorough h_graph edges=4 time=1900 must=round_trip
