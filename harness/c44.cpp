// C44: equal values hash equally and comparison is consistent.
//@ srcs:
//@ bound: grid indices: any 64-bit coordinates; chunk regions: any non-NaN coordinates, equal pairs with any signs of zero; grid sizes, graph edges, task outcomes: any field values; three-field hashable structures of any values; containers of up to 3 keys from a 3x3x3 neighbourhood around two far-apart centres and any lookup there
//@ outside: NaN coordinates (never equal to themselves); strings as hashed fields; larger containers
#include <sym.h>
#include <cstring>
#include <unordered_map>
#include <unordered_set>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_task_planner.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
using namespace common_robotics_utilities;
struct Thing { int64_t a; uint8_t b; bool c; bool operator==(const Thing& o) const { return (a == o.a) & (b == o.b) & (c == o.c); } };
CRU_MAKE_HASHABLE(Thing, t.a, t.b, t.c)
using voxel_grid::GridIndex; using voxel_grid::GridSizes; using voxel_grid::ChunkRegion;
HARNESS(grid_index) {
  int64_t a[3], b[3]; for (int i = 0; i < 3; i++) { a[i] = sym_i64("a"); b[i] = sym_i64("b"); }
  const GridIndex x(a[0], a[1], a[2]), y(b[0], b[1], b[2]); const int same = (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]); const bool eq = x == y; sym_assert(eq == (same != 0), "indices are equal exactly when all coordinates are"); sym_assert((y == x) == eq && (x != y) == !eq && (y != x) == !eq && x == x && !(x != x), "comparison is symmetric, reflexive and its negation consistent");
  const GridIndex z(x); const std::hash<GridIndex> h, g; sym_assert(h(x) == h(z) && h(x) == g(x), "a copy hashes equally"); if (eq) { const size_t hx = h(x), hy = h(y); sym_assert(hx == hy, "equal indices hash equally"); sym_cover("equal"); }
}
HARNESS(region) {
  double a[3], b[3]; for (int i = 0; i < 3; i++) { a[i] = sym_double("a"); b[i] = sym_double("b"); sym_assume(a[i] == a[i] && b[i] == b[i]); }
  const ChunkRegion x(a[0], a[1], a[2]), y(b[0], b[1], b[2]); const int same = (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]); const bool eq = x == y; sym_assert(eq == (same != 0), "regions are equal exactly when all coordinates are"); sym_assert((y == x) == eq && x == x, "comparison is symmetric and reflexive"); sym_cover(eq ? "equal" : "different");
}
HARNESS(region_hash) {   // every pair of equal regions: same bits, or zeros of either sign
  double a[3], b[3]; for (int i = 0; i < 3; i++) { const int kind = sym_choice(3, "coordinate"); if (kind == 0) { a[i] = b[i] = sym_double("value"); sym_assume(a[i] == a[i]); } else { const bool s = sym_bool("sign"); a[i] = s ? -0.0 : 0.0; b[i] = kind == 1 ? a[i] : -a[i]; } }
  const ChunkRegion x(a[0], a[1], a[2]), y(Eigen::Vector3d(b[0], b[1], b[2])), z(Eigen::Vector4d(b[0], b[1], b[2], 1.0)); sym_assert(x == y && y == z, "equal"); const std::hash<ChunkRegion> h; const size_t hx = h(x), hy = h(y), hz = h(z); sym_assert(hx == hy && hx == hz, "equal regions hash equally"); sym_cover("equal");
}
HARNESS(zeros) { const double a = sym_double("a"), b = sym_double("b"); uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); sym_assert(!(a == b) || x == y || ((x << 1) == 0 && (y << 1) == 0), "equal doubles have the same bits or are zeros"); }
HARNESS(sizes) {
  const int k = sym_choice(2, "field kind"); double c[2][3]; int64_t n[2][3]; for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) { c[j][i] = k ? 0.25 * (1 << sym_choice(2, "cell")) : 0.5; n[j][i] = k ? 2 : sym_range(1, 1 << 20, "count"); }
  const GridSizes x(c[0][0], c[0][1], c[0][2], n[0][0], n[0][1], n[0][2]), y(c[1][0], c[1][1], c[1][2], n[1][0], n[1][1], n[1][2]); int same = 1; for (int i = 0; i < 3; i++) same &= (c[0][i] == c[1][i]) & (n[0][i] == n[1][i]); const bool eq = x == y; sym_assert(eq == (same != 0), "sizes are equal exactly when cells and counts are"); sym_assert((y == x) == eq && (x != y) == !eq && x == x && !(x != x), "comparison is consistent"); sym_cover(eq ? "equal" : "different");
}
HARNESS(edge) {
  int64_t f[2], t[2]; double w[2]; uint64_t s[2]; for (int j = 0; j < 2; j++) { f[j] = sym_i64("from"); t[j] = sym_i64("to"); w[j] = sym_double("weight"); s[j] = sym_u64("scratchpad"); sym_assume(w[j] == w[j]); }
  const simple_graph::GraphEdge x(f[0], t[0], w[0], s[0]), y(f[1], t[1], w[1], s[1]); const int same = (f[0] == f[1]) & (t[0] == t[1]) & (w[0] == w[1]) & (s[0] == s[1]); const bool eq = x == y; sym_assert(eq == (same != 0), "edges are equal exactly when all fields are"); sym_assert((y == x) == eq && x == x, "comparison is symmetric and reflexive"); sym_cover(eq ? "equal" : "different");
}
struct Mod { size_t operator()(const int64_t& v) const { return static_cast<size_t>(v) & 7; } };
struct ModEq { bool operator()(const int64_t& a, const int64_t& b) const { return ((a ^ b) & 15) == 0; } };
HARNESS(outcome) {
  using namespace simple_task_planner; const int64_t a = sym_i64("a"), b = sym_i64("b"), i = sym_i64("i"), j = sym_i64("j"); const OutcomeWithPrimitiveIndex<int64_t> x(a, i), y(b, j);
  const OutcomeWithPrimitiveIndexHash<int64_t, Mod> h{Mod()}; const OutcomeWithPrimitiveIndexEqual<int64_t, ModEq> e{ModEq()}; const ModEq se; const bool eq = e(x, y); const bool seq = se(a, b); sym_assert(eq == (seq && i == j), "outcomes are equal exactly when their states and primitives are"); const Mod sh; const size_t hx = h(x), ha = sh(a); sym_assert(hx == ha, "an outcome hashes as its state"); sym_assert(e(y, x) == eq && e(x, x), "comparison is symmetric and reflexive"); if (eq) { sym_assert(h(x) == h(y), "equal outcomes hash equally"); sym_cover("equal"); }
}
HARNESS(thing) {
  const Thing x{sym_i64("a"), sym_u8("b"), sym_bool("c")}, y{sym_i64("a"), sym_u8("b"), sym_bool("c")}; const std::hash<Thing> h; const Thing z = x; sym_assert(h(x) == h(z), "a copy hashes equally"); if (x == y) { sym_assert(h(x) == h(y), "equal values hash equally"); sym_cover("equal"); }
}
static GridIndex key(int64_t (&e)[3]) { const int64_t far = sym_choice(2, "centre") * 1000003; const int k = sym_choice(sym_param("near", 8), "near"); e[0] = far + (k & 1); e[1] = ((k >> 1) & 1) - far; e[2] = far - ((k >> 2) & 1); return GridIndex(e[0], e[1], e[2]); }
HARNESS(index_map) {
  std::unordered_map<GridIndex, int> m; int64_t e[4][3]; const int n = sym_choice(1 + sym_param("keys", 2), "keys"); for (int i = 0; i < n; i++) { const GridIndex k = key(e[i]); m[k] = i; }
  const GridIndex q = key(e[3]); int last = -1; for (int i = 0; i < n; i++) if ((e[i][0] == e[3][0]) & (e[i][1] == e[3][1]) & (e[i][2] == e[3][2])) last = i; const auto it = m.find(q); sym_assert((it != m.end()) == (last >= 0), "exactly the keys inserted are found"); if (last >= 0) { sym_assert(it->second == last && it->first == q, "a key finds its own value"); sym_cover("found"); } else sym_cover("missing");
}
HARNESS(region_set) {
  std::unordered_set<ChunkRegion> m; const int n = sym_choice(1 + sym_param("keys", 2), "keys"); double e[4][2]; static const double kV[] = {0.0, -0.0, 1.5, -1.5};
  for (int i = 0; i < 4; i++) { if (i < n || i == 3) for (int j = 0; j < 2; j++) e[i][j] = kV[sym_choice(4, "coordinate")]; if (i < n) m.insert(ChunkRegion(e[i][0], e[i][1], 2.0)); }
  int in = 0; for (int i = 0; i < n; i++) in |= (e[i][0] == e[3][0]) & (e[i][1] == e[3][1]); sym_assert(m.count(ChunkRegion(e[3][0], e[3][1], 2.0)) == (in ? 1u : 0u), "exactly the regions inserted are found"); sym_cover(in ? "found" : "missing");
}
//@ job both h_grid_index must=equal
//@ job both h_region must=equal,different
//@ job both h_region_hash must=equal
//@ job both h_zeros
//@ job both h_sizes must=equal,different time=60
//@ job both h_edge must=equal,different
//@ job both h_outcome must=equal
//@ job both h_thing must=equal
//@ job both h_index_map must=found,missing time=60
//@ job both h_region_set must=found,missing time=60
//@ job thorough h_index_map keys=3 time=2000
//@ job thorough h_region_set keys=3 time=2000
