// C24: dynamic spatial hashed voxel grids behave like an unbounded grid of defaults.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs:
//@ bound: one chunk by itself: every history of 2 operations; histories of 2 (thorough 3) writes (of values and of temporaries, in every form), mutable accesses and refused writes, each in any of 4 neighbouring chunks at every location k/8 in the chunk, any values, chunks of 1..2 x 1..2 x 2 cells of sizes 1/4..1, three origins; every grid location compared afterwards; locations within 4 representable values of any boundary of the chunks -2..2 along an axis for cell size 0.1; any double as one coordinate of a refused location
//@ outside: longer histories, larger chunks; cell sizes and origins whose arithmetic rounds (beyond the boundary job)
#include <sym.h>
#include <cmath>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
using namespace common_robotics_utilities::voxel_grid; using Eigen::Vector3d; using Eigen::Vector4d;
namespace ser = common_robotics_utilities::serialization;
static int g_announced; static bool g_veto; static Vector4d g_at;
class Grid final : public DynamicSpatialHashedVoxelGridBase<uint8_t> {
  using B = DynamicSpatialHashedVoxelGridBase<uint8_t>;
  std::unique_ptr<B> DoClone() const override { return std::unique_ptr<B>(new Grid(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>&, const ser::Serializer<uint8_t>&) const override { return 0; }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>&, const uint64_t, const ser::Deserializer<uint8_t>&) override { return 0; }
  bool OnMutableAccess(const Vector4d& l) override { g_announced++; g_at = l; return !g_veto; }
  bool OnMutableRawAccess() override { return !g_veto; }
 public:
  using B::B; Grid() = default;
};
static const struct { double cell[3]; int64_t n[3]; } kSizes[] = {{{0.5, 0.25, 1.0}, {2, 1, 2}}, {{0.25, 0.5, 0.25}, {1, 2, 2}}};
static const int kChunk[4][3] = {{0, 0, 0}, {-1, 0, 0}, {0, -1, 1}, {-1, 1, -1}};
static Eigen::Isometry3d origin(int o) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity(); if (o == 1) { m(0, 3) = 2.5; m(1, 3) = -1.25; m(2, 3) = 7.0; }
  if (o == 2) { m(0, 0) = 0; m(0, 1) = -1; m(1, 0) = 1; m(1, 1) = 0; m(0, 3) = -3.0; m(2, 3) = 0.5; }   // quarter turn about z
  Eigen::Isometry3d r; r.matrix() = m; return r;
}
static void world(int o, const double (&q)[3], double (&p)[3]) { if (o == 2) { p[0] = -q[1] - 3.0; p[1] = q[0]; p[2] = q[2] + 0.5; } else { const double t[2][3] = {{0, 0, 0}, {2.5, -1.25, 7.0}}; for (int i = 0; i < 3; i++) p[i] = q[i] + t[o][i]; } }
struct Model { int sz; int status[4]; uint8_t v[4][8]; };
struct At { int chunk; double q[3], p[3]; int cell; };
static void place(const Model& m, int o, At& a) {
  a.chunk = sym_choice(4, "chunk"); a.cell = 0; for (int i = 0; i < 3; i++) { const auto& s = kSizes[m.sz]; const int w = static_cast<int>(s.cell[i] * s.n[i] * 8), c = static_cast<int>(s.cell[i] * 8); const int off = static_cast<int>(sym_range(0, w - 1, "offset")); a.q[i] = (kChunk[a.chunk][i] * w + off) / 8.0; a.cell = a.cell * static_cast<int>(s.n[i]) + off / c; }
  world(o, a.q, a.p);
}
static uint8_t want(const Model& m, const At& a) { uint8_t r = 0; for (int i = 0; i < 8; i++) r = static_cast<uint8_t>(r | (m.v[a.chunk][i] & -(i == a.cell))); return r; }
static void check_read(const Grid& g, const Model& m, const At& a, int form) {
  const Vector3d v3(a.p[0], a.p[1], a.p[2]); const Vector4d v4(a.p[0], a.p[1], a.p[2], 1.0); const auto r = form == 0 ? g.GetLocationImmutable(a.p[0], a.p[1], a.p[2]) : form == 1 ? g.GetLocationImmutable3d(v3) : g.GetLocationImmutable4d(v4); const int st = m.status[a.chunk];
  sym_assert(r.FoundStatus() == (st == 0 ? DSHVGFoundStatus::NOT_FOUND : st == 1 ? DSHVGFoundStatus::FOUND_IN_CHUNK : DSHVGFoundStatus::FOUND_IN_CELL) && r.HasValue() == (st != 0) && static_cast<bool>(r) == (st != 0), "a location is found exactly when its chunk was written"); if (st) { sym_assert(r.Value() == want(m, a), "a location reads the last value written to it"); sym_cover("read"); }
}
static size_t allocated(const Model& m) { return static_cast<size_t>((m.status[0] != 0) + (m.status[1] != 0) + (m.status[2] != 0) + (m.status[3] != 0)); }
static void check_all(const Grid& g, const Model& m, int o) {
  for (int c = 0; c < 4; c++) for (int x = 0; x < kSizes[m.sz].n[0]; x++) for (int y = 0; y < kSizes[m.sz].n[1]; y++) for (int z = 0; z < kSizes[m.sz].n[2]; z++) {
    At a; a.chunk = c; const int k[3] = {x, y, z}; a.cell = 0; for (int i = 0; i < 3; i++) { a.q[i] = kChunk[c][i] * kSizes[m.sz].cell[i] * kSizes[m.sz].n[i] + (k[i] + 0.5) * kSizes[m.sz].cell[i]; a.cell = a.cell * static_cast<int>(kSizes[m.sz].n[i]) + k[i]; } world(o, a.q, a.p); check_read(g, m, a, 2);
  }
  sym_assert(g.GetImmutableInternalChunks().size() == allocated(m), "only chunks written to are allocated");
}
static DSHVGSetStatus write(Grid& g, const double (&p)[3], DSHVGSetType t, const uint8_t v, int form, bool tmp) {   // every form, of a value and of a temporary
  const Vector3d v3(p[0], p[1], p[2]); const Vector4d v4(p[0], p[1], p[2], 1.0); if (form == 0) return tmp ? g.SetLocation(p[0], p[1], p[2], t, uint8_t(v + 0)) : g.SetLocation(p[0], p[1], p[2], t, v); if (form == 1) return tmp ? g.SetLocation3d(v3, t, uint8_t(v + 0)) : g.SetLocation3d(v3, t, v); return tmp ? g.SetLocation4d(v4, t, uint8_t(v + 0)) : g.SetLocation4d(v4, t, v);
}
HARNESS(history) {
  Model m; std::memset(&m, 0, sizeof(m)); m.sz = sym_choice(2, "sizes"); const int o = sym_choice(3, "origin"); const uint8_t def = sym_u8("default"); const auto& s = kSizes[m.sz]; const GridSizes sizes(s.cell[0], s.cell[1], s.cell[2], s.n[0], s.n[1], s.n[2]); Grid g = o == 0 ? Grid(sizes, def, 4) : Grid(origin(o), sizes, def, 4); for (auto& c : m.v) for (auto& v : c) v = def;
  if (o == 2) { Grid u(origin(1), sizes, def, 0); u.UpdateOriginTransform(origin(2)); g = u; } const int ops = sym_param("ops", 2), first_form = sym_choice(3, "form"); const bool temporary = sym_choice(2, "temporary");
  for (int k = 0; k < ops; k++) {
    At a; place(m, o, a); const int op = sym_choice(4, "operation"), form = (first_form + k) % 3; const bool tmp = temporary ^ (k & 1); const uint8_t v = sym_u8("value"); const Vector3d v3(a.p[0], a.p[1], a.p[2]); const Vector4d v4(a.p[0], a.p[1], a.p[2], 1.0); g_veto = op == 3; const int before = g_announced;
    if (op == 0) { const auto t = DSHVGSetType::SET_CELL; const auto r = write(g, a.p, t, v, form, tmp); sym_assert(r == DSHVGSetStatus::SET_CELL, "a cell write is reported"); m.status[a.chunk] = 2; for (int i = 0; i < 8; i++) m.v[a.chunk][i] = static_cast<uint8_t>((m.v[a.chunk][i] & -(i != a.cell)) | (v & -(i == a.cell))); }
    if (op == 1) { const auto t = DSHVGSetType::SET_CHUNK; const auto r = write(g, a.p, t, v, form, tmp); sym_assert(r == DSHVGSetStatus::SET_CHUNK, "a chunk write is reported"); m.status[a.chunk] = 1; for (auto& e : m.v[a.chunk]) e = v; }
    if (op == 2) { auto r = form == 0 ? g.GetLocationMutable(a.p[0], a.p[1], a.p[2]) : form == 1 ? g.GetLocationMutable3d(v3) : g.GetLocationMutable4d(v4); const int st = m.status[a.chunk]; sym_assert(r.HasValue() == (st != 0), "mutable access to written chunks only"); if (st) { sym_assert(r.Value() == want(m, a), "mutable access reads the value"); r.Value() = v; for (int i = 0; i < 8; i++) m.v[a.chunk][i] = static_cast<uint8_t>((m.v[a.chunk][i] & -((i != a.cell) & (st == 2))) | (v & -((i == a.cell) | (st == 1)))); } }
    if (op == 3) { const bool set = sym_choice(2, "set"); const int st = m.status[a.chunk]; if (set) { const auto r = write(g, a.p, DSHVGSetType::SET_CELL, v, form, tmp); sym_assert(r == DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED, "a refused write is reported"); } else { auto r = g.GetLocationMutable4d(v4); sym_assert(!r.HasValue() && r.FoundStatus() == (st ? DSHVGFoundStatus::MUTABLE_ACCESS_PROHIBITED : DSHVGFoundStatus::NOT_FOUND), "a refused access gives nothing"); } }
    if (op != 2 || m.status[a.chunk]) { if (op != 3 || m.status[a.chunk]) sym_assert(g_announced > before, "every mutable access is announced"); if (g_announced > before) sym_assert(g_at(0) == a.q[0] && g_at(1) == a.q[1] && g_at(2) == a.q[2], "the announced location is the accessed one"); }
    At b = a; for (int i = 0; i < 3; i++) b.q[i] += 0.0; check_read(g, m, b, form);
  }
  check_all(g, m, o); const uint8_t def2 = sym_u8("default2"); sym_assert(g.GetDefaultValue() == def, "the default is kept");
  const auto c = g.Clone(); g_veto = false; At a; a.chunk = 0; a.cell = 0; for (double& q : a.q) q = 0.0; world(o, a.q, a.p); g.SetDefaultValue(def2); g.SetLocation(a.p[0], a.p[1], a.p[2], DSHVGSetType::SET_CHUNK, def2); check_all(static_cast<const Grid&>(*c), m, o); sym_cover("end");   // the clone is independent
}
HARNESS(boundary) {   // where computing the chunk rounds
  static const int64_t cells[] = {1, 3, 4, 7}; const int64_t n = cells[sym_choice(4, "cells")]; const int k = sym_choice(5, "chunk") - 2; const int far = sym_choice(2, "far") ? 17 : 1; const double size = 0.1 * static_cast<double>(n), at = size * k * far; uint64_t bits; std::memcpy(&bits, &at, 8); const int64_t d = at == 0.0 ? sym_choice(5, "ulp") : sym_choice(9, "ulp") - 4; bits += static_cast<uint64_t>(d); double x; std::memcpy(&x, &bits, 8);
  Grid g(GridSizes(0.1, n, n, n), 3, 4); g_veto = false; const bool cell = sym_choice(2, "cell"); bool threw = false; try { g.SetLocation(x, 0.05, 0.05, cell ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK, 9); } catch (const std::exception&) { threw = true; } sym_assert(!threw, "any location can be written");
  const Grid& c = g; const auto r = c.GetLocationImmutable(x, 0.05, 0.05); sym_assert(r.HasValue() && r.Value() == 9, "the location reads the value written to it"); int set = 0; for (const auto& ch : g.GetImmutableInternalChunks()) for (int64_t i = 0; i < (cell ? n : 1); i++) set += ch.second.GetIndexImmutable(GridIndex(i, 0, 0)).Value() == 9; sym_assert(set == 1 && g.GetImmutableInternalChunks().size() == 1, "one cell is written"); sym_cover("written");
}
HARNESS(refused) {
  Grid g(GridSizes(0.5, int64_t(2), int64_t(2), int64_t(2)), 3, 4); g_veto = false; static const double bad[] = {std::numeric_limits<double>::quiet_NaN(), INFINITY, -INFINITY}; Vector4d p(0.1, 0.1, 0.1, 1.0); const int axis = sym_choice(3, "axis"); p(axis) = bad[sym_choice(3, "value")]; const bool cell = sym_choice(2, "cell"); bool threw = false;
  try { g.SetLocation4d(p, cell ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK, 9); } catch (const std::exception&) { threw = true; } sym_assert(threw && g.GetImmutableInternalChunks().empty(), "a location that is not a number is refused"); const Grid& c = g; sym_assert(!c.GetLocationImmutable4d(p), "nothing is found there"); sym_cover("refused");
  threw = false; try { Grid bad_sizes{GridSizes(), 3, 4}; } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "invalid sizes are refused");
}
HARNESS(chunk) {   // one chunk by itself, through its own interface
  using Chunk = DynamicSpatialHashedVoxelGridChunk<uint8_t>; const auto& s = kSizes[sym_choice(2, "sizes")]; const GridSizes sizes(s.cell[0], s.cell[1], s.cell[2], s.n[0], s.n[1], s.n[2]); const double base[3] = {-1.0, 2.5, 4.0}; const uint8_t init = sym_u8("initial"); const bool cells = sym_choice(2, "filled by cell"); Chunk c(ChunkRegion(base[0], base[1], base[2]), sizes, cells ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK, init);
  bool by_cell = cells; uint8_t m[2][2][2]; for (auto& p : m) for (auto& q : p) for (auto& v : q) v = init; const int n[3] = {static_cast<int>(s.n[0]), static_cast<int>(s.n[1]), static_cast<int>(s.n[2])};
  for (int step = 0; step < 2; step++) {
    const int op = sym_choice(5, "operation"); const uint8_t v = sym_u8("value"); int k[3]; Vector4d at(0, 0, 0, 1); for (int i = 0; i < 3; i++) { k[i] = sym_choice(n[i], "cell"); at(i) = base[i] + (k[i] + 0.25 + 0.5 * (step & 1)) * s.cell[i]; }
    if (op < 2) { const auto r = op == 0 ? c.SetCellLocation4d(at, v) : c.SetCellLocation4d(at, uint8_t(v + 0)); sym_assert(r == DSHVGSetStatus::SET_CELL, "a cell of a chunk is written"); by_cell = true; m[k[0]][k[1]][k[2]] = v; }
    else if (op < 4) { const auto r = op == 2 ? c.SetChunkValue(v) : c.SetChunkValue(uint8_t(v + 0)); sym_assert(r == DSHVGSetStatus::SET_CHUNK, "a chunk is written"); by_cell = false; for (auto& p : m) for (auto& q : p) for (auto& w : q) w = v; }
    else { auto r = c.GetLocationMutable4d(at); sym_assert(r.HasValue() && r.Value() == m[k[0]][k[1]][k[2]], "mutable access to a chunk reads its value"); r.Value() = v; if (by_cell) m[k[0]][k[1]][k[2]] = v; else for (auto& p : m) for (auto& q : p) for (auto& w : q) w = v; }
    sym_assert(c.FillStatus() == (by_cell ? DSHVGFillStatus::CELL_FILLED : DSHVGFillStatus::CHUNK_FILLED), "how a chunk is filled");
  }
  int ok = 1; for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) for (int z = 0; z < n[2]; z++) {
    const Vector4d at = c.GetCellLocationInGridFrame(GridIndex(x, y, z)); const double want[3] = {base[0] + (x + 0.5) * s.cell[0], base[1] + (y + 0.5) * s.cell[1], base[2] + (z + 0.5) * s.cell[2]}; ok &= (at(0) == want[0]) & (at(1) == want[1]) & (at(2) == want[2]) & (at(3) == 1.0); const auto r = static_cast<const Chunk&>(c).GetLocationImmutable4d(at); ok &= r.HasValue() & (r.Value() == m[x][y][z]) & (r.FoundStatus() == (by_cell ? DSHVGFoundStatus::FOUND_IN_CELL : DSHVGFoundStatus::FOUND_IN_CHUNK));
    const GridIndex i(x, y, z); if (by_cell) ok &= c.GetIndexImmutable(i).Value() == m[x][y][z]; else { bool threw = false; try { ok &= c.GetIndexImmutable(i).Value() == m[0][0][0]; } catch (const std::runtime_error&) { threw = true; } ok &= threw == (x + y + z != 0); }
  }
  const Vector4d mid = c.GetChunkCenterInGridFrame(); for (int i = 0; i < 3; i++) ok &= mid(i) == base[i] + 0.5 * n[i] * s.cell[i]; sym_assert(ok, "every cell of a chunk reads the last value written to it"); sym_cover("end");
  Vector4d out(base[0], base[1], base[2], 1); const int axis = sym_choice(3, "axis"); const int side = sym_choice(2, "side"); out(axis) += (side ? n[axis] + 1 : -1) * s.cell[axis]; if (by_cell) { bool threw = false; try { c.SetCellLocation4d(out, 1); } catch (const std::runtime_error&) { threw = true; } sym_assert(threw, "a location outside a chunk is refused"); }
  Chunk none; bool threw = false; try { none.SetChunkValue(1); } catch (const std::runtime_error&) { threw = true; } sym_assert(threw, "an unfilled chunk is refused");
}
//@ job both h_chunk time=150 must=end
//@ job both h_history ops=2 time=150 must=read,end
//@ job both h_boundary time=100 must=written
//@ job both h_refused time=60 must=refused
//@ job thorough h_history ops=3 time=1500 cap=6000000000 must=read,end
