// C22: voxel grids store each voxel independently.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs:
//@ bound: index mapping: extents 1, 2, 7 or 64 (thorough also 3 and 1000) per axis, every in-bounds index and every data index; histories of 2 (thorough 3) operations on every grid of 1..3 x 1..2 x 1..3 (histories: selected extents), through every setter cells with every 64-bit index or data index, every value, every veto; construction with any cell sizes and counts
//@ outside: longer histories, larger grids for histories; grids whose cell count overflows; index conversion on an uninitialised grid (no voxels)
#include <sym.h>
#include <cmath>
#include <stdexcept>
#include <common_robotics_utilities/voxel_grid.hpp>
using namespace common_robotics_utilities::voxel_grid;
namespace ser = common_robotics_utilities::serialization;
static int g_announced; static int64_t g_x, g_y, g_z; static int g_raw; static bool g_veto;
class Grid final : public VoxelGridBase<uint8_t, std::vector<uint8_t>> {
  using B = VoxelGridBase<uint8_t, std::vector<uint8_t>>;
  std::unique_ptr<B> DoClone() const override { return std::unique_ptr<B>(new Grid(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>&, const ser::Serializer<uint8_t>&) const override { return 0; }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>&, const uint64_t, const ser::Deserializer<uint8_t>&) override { return 0; }
  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override { g_announced++; g_x = x; g_y = y; g_z = z; return !g_veto; }
  bool OnMutableRawAccess() override { g_raw++; return !g_veto; }
 public:
  using B::B; Grid() = default;
};
HARNESS(mapping) {
  static const int64_t extent[] = {1, 2, 7, 64, 3, 1000}; const int k = sym_param("extents", 4); const int64_t nx = extent[sym_choice(k, "nx")], ny = extent[sym_choice(k, "ny")], nz = extent[sym_choice(k, "nz")]; const GridSizes s(1.0, nx, ny, nz);
  const int64_t x = sym_i64("x"), y = sym_i64("y"), z = sym_i64("z"); const int in = (x >= 0) & (x < nx) & (y >= 0) & (y < ny) & (z >= 0) & (z < nz); sym_assert((s.IndexInBounds(x, y, z) == (in != 0)) & (s.IndexInBounds(GridIndex(x, y, z)) == (in != 0)), "exactly the grid's indices are in bounds"); sym_assert(s.TotalCells() == nx * ny * nz && s.NumXCells() == nx && s.NumYCells() == ny && s.NumZCells() == nz, "the extents are kept");
  if (in) { const int64_t d = s.GetDataIndex(x, y, z); sym_assert((d == s.GetDataIndex(GridIndex(x, y, z))) & (d >= 0) & (d < nx * ny * nz), "a data index for every voxel"); const GridIndex b = s.GetGridIndexFromDataIndex(d); sym_assert((b.X() == x) & (b.Y() == y) & (b.Z() == z), "index to data index and back"); sym_cover("in"); }
  const int64_t d = sym_i64("data index"); if (d >= 0 && d < nx * ny * nz) { const GridIndex b = s.GetGridIndexFromDataIndex(d); sym_assert(s.IndexInBounds(b) & (s.GetDataIndex(b) == d), "data index to index and back"); }
}
HARNESS(history) {
  int nx, ny, nz; if (sym_param("nx", 0)) { nx = sym_param("nx", 0); ny = sym_param("ny", 0); nz = sym_param("nz", 0); } else { nx = 1 + sym_choice(3, "nx"); ny = 1 + sym_choice(2, "ny"); nz = 1 + sym_choice(3, "nz"); }
  const uint8_t init = sym_u8("default"), oob = sym_u8("out of bounds value"); Grid g(GridSizes(0.5, int64_t(nx), int64_t(ny), int64_t(nz)), init, oob); uint8_t m[3][3][3]; const int total = nx * ny * nz;
  for (auto& p : m) for (auto& q : p) for (auto& v : q) v = init;
  for (int step = 0; step < sym_param("steps", 2); step++) {
    int op = sym_choice(11, "operation"); const bool temporary = op >= 9; if (temporary) op = op == 9 ? 1 : 5; const uint8_t v = sym_u8("value"); g_veto = sym_choice(2, "veto"); g_announced = g_raw = 0; bool status_ok = true, wrote = false; int64_t x = 0, y = 0, z = 0;
    if (op < 5) {
      x = sym_i64("x"); y = sym_i64("y"); z = sym_i64("z"); const GridIndex i(x, y, z); AccessStatus st = AccessStatus::UNKNOWN; const bool in = (x >= 0) & (x < nx) & (y >= 0) & (y < ny) & (z >= 0) & (z < nz);
      if (op == 0) st = g.SetIndex(i, v); else if (op == 1) st = temporary ? g.SetIndex(x, y, z, uint8_t(v + 0)) : g.SetIndex(x, y, z, v); else if (op == 2) st = g.SetIndex(i, uint8_t(v + 0)); else if (op == 3) { auto q = g.GetIndexMutable(i); st = q.Status(); sym_assert(q.HasValue() == (st == AccessStatus::SUCCESS) && static_cast<bool>(q) == q.HasValue(), "a value exactly on success"); if (q) q.Value() = v; } else { auto q = g.GetIndexMutable(x, y, z); st = q.Status(); if (q.HasValue()) q.Value() = v; }
      sym_assert(st == (!in ? AccessStatus::OUT_OF_BOUNDS : g_veto ? AccessStatus::MUTABLE_ACCESS_PROHIBITED : AccessStatus::SUCCESS), "the status says what happened"); sym_assert(g_announced == (in ? 1 : 0) && g_raw == 0, "a mutable access inside the grid is announced once"); if (in) sym_assert((g_x == x) & (g_y == y) & (g_z == z), "with the index that is accessed"); wrote = in && !g_veto; sym_cover(in ? g_veto ? "vetoed" : "written" : "outside");
      if (wrote) for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++) for (int c = 0; c < nz; c++) { const uint8_t mask = -static_cast<int>((x == a) & (y == b) & (z == c)); m[a][b][c] ^= (m[a][b][c] ^ v) & mask; }
    } else if (op < 7) {
      const int64_t d = sym_i64("data index"); bool runtime = false, range = false; try { if (op == 5) { if (temporary) g.SetDataIndex(d, uint8_t(v + 0)); else g.SetDataIndex(d, v); } else g.GetDataIndexMutable(d) = v; } catch (const std::runtime_error&) { runtime = true; } catch (const std::out_of_range&) { range = true; } const bool in = (d >= 0) & (d < total);
      sym_assert(runtime == g_veto && range == (!g_veto && !in) && g_raw == 1 && g_announced == 0, "raw access is announced, and refused when vetoed or out of range"); if (!g_veto && in) { const GridIndex i = g.DataIndexToGridIndex(d); for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++) for (int c = 0; c < nz; c++) { const uint8_t mask = -static_cast<int>((i.X() == a) & (i.Y() == b) & (i.Z() == c)); m[a][b][c] ^= (m[a][b][c] ^ v) & mask; } }
    } else if (op == 7) {
      const int which = sym_choice(4, "reset"); if (which == 0) g.ResetWithDefault(); else if (which == 1) g.ResetWithNewValue(v); else if (which == 2) g.ResetWithNewDefault(v); else { g.SetDefaultValue(v); g.SetOOBValue(v); sym_assert(g.GetDefaultValue() == v && g.GetOOBValue() == v, "the default is set"); }
      if (which == 3) continue; const uint8_t now = which == 0 ? g.GetDefaultValue() : v; for (auto& p : m) for (auto& q : p) for (auto& w : q) w = now; sym_assert(which == 1 || g.GetDefaultValue() == now, "the default is kept");
    } else {
      std::vector<uint8_t> raw(total + (sym_choice(2, "wrong size") ? 1 : 0)); for (auto& w : raw) w = sym_u8("raw"); bool threw = false; const bool whole = sym_choice(2, "replace"); try { if (whole) g.SetRawData(raw); else g.GetMutableRawData()[0] = v; } catch (const std::runtime_error&) { threw = true; } const bool bad = g_veto || (whole && raw.size() != static_cast<size_t>(total));
      sym_assert(threw == bad && g_raw == 1, "raw data of another size and vetoed access are refused"); if (!bad) { if (whole) for (int d = 0; d < total; d++) { const GridIndex i = g.DataIndexToGridIndex(d); m[i.X()][i.Y()][i.Z()] = raw[d]; } else { const GridIndex i = g.DataIndexToGridIndex(0); m[i.X()][i.Y()][i.Z()] = v; } }
    }
  }
  g_announced = g_raw = 0; const Grid& c = g; int ok = 1; for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++) for (int d = 0; d < nz; d++) { const auto q = c.GetIndexImmutable(a, b, d); sym_assert(q.HasValue() && q.Status() == AccessStatus::SUCCESS, "every voxel is readable"); ok &= q.Value() == m[a][b][d]; ok &= c.GetDataIndexImmutable(c.GridIndexToDataIndex(GridIndex(a, b, d))) == m[a][b][d]; } sym_assert(ok, "every voxel holds the value last written to it");
  const int64_t x = sym_i64("read x"), y = sym_i64("read y"), z = sym_i64("read z"); const bool in = (x >= 0) & (x < nx) & (y >= 0) & (y < ny) & (z >= 0) & (z < nz); const auto q = c.GetIndexImmutable(GridIndex(x, y, z)); sym_assert(q.Status() == (in ? AccessStatus::SUCCESS : AccessStatus::OUT_OF_BOUNDS) && q.HasValue() == in, "reading outside is reported"); sym_assert(g_announced == 0 && g_raw == 0, "reads are not announced");
  const auto copy = c.Clone(); g_veto = false; copy->SetIndex(0, 0, 0, static_cast<uint8_t>(m[0][0][0] + 1)); sym_assert(c.GetIndexImmutable(0, 0, 0).Value() == m[0][0][0] && copy->GetIndexImmutable(0, 0, 0).Value() == static_cast<uint8_t>(m[0][0][0] + 1), "a clone is independent"); sym_assert(c.GetTotalCells() == total && c.IsInitialized(), "the grid is initialised"); sym_observe(m[0][0][0]);
}
HARNESS(construct) {
  const double c[3] = {sym_double("cell x"), sym_double("cell y"), sym_double("cell z")}; const int64_t n[3] = {sym_i64("nx"), sym_i64("ny"), sym_i64("nz")}; int ok = 1; for (int i = 0; i < 3; i++) ok &= (c[i] > 0.0) & (c[i] < std::numeric_limits<double>::infinity()) & (n[i] > 0) & (n[i] < (1 << 20) ? 1 : n[i] <= 0);
  for (int i = 0; i < 3; i++) sym_assume(n[i] < (1 << 20)); bool threw = false; try { const GridSizes s(c[0], c[1], c[2], n[0], n[1], n[2]); sym_assert(s.Valid() && s.NumXCells() == n[0] && s.NumYCells() == n[1] && s.NumZCells() == n[2] && s.CellXSize() == c[0] && s.CellYSize() == c[1] && s.CellZSize() == c[2], "the parameters are kept"); sym_cover("valid"); } catch (const std::invalid_argument&) { threw = true; sym_cover("refused"); }
  int fine = 1; for (int i = 0; i < 3; i++) fine &= (c[i] > 0.0) & (c[i] < std::numeric_limits<double>::infinity()) & (n[i] > 0); sym_assert(threw == !fine, "exactly non-positive and non-finite parameters are refused");
  bool unset = false; try { const GridSizes s; VoxelGrid<int> g(s, 1, 2); } catch (const std::invalid_argument&) { unset = true; } sym_assert(unset, "a grid of unset sizes is refused"); VoxelGrid<int> e; const int64_t x = sym_i64("x"); sym_assert(!e.IsInitialized() && e.GetTotalCells() == 0 && e.SetIndex(x, 0, 0, 1) == AccessStatus::OUT_OF_BOUNDS && !e.GetIndexImmutable(x, 0, 0), "an unset grid has no voxels");
}
//@ job both h_mapping time=100 must=in
//@ job both h_history nx=2 ny=2 nz=3 time=100 must=written,vetoed,outside
//@ job both h_history steps=1 time=100 must=written,vetoed,outside
//@ job both h_construct time=100 must=valid,refused
//@ job thorough h_mapping extents=6 time=3000
//@ job thorough h_history time=3000
//@ job thorough h_history nx=2 ny=2 nz=3 steps=3 time=6000
