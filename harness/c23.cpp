// C23: grid locations and indices convert consistently.
//@ srcs:
//@ bound: cell sizes 1/4..2 (powers of two, different per axis), 1..3 cells per axis (index formulas: any index below 2^20), every origin translation k/4 with |k| <= 64 and axis-aligned rotations, every location k/8 with |k| <= 1024 per axis; any double along one axis for an unrotated grid; sizes k/8, k = 1..64, for construction from sizes
//@ outside: cell sizes and origins whose arithmetic rounds; rotations that are not axis-aligned
#include <sym.h>
#include <cmath>
#include <stdexcept>
#include <common_robotics_utilities/voxel_grid.hpp>
using namespace common_robotics_utilities::voxel_grid;
using Grid = VoxelGrid<int>; using Eigen::Vector3d; using Eigen::Vector4d;
// axis permutation and signs: row i of R has sign s[i] in column c[i]; det = 1
static const struct { int c[3]; double s[3]; } kRot[] = {{{0, 1, 2}, {1, 1, 1}}, {{1, 0, 2}, {-1, 1, 1}}, {{1, 2, 0}, {1, 1, 1}}, {{2, 1, 0}, {-1, 1, 1}}, {{0, 1, 2}, {-1, -1, 1}}, {{0, 2, 1}, {1, -1, 1}}, {{2, 0, 1}, {-1, -1, 1}}};
static const double kCell[] = {0.25, 0.5, 1.0, 2.0};
struct Setup { int rot; double t[3], cell[3]; int64_t n[3]; };
static Eigen::Isometry3d origin(const Setup& s) { Eigen::Matrix4d m = Eigen::Matrix4d::Zero(); for (int i = 0; i < 3; i++) { m(i, kRot[s.rot].c[i]) = kRot[s.rot].s[i]; m(i, 3) = s.t[i]; } m(3, 3) = 1.0; Eigen::Isometry3d o; o.matrix() = m; return o; }
static void setup(Setup& s) { s.rot = sym_choice(7, "rotation"); const int cells = sym_choice(3, "cells"); for (int i = 0; i < 3; i++) { s.t[i] = sym_double_grid(-64, 64, 2, "origin"); s.cell[i] = kCell[(cells + i) % 4]; s.n[i] = 1 + (i + cells) % 3; } }
static Grid make(const Setup& s) { if (sym_param("update", 0)) { Grid g(GridSizes(s.cell[0], s.cell[1], s.cell[2], s.n[0], s.n[1], s.n[2]), 0); g.UpdateOriginTransform(origin(s)); return g; } return Grid(origin(s), GridSizes(s.cell[0], s.cell[1], s.cell[2], s.n[0], s.n[1], s.n[2]), 0); }
static int is(const GridIndex& i, const int64_t (&e)[3]) { return (i.X() == e[0]) & (i.Y() == e[1]) & (i.Z() == e[2]); }
HARNESS(location) {   // a location to its index
  Setup s; setup(s); Grid g = make(s); double p[3], q[3]; int64_t e[3]; for (int i = 0; i < 3; i++) p[i] = sym_double_grid(-1024, 1024, 3, "location");
  for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) if (kRot[s.rot].c[i] == j) q[j] = kRot[s.rot].s[i] * (p[i] - s.t[i]);   // inverse of the origin by definition
  int in = 1; for (int i = 0; i < 3; i++) { e[i] = static_cast<int64_t>(std::floor(q[i] / s.cell[i])); in &= (q[i] >= 0.0) & (q[i] < s.n[i] * s.cell[i]); }
  const int form = sym_choice(3, "form"); const Vector3d v3(p[0], p[1], p[2]); const Vector4d v4(p[0], p[1], p[2], 1.0);
  const GridIndex i = form == 0 ? g.LocationToGridIndex(p[0], p[1], p[2]) : form == 1 ? g.LocationToGridIndex3d(v3) : g.LocationToGridIndex4d(v4); sym_assert(is(i, e), "a location maps to the cell whose box contains it");
  const GridIndex f = form == 0 ? g.LocationInGridFrameToGridIndex(q[0], q[1], q[2]) : form == 1 ? g.LocationInGridFrameToGridIndex3d(Vector3d(q[0], q[1], q[2])) : g.LocationInGridFrameToGridIndex4d(Vector4d(q[0], q[1], q[2], 1.0)); sym_assert(is(f, e), "a grid frame location maps to the cell whose box contains it");
  const bool b = form == 0 ? g.LocationInBounds(p[0], p[1], p[2]) : form == 1 ? g.LocationInBounds3d(v3) : g.LocationInBounds4d(v4); sym_assert(b == (in != 0), "exactly the locations in the grid's box are in bounds"); sym_cover(in ? "in" : "out");
  const bool tmp = sym_choice(2, "temporary"); const auto seven = static_cast<std::decay_t<decltype(g.GetDefaultValue())>>(7); const AccessStatus st = tmp ? (form == 0 ? g.SetLocation(p[0], p[1], p[2], 7) : form == 1 ? g.SetLocation3d(v3, 7) : g.SetLocation4d(v4, 7)) : (form == 0 ? g.SetLocation(p[0], p[1], p[2], seven) : form == 1 ? g.SetLocation3d(v3, seven) : g.SetLocation4d(v4, seven)); sym_assert(st == (in ? AccessStatus::SUCCESS : AccessStatus::OUT_OF_BOUNDS), "a location outside is reported");
  int ok = 1; for (int64_t x = 0; x < s.n[0]; x++) for (int64_t y = 0; y < s.n[1]; y++) for (int64_t z = 0; z < s.n[2]; z++) ok &= (g.GetIndexImmutable(x, y, z).Value() == 7) == ((e[0] == x) & (e[1] == y) & (e[2] == z)); sym_assert(ok, "the voxel at the location is set and no other"); const Grid& c = g;
  const auto r = form == 0 ? c.GetLocationImmutable(p[0], p[1], p[2]) : form == 1 ? c.GetLocationImmutable3d(v3) : c.GetLocationImmutable4d(v4); sym_assert(r.HasValue() == (in != 0) && (!r || r.Value() == 7), "the location reads its voxel"); auto m = form == 0 ? g.GetLocationMutable(p[0], p[1], p[2]) : form == 1 ? g.GetLocationMutable3d(v3) : g.GetLocationMutable4d(v4); sym_assert(m.HasValue() == (in != 0) && (!m || &m.Value() == &r.Value()), "the location gives access to its voxel");
}
HARNESS(index) {   // an index to its cell's centre and back
  Setup s; setup(s); const Grid g = make(s); int64_t e[3]; double q[3], p[3]; for (int i = 0; i < 3; i++) { e[i] = sym_range(-(1 << 10), 1 << 20, "index"); q[i] = (static_cast<double>(e[i]) + 0.5) * s.cell[i]; }
  for (int i = 0; i < 3; i++) p[i] = kRot[s.rot].s[i] * q[kRot[s.rot].c[i]] + s.t[i]; const bool by = sym_choice(2, "by index"); const GridIndex gi(e[0], e[1], e[2]);
  const Vector4d f = by ? g.GridIndexToLocationInGridFrame(gi) : g.GridIndexToLocationInGridFrame(e[0], e[1], e[2]), w = by ? g.GridIndexToLocation(gi) : g.GridIndexToLocation(e[0], e[1], e[2]); int ok = (f(3) == 1.0) & (w(3) == 1.0); for (int i = 0; i < 3; i++) ok &= (f(i) == q[i]) & (w(i) == p[i]); sym_assert(ok, "cells are consecutive and evenly spaced from the origin");
  sym_assert(is(g.LocationToGridIndex4d(w), e) & is(g.LocationToGridIndex3d(w.head<3>()), e) & is(g.LocationInGridFrameToGridIndex4d(f), e), "the location of a cell, mapped back, gives its index"); sym_cover("back");
}
HARNESS(any) {   // any double along one axis
  const Grid g(Eigen::Isometry3d::Identity(), GridSizes(0.5, int64_t(3), int64_t(3), int64_t(3)), 0); const double x = sym_double("x"); const int axis = sym_choice(3, "axis"); Vector3d p(0.75, 0.75, 0.75); p(axis) = x; const GridIndex i = g.LocationInGridFrameToGridIndex3d(p); int64_t e[3] = {1, 1, 1};
  const int in = (x >= 0.0) & (x < 1.5); sym_assert(g.IndexInBounds(i) == (in != 0), "a location outside maps to no in-bounds index"); if (in) { e[axis] = (x >= 0.5) + (x >= 1.0); sym_assert(is(i, e), "a location maps to the cell whose box contains it"); sym_cover("in"); } else sym_cover("out");
}
HARNESS(sizes) {
  double c[3], z[3]; for (int i = 0; i < 3; i++) { c[i] = kCell[sym_choice(4, "cell")]; z[i] = sym_double_grid(1, 64, 3, "size"); } const GridSizes s(c[0], c[1], c[2], z[0], z[1], z[2]); const int64_t n[3] = {s.NumXCells(), s.NumYCells(), s.NumZCells()}; const double t[3] = {s.XSize(), s.YSize(), s.ZSize()}, cs[3] = {s.CellXSize(), s.CellYSize(), s.CellZSize()}; int ok = s.Valid();
  for (int i = 0; i < 3; i++) ok &= (n[i] * c[i] >= z[i]) & ((n[i] - 1) * c[i] < z[i]) & (t[i] == n[i] * c[i]) & (cs[i] == c[i]); sym_assert(ok, "as few cells as cover the requested size"); const bool uniform = c[0] == c[1] && c[1] == c[2]; sym_assert(s.UniformCellSize() == uniform, "uniform when all cell sizes agree");
  if (uniform) { const GridSizes u(c[0], z[0], z[1], z[2]); sym_assert(u == s && !(u != s), "one cell size for all axes"); }
}
HARNESS(centred) {
  Setup s; setup(s); const Grid g(GridSizes(s.cell[0], s.cell[1], s.cell[2], s.n[0], s.n[1], s.n[2]), 0); const Vector4d lo = g.GridIndexToLocation(0, 0, 0), hi = g.GridIndexToLocation(s.n[0] - 1, s.n[1] - 1, s.n[2] - 1); for (int i = 0; i < 3; i++) sym_assert(lo(i) == -hi(i) && hi(i) - lo(i) == (s.n[i] - 1) * s.cell[i], "without an origin the grid is centred");
  const double w = sym_double("w"); bool threw = false; try { g.LocationInGridFrameToGridIndex4d(Vector4d(0, 0, 0, w)); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == !(w == 1.0), "exactly improper homogeneous locations are refused");
}
//@ job both h_location time=100 must=in,out
//@ job both h_location update=1 time=100 must=in,out
//@ job both h_index time=100 must=back
//@ job both h_any time=100 must=in,out
//@ job both h_sizes time=100
//@ job both h_centred time=60
