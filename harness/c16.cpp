// C16: Dijkstra distances and predecessors are right.
//@ srcs:
//@ bound: every digraph (each ordered pair joined or not) of 1..3 nodes and every 4-node digraph with 4 (thorough 4 to 7) edges, optionally one doubled edge, every weight k/4 with k = 0..63 independently, infinite weights, every start index; graphs and overlays
//@ outside: larger graphs; NaN and negative weights; weights whose sums round
#include "search.h"
#include <stdexcept>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
using namespace common_robotics_utilities;
using G = simple_graph::Graph<int>; using O = simple_graph::NonOwningGraphOverlay<int, G>;
static void check(const Weights& w, const simple_graph_search::DijkstrasResult& r, int start) {
  sym_assert(r.Size() == w.n, "one entry per node"); int ok = 1;
  for (int i = 0; i < w.n; i++) ok &= r.GetNodeDistance(i) == w.d[i][start];
  sym_assert(ok, "the distance is the length of a shortest path to the start");
  sym_assert(r.GetPreviousIndex(start) == start, "the start is its own predecessor");
  for (int i = 0; i < w.n; i++) {
    if (w.d[i][start] == kInf) { sym_assert(r.GetPreviousIndex(i) == -1, "an unreachable node has no predecessor"); sym_cover("unreachable"); continue; }
    int at = i; double sum = 0; int steps = 0;
    while (at != start && steps++ < w.n) { const int64_t p = r.GetPreviousIndex(at); sym_assert(p >= 0 && p < w.n && w.has[at][p], "the predecessor is a neighbour"); sum += w.w[at][p]; at = static_cast<int>(p); }
    sym_assert(at == start, "following the predecessors reaches the start"); sym_assert(sum == r.GetNodeDistance(i), "along a path of the reported length");
    if (steps > 1) sym_cover("longer");
  }
}
static void run(int n, uint64_t topology) {
  Weights w; weights(w, n, topology, sym_param("k", 63)); G g; for (int i = 0; i < n; i++) g.AddNode(i);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (w.has[i][j]) g.AddEdgeBetweenNodes(i, j, w.w[i][j]);
  if (sym_param("extra", 0)) {   // a doubled edge and an infinite one
    for (int i = 0; i < n * n; i++) if (w.has[i / n][i % n]) { const double second = sym_double_grid(0, 63, 2, "second weight"); g.AddEdgeBetweenNodes(i / n, i % n, second); w.w[i / n][i % n] = low(w.w[i / n][i % n], second); break; }
    for (int i = 0; i < n * n; i++) if (i / n != i % n && !w.has[i / n][i % n]) g.AddEdgeBetweenNodes(i / n, i % n, kInf);
  }
  shortest(w); const int start = sym_choice(n, "start");
  if (sym_param("overlay", 0)) { const O o(g); check(w, simple_graph_search::PerformDijkstrasAlgorithm(o, start), start); }
  else check(w, simple_graph_search::PerformDijkstrasAlgorithm(g, start), start);
  sym_cover("checked");
}
HARNESS(small) { const int n = 1 + sym_choice(3, "nodes"); const uint64_t t = sym_choice(1ull << (n * (n - 1)), "topology"); run(n, t); }
HARNESS(four) { const uint64_t t = sym_choice(1ull << 12, "topology"); const int e = __builtin_popcountll(t); if (e < sym_param("least", 4) || e > sym_param("most", 5)) return; run(4, t); }
HARNESS(index) { G g; const int n = sym_choice(3, "nodes"); for (int i = 0; i < n; i++) g.AddNode(i); const int64_t s = sym_i64("start"); bool threw = false; try { simple_graph_search::PerformDijkstrasAlgorithm(g, s); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (s < 0 || s >= n), "exactly the starts outside the graph are refused"); }
//@ job both h_small time=100 must=checked,unreachable,longer
//@ job both h_small extra=1 overlay=1 time=100 must=checked
//@ job quick h_four least=4 most=4 k=15 time=100 must=checked
//@ job both h_index time=20
//@ job thorough h_four least=4 most=7 time=6000
