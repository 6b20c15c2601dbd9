// C15: pruning a graph removes exactly the requested nodes.
//@ srcs:
//@ bound: every graph of 0..3 nodes with up to 3 one- or two-way edges and of 4 nodes with up to 2 (thorough 3), any weights and values, every subset of its nodes pruned, serial, and parallel with 1..3 requested threads and any granted number with up to 2 preemptions on smaller graphs; graphs and overlays
//@ outside: larger graphs; requests naming nodes that do not exist
#include "graphs.h"
using O = simple_graph::NonOwningGraphOverlay<int, G>;
static void build(G& g, std::vector<int>& values, std::vector<Edge>& edges, size_t n, size_t most) {
  for (size_t i = 0; i < n; i++) { const int v = sym_i32("value"); g.AddNode(v); values.push_back(v); }
  if (n < 2) return;
  for (size_t m = sym_choice(most + 1, "edges"); m > 0; m--) {
    const int64_t pair = sym_choice(n * (n - 1), "ends"), a = pair / (n - 1), r = pair % (n - 1), b = r + (r >= a); const double w = sym_double("weight");
    if (m == 1 && sym_bool("two way")) { g.AddEdgesBetweenNodes(a, b, w); edges.push_back({a, b, w}); edges.push_back({b, a, w}); } else { g.AddEdgeBetweenNodes(a, b, w); edges.push_back({a, b, w}); }
  }
}
static void run(bool par) {
  const size_t n = sym_param("n", -1) >= 0 ? sym_param("n", 0) : sym_choice(4, "nodes"); G g; std::vector<int> values; std::vector<Edge> edges; build(g, values, edges, n, sym_param("edges", 3));
  std::unordered_set<int64_t> prune; std::vector<int64_t> to(n, -1); std::vector<int> kept; std::vector<Edge> left; const uint64_t mask = sym_choice(1ull << n, "pruned");
  for (size_t i = 0; i < n; i++) if ((mask >> i) & 1) prune.insert(i); else { to[i] = kept.size(); kept.push_back(values[i]); }
  for (const Edge& e : edges) if (to[e.from] >= 0 && to[e.to] >= 0) left.push_back({to[e.from], to[e.to], e.w});
  const auto p = par ? parallelism::DegreeOfParallelism(1 + sym_choice(3, "threads")) : parallelism::DegreeOfParallelism::None();
  const unsigned form = sym_choice(par ? 1 : 3, "form"); G got;
  if (form == 0) got = g.MakePrunedCopy(prune, p);
  else if (form == 1) { const O o(g); got = simple_graph::PruneGraph<O, G>(o, prune, p); }
  else { G part; for (int64_t i = 0; i < g.Size(); i++) part.AddNode(g.GetNodeImmutable(i)); O o(part); if (n > 0) o.GetNodeMutable(n - 1).GetValueMutable() = values[n - 1]; got = simple_graph::PruneGraph<O, G>(o, prune, p); }
  matches(got, kept, left, "exactly the nodes and edges not touching a pruned node remain, renumbered in order");
  sym_assert(got.CheckGraphLinkage(), "the pruned graph is well linked"); matches(g, values, edges, "the input graph is unchanged");
  sym_observe(left.size()); if (left.size() && mask) sym_cover("kept"); if (left.size() < edges.size()) sym_cover("dropped");
}
HARNESS(serial) { run(false); }
HARNESS(parallel) { run(true); }
//@ job both h_serial edges=3 time=100 must=kept,dropped
//@ job both h_serial n=4 edges=2 time=100 must=kept,dropped
//@ job both h_parallel n=3 edges=1 preempt=2 time=100 must=kept,dropped
//@ job thorough h_serial n=4 edges=3 time=3000
//@ job thorough h_parallel n=3 edges=2 preempt=3 time=3000
