// C14: the graph linkage check accepts exactly the well-linked graphs.
//@ srcs:
//@ bound: every node list of 1, 2 or 3 nodes with 0..2 in and out edges per node (three nodes: 0..1; thorough: 0..2 for two of them) and all edge indices any 64-bit value; plain graphs and overlays
//@ outside: more nodes and edges; multiplicity of parallel edges (the check asks for at least one matching edge)
#include "graphs.h"
#include <array>
using Node = G::NodeType;
static const int kN = 3;
static void run(int n, int most) {
  std::array<std::vector<GraphEdge>, kN> in, out; G g;
  for (int i = 0; i < n; i++) {
    for (size_t k = sym_choice(most + 1, "in edges"); k > 0; k--) { const int64_t a = sym_i64("from"), b = sym_i64("to"); in[i].emplace_back(a, b, 1.0); }
    for (size_t k = sym_choice(most + 1, "out edges"); k > 0; k--) { const int64_t a = sym_i64("from"), b = sym_i64("to"); out[i].emplace_back(a, b, 1.0); }
    g.AddNode(Node(i, in[i], out[i]));
  }
  int good = 1;
  for (int i = 0; i < n; i++) {
    for (const GraphEdge& e : in[i]) {
      int match = 0; for (int j = 0; j < n; j++) for (const GraphEdge& f : out[j]) match |= (e.GetFromIndex() == j) & (f.GetToIndex() == i);
      good &= (e.GetToIndex() == i) & (e.GetFromIndex() >= 0) & (e.GetFromIndex() < n) & (e.GetFromIndex() != i) & match;
    }
    for (const GraphEdge& e : out[i]) {
      int match = 0; for (int j = 0; j < n; j++) for (const GraphEdge& f : in[j]) match |= (e.GetToIndex() == j) & (f.GetFromIndex() == i);
      good &= (e.GetFromIndex() == i) & (e.GetToIndex() >= 0) & (e.GetToIndex() < n) & (e.GetToIndex() != i) & match;
    }
  }
  const unsigned form = sym_choice(3, "form"); bool got;
  if (form == 0) got = g.CheckGraphLinkage();
  else if (form == 1) got = simple_graph::NonOwningGraphOverlay<int, G>(g).CheckGraphLinkage();
  else { got = true; try { const G h(g.GetNodesImmutable()); sym_assert(h.Size() == n, "a checked graph keeps its nodes"); } catch (const std::invalid_argument&) { got = false; } }
  sym_assert(got == (good != 0), "accepted exactly when every edge is valid and matched"); sym_observe(got);
  if (got) sym_cover("accepted"); else sym_cover("refused");
}
HARNESS(linkage) { run(sym_param("n", 2), sym_param("most", 2)); }
//@ job both h_linkage n=1 most=2 time=60 must=accepted,refused
//@ job both h_linkage n=2 most=2 time=100 must=accepted,refused
//@ job both h_linkage n=3 most=1 time=100 must=accepted,refused
//@ job thorough h_linkage n=3 most=2 time=3000
