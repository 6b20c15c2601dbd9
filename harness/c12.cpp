// C12: graph edits keep the edge lists of both ends consistent.
//@ srcs:
//@ bound: every sequence of 5 (thorough 6) edits (add node, add one-way edge, add two-way edge; any 64-bit index, any weight bit pattern) starting from an empty graph, or of 3 (thorough 4) edits starting from two or three nodes
//@ outside: longer sequences; edits through the mutable accessors
#include "graphs.h"
HARNESS(edits) {
  G g; std::vector<int> values; std::vector<Edge> edges; const int64_t start = sym_param("start", 0);
  for (int64_t i = 0; i < start; i++) { const int v = sym_i32("value"); g.AddNode(v); values.push_back(v); }
  for (int64_t i = 0; i < sym_param("edits", 5); i++) { edit(g, values, edges); matches(g, values, edges, "both ends list exactly the edges added, with their weights"); }
  sym_assert(g.CheckGraphLinkage(), "the graph stays well linked");
  for (int64_t i = 0; i < 3; i++) { const int64_t x = sym_i64("query"); sym_assert(g.IndexInRange(x) == (x >= 0 && x < g.Size()), "index range"); }
  sym_observe(edges.size());
}
//@ job both h_edits edits=5 time=100 must=added,refused
//@ job both h_edits start=2 edits=3 time=100 must=added,refused
//@ job both h_edits start=3 edits=2 time=100 must=added,refused
//@ job thorough h_edits edits=6 time=3000
//@ job thorough h_edits start=3 edits=4 time=3000
