// shared by the graph checks: a reference model kept as a plain list of edges
#pragma once
#include <sym.h>
#include <stdexcept>
#include <unordered_set>
#include <vector>
#include <common_robotics_utilities/simple_graph.hpp>
using namespace common_robotics_utilities;
using simple_graph::GraphEdge;
using G = simple_graph::Graph<int>;
struct Edge { int64_t from, to; double w; };
static inline uint64_t bits(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
static inline int same(const GraphEdge& e, int64_t f, int64_t t, double w) { return (e.GetFromIndex() == f) & (e.GetToIndex() == t) & (bits(e.GetWeight()) == bits(w)) & (e.GetScratchpad() == 0); }
// every list holds exactly the model's edges, in the order of their addition
template <class Graph> static void matches(const Graph& g, const std::vector<int>& values, const std::vector<Edge>& edges, const char* what) {
  sym_assert(g.Size() == static_cast<int64_t>(values.size()), what);
  for (int64_t i = 0; i < g.Size(); i++) {
    const auto& n = g.GetNodeImmutable(i); size_t in = 0, out = 0; int ok = n.GetValueImmutable() == values[i];
    for (const Edge& e : edges) {
      if (e.from == i) { sym_assert(out < n.GetOutEdgesImmutable().size(), what); ok &= same(n.GetOutEdgesImmutable()[out++], e.from, e.to, e.w); }
      if (e.to == i) { sym_assert(in < n.GetInEdgesImmutable().size(), what); ok &= same(n.GetInEdgesImmutable()[in++], e.from, e.to, e.w); }
    }
    sym_assert(ok, what); sym_assert(in == n.GetInEdgesImmutable().size() && out == n.GetOutEdgesImmutable().size(), what);
  }
}
// one edit applied to g and to the model; the answer says whether g refused it
template <class Graph> static bool edit(Graph& g, std::vector<int>& values, std::vector<Edge>& edges) {
  const int64_t n = values.size(); const unsigned op = sym_choice(3, "operation");
  if (op == 0) {
    const int v = sym_i32("value"); int64_t got; const bool node = sym_bool("as node");
    if (node) got = g.AddNode(typename Graph::NodeType(v)); else got = g.AddNode(v);
    sym_assert(got == n, "a new node gets the next index"); values.push_back(v); return false;
  }
  int64_t a = 0, b = 0; const unsigned bad = n == 0 ? 1 : sym_choice(3, "bad index");
  if (bad) { const int64_t x = sym_i64("out of range"); sym_assume((x < 0) | (x >= n)); (bad == 1 ? a : b) = x; }
  else { a = sym_choice(n, "first"); b = sym_choice(n, "second"); }
  const double w = sym_double("weight"); bool threw = false;
  try { if (op == 1) g.AddEdgeBetweenNodes(a, b, w); else g.AddEdgesBetweenNodes(a, b, w); } catch (const std::logic_error&) { threw = true; }
  const bool refuse = bad || a == b;
  sym_assert(threw == refuse, "exactly the edges with a bad index and self-edges are refused");
  if (!refuse) { edges.push_back({a, b, w}); if (op == 2) edges.push_back({b, a, w}); sym_cover("added"); } else sym_cover("refused");
  return refuse;
}
