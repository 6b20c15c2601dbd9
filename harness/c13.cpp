// C13: an overlay behaves like a private copy of its base.
//@ srcs:
//@ bound: base graphs of 0..2 nodes with up to one (thorough two) edges in one or both directions, every sequence of 2 (thorough 3) edits (add node, add edge, two-way edge, overwrite a value, change a weight) with any 64-bit index, overlays of graphs and of overlays, non-owning and owning
//@ outside: larger bases and longer sequences; the base being edited while overlaid
#include "graphs.h"
using O = simple_graph::NonOwningGraphOverlay<int, G>; using OO = simple_graph::NonOwningGraphOverlay<int, O>;
template <class Over, class Base> static void edits(Over& o, std::vector<int> values, std::vector<Edge> edges, const Base& base) {
  const std::vector<int> v0 = values; const std::vector<Edge> e0 = edges;
  matches(o, values, edges, "an unedited overlay reads like its base");
  for (int64_t i = 0; i < sym_param("edits", 3); i++) {
    const unsigned kind = sym_choice(3, "kind of edit");
    if (kind == 0) edit(o, values, edges);
    else if (kind == 1) {
      const int64_t x = sym_i64("index"); const int v = sym_i32("new value"); bool threw = false; const int64_t n = values.size();
      const bool in = x >= 0 && x < n; int64_t at = 0; if (in) at = sym_concretize(x);
      try { o.GetNodeMutable(in ? at : x).GetValueMutable() = v; } catch (const std::exception&) { threw = true; }
      sym_assert(threw == !in, "mutable access outside the graph throws"); if (in) { values[at] = v; sym_cover("overwritten"); }
      bool t2 = false; try { o.GetNodeImmutable(in ? at : x); } catch (const std::exception&) { t2 = true; } sym_assert(t2 == !in, "reading outside the graph throws");
    } else if (!edges.empty()) {
      const size_t k = sym_choice(edges.size(), "edge"); const double w = sym_double("new weight"); size_t in = 0, out = 0;
      for (size_t j = 0; j < k; j++) { out += edges[j].from == edges[k].from; in += edges[j].to == edges[k].to; }
      o.GetNodeMutable(edges[k].from).GetOutEdgesMutable()[out].SetWeight(w); o.GetNodeMutable(edges[k].to).GetInEdgesMutable()[in].SetWeight(w); edges[k].w = w; sym_cover("reweighted");
    }
    matches(o, values, edges, "the overlay reads like an edited copy"); matches(base, v0, e0, "the base is unchanged");
  }
  sym_assert(o.CheckGraphLinkage(), "the overlay stays well linked"); const int64_t q = sym_i64("query"); sym_assert(o.IndexInRange(q) == (q >= 0 && q < o.Size()), "index range"); sym_observe(edges.size());
}
static void make(G& g, std::vector<int>& values, std::vector<Edge>& edges) {
  const size_t n = sym_choice(3, "nodes"); for (size_t i = 0; i < n; i++) { const int v = sym_i32("base value"); g.AddNode(v); values.push_back(v); }
  if (n == 2) for (size_t m = sym_choice(1 + sym_param("base_edges", 1), "base edges"); m > 0; m--) {
    const size_t a = sym_choice(2, "from"); const double w = sym_double("base weight"); g.AddEdgeBetweenNodes(a, 1 - a, w); edges.push_back({static_cast<int64_t>(a), static_cast<int64_t>(1 - a), w}); }
}
HARNESS(overlay) { G g; std::vector<int> v; std::vector<Edge> e; make(g, v, e); O o(g); edits(o, v, e, g); }
HARNESS(nested) { G g; std::vector<int> v; std::vector<Edge> e; make(g, v, e); O o(g); std::vector<int> w = v; std::vector<Edge> f = e; edit(o, w, f); OO oo(o); edits(oo, w, f, o); matches(g, v, e, "the innermost base is unchanged"); }
HARNESS(copies) {   // copies of an overlay are independent of each other
  G g; std::vector<int> v; std::vector<Edge> e; make(g, v, e); O a(g); std::vector<int> va = v; std::vector<Edge> ea = e; edit(a, va, ea);
  O b = a; std::vector<int> vb = va; std::vector<Edge> eb = ea; edit(b, vb, eb); matches(a, va, ea, "editing a copy leaves the original alone"); edit(a, va, ea); matches(b, vb, eb, "editing the original leaves the copy alone"); matches(g, v, e, "the base is unchanged"); sym_observe(1);
}
HARNESS(owning) {
  auto g = std::make_shared<G>(); std::vector<int> v; std::vector<Edge> e; make(*g, v, e); const G base = *g; simple_graph::OwningGraphOverlay<int, G> o(g); g.reset(); edits(o, v, e, base);
  bool threw = false; try { simple_graph::OwningGraphOverlay<int, G> bad(nullptr); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "a null base is refused");
}
HARNESS(linkage) {   // one list entry of one node is damaged through the overlay and in a copy
  G g; std::vector<int> v; std::vector<Edge> e; make(g, v, e); O o(g); if (sym_choice(2, "grow")) { edit(o, v, e); } G c; for (int x : v) c.AddNode(x); for (const Edge& d : e) c.AddEdgeBetweenNodes(d.from, d.to, d.w);
  if (e.empty()) return; const int64_t i = sym_choice(v.size(), "node"); const bool out = sym_choice(2, "out"); const unsigned how = sym_choice(3, "damage"); const int64_t x = sym_i64("index");
  const auto damage = [&](std::vector<GraphEdge>& l) { if (l.empty()) return; if (how == 0) l.pop_back(); else if (how == 1) l[0].SetFromIndex(x); else l[0].SetToIndex(x); };
  damage(out ? o.GetNodeMutable(i).GetOutEdgesMutable() : o.GetNodeMutable(i).GetInEdgesMutable()); damage(out ? c.GetNodeMutable(i).GetOutEdgesMutable() : c.GetNodeMutable(i).GetInEdgesMutable());
  const bool linked = o.CheckGraphLinkage(); sym_assert(linked == c.CheckGraphLinkage(), "the overlay's linkage is that of the edited copy"); sym_assert(g.CheckGraphLinkage(), "the base is unchanged"); if (linked) sym_cover("linked"); else sym_cover("broken");
}
//@ job both h_overlay edits=2 base_edges=2 time=100 must=added,refused,overwritten,reweighted
//@ job both h_nested edits=1 time=100 must=added,overwritten
//@ job both h_copies time=100 must=added
//@ job both h_owning edits=2 time=100 must=added,overwritten
//@ job thorough h_nested edits=2 time=3000
//@ job thorough h_overlay edits=3 base_edges=2 time=3000
//@ job both h_linkage time=100 must=linked,broken
