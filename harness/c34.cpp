// C34: the linkage check accepts exactly the well-linked trees, and trees that are built stay well linked.
//@ srcs:
//@ bound: node lists of 0..3 nodes (thorough 4) with any 64-bit parent and up to 2 children per node, each any 64-bit value; SetNodes and the constructor on the same lists; trees built by up to 4 AddNode / AddNodeAndConnect calls with any 64-bit parent; child lists edited by up to 3 AddChildIndex / RemoveChildIndex calls with any 64-bit index
//@ outside: larger lists
#include <sym.h>
#include <stdexcept>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
using namespace common_robotics_utilities::simple_rrt_planner;
using Tree = SimpleRRTPlannerTree<int>; using Node = SimpleRRTPlannerState<int>; using Nodes = SimpleRRTPlannerStateVector<int>;
static const int kMax = 4; static const int kKids = 2;
struct Shape { int n = 0, kids[kMax] = {}; int64_t parent[kMax] = {}, kid[kMax][kKids] = {}; };
// the definition, without branches
static int linked(const Shape& s) {
  int ok = 1;
  for (int i = 0; i < s.n; i++) {
    const int64_t p = s.parent[i]; int named = 0;
    for (int j = 0; j < i; j++) for (int k = 0; k < s.kids[j]; k++) named |= (p == j) & (s.kid[j][k] == i);
    ok &= (p < 0) | ((p < i) & named);
    for (int k = 0; k < s.kids[i]; k++) { const int64_t c = s.kid[i][k]; int back = 0; for (int j = i + 1; j < s.n; j++) back |= (c == j) & (s.parent[j] == i); ok &= back; }
  }
  return ok;
}
static Shape shape(int n) { Shape s; s.n = n; const int kids = sym_param("kids", kKids); for (int i = 0; i < n; i++) { s.parent[i] = sym_i64("parent"); s.kids[i] = sym_choice(kids + 1, "children"); for (int k = 0; k < s.kids[i]; k++) s.kid[i][k] = sym_i64("child"); } return s; }
static Nodes nodes(const Shape& s) { Nodes r; for (int i = 0; i < s.n; i++) r.push_back(Node(100 + i, s.parent[i], std::vector<int64_t>(s.kid[i], s.kid[i] + s.kids[i]))); return r; }
HARNESS(check) { const int least = sym_param("least", 0), most = sym_param("nodes", 3); const int n = least + sym_choice(most - least + 1, "nodes"); const Shape s = shape(n); const Nodes v = nodes(s); const bool ok = Tree::CheckNodeLinkage(v); sym_assert(ok == (linked(s) == 1), "accepts exactly the well-linked lists"); if (ok) sym_cover("linked"); else sym_cover("broken"); }
HARNESS(set) {
  const int n = 1 + sym_choice(2, "nodes"); const Shape s = shape(n); const Nodes v = nodes(s); const int good = linked(s); Tree t; t.AddNode(7); t.AddNodeAndConnect(8, 0); const bool ok = t.SetNodes(v); sym_assert(ok == (good == 1), "only well-linked lists are taken over");
  if (ok) { sym_assert(t.Size() == n, "all nodes are taken over"); for (int i = 0; i < n; i++) sym_assert(t.GetNodeImmutable(i).GetValueImmutable() == 100 + i && t.GetNodeImmutable(i).GetParentIndex() == s.parent[i] && t.GetNodeImmutable(i).GetChildIndices() == v[i].GetChildIndices(), "as given"); sym_cover("taken"); }
  else { sym_assert(t.Size() == 2 && t.GetNodeImmutable(0).GetValueImmutable() == 7 && t.GetNodeImmutable(1).GetValueImmutable() == 8 && Tree::CheckNodeLinkage(t.GetNodesImmutable()), "refused lists change nothing"); sym_cover("refused"); }
  bool threw = false; try { const Tree u(v); sym_assert(u.Size() == n && !u.Empty(), "constructed with all nodes"); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw == (good == 0), "construction refuses exactly the badly linked lists");
}
HARNESS(build) {
  Tree t; Shape s; const int steps = sym_param("steps", 4);
  for (int k = 0; k < steps; k++) {
    const int root = sym_choice(2, "root"); int64_t at = -1; bool threw = false; int64_t p = -1;
    if (root) at = t.AddNode(k); else { p = sym_i64("parent"); try { at = t.AddNodeAndConnect(k, p); } catch (const std::out_of_range&) { threw = true; } }
    sym_assert(threw == (!root && (p < 0 || p >= s.n)), "exactly the parents that do not exist are refused"); if (threw) sym_cover("refused");
    if (!threw) { sym_assert(at == s.n, "the new index"); s.parent[s.n] = p; s.n++; if (!root) sym_cover("connected"); }
    sym_assert(t.Size() == s.n && t.Empty() == (s.n == 0), "one node more for every success"); if (t.Size() != s.n) return; sym_assert(Tree::CheckNodeLinkage(t.GetNodesImmutable()), "stays well linked");
    for (int i = 0; i < s.n; i++) { const Node& x = t.GetNodeImmutable(i); sym_assert(x.GetParentIndex() == s.parent[i], "linked to the named parent"); size_t kids = 0; for (int j = i + 1; j < s.n; j++) if (s.parent[j] == i) { sym_assert(kids < x.GetChildIndices().size() && x.GetChildIndices()[kids] == j, "children in order"); kids++; } sym_assert(kids == x.GetChildIndices().size(), "no other children"); }
  }
  t.Clear(); sym_assert(t.Empty() && t.Size() == 0, "cleared");
}
HARNESS(children) {
  Node x(5); std::vector<int64_t> expect; const int steps = sym_param("steps", 3); sym_assert(x.GetParentIndex() == -1 && x.GetChildIndices().empty() && x.GetValueImmutable() == 5, "a fresh node is a root without children");
  for (int k = 0; k < steps; k++) { const int op = sym_choice(2, "operation"); const int64_t v = sym_i64("index"); std::vector<int64_t> e; bool has = false; for (int64_t y : expect) { if (y == v) has = true; if (op == 0 || y != v) e.push_back(y); } if (op == 0) { if (!has) e.push_back(v); x.AddChildIndex(v); if (has) sym_cover("again"); } else { x.RemoveChildIndex(v); if (has) sym_cover("removed"); } expect = e; sym_assert(x.GetChildIndices() == expect, "a set in insertion order"); }
  const int64_t p = sym_i64("parent"); x.SetParentIndex(p); sym_assert(x.GetParentIndex() == p && x.GetValueImmutable() == 5, "parent as set"); x.ClearChildIndicies(); sym_assert(x.GetChildIndices().empty(), "cleared");
}
//@ job both h_check nodes=2 time=100 must=linked,broken
//@ job both h_check least=3 kids=1 time=120 must=linked,broken
//@ job both h_set time=100 must=taken,refused
//@ job both h_build load_ite=1 store_ite=1 time=60 must=refused,connected
//@ job both h_children time=60 must=again,removed
//@ job thorough h_check least=3 time=1200 must=linked,broken
//@ job thorough h_check least=4 nodes=4 kids=1 time=2400 must=linked,broken
