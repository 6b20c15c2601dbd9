// C27: collection helpers compute what they say.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs:
//@ bound: collections of 0..2 elements each with any 8-bit values and of 3 elements with values 0..2, of 4 with values 0..1 (thorough up to 4 with any values), maps built from 0..3 pairs with any keys and values; up to 2 strings of up to 3 letters over {a,b} and substrings of up to 2 letters
//@ outside: larger collections, other element types
#include <sym.h>
#include <list>
#include <set>
#include <stdexcept>
#include <unordered_map>
#include <common_robotics_utilities/utility.hpp>
using namespace common_robotics_utilities::utility;
using V = std::vector<uint8_t>;
static V draw(int n) { V v; v.reserve(static_cast<size_t>(n)); for (int i = 0; i < n; i++) { const uint8_t x = static_cast<uint8_t>(sym_range(0, sym_param("top", 255), "element")); v.push_back(x); } return v; }
static int count(const V& v, uint8_t x) { int c = 0; for (const uint8_t e : v) c += e == x; return c; }
HARNESS(subset) {
  const int n = sym_param("size", 3); const int na = sym_choice(n + 1, "set size"), nb = sym_choice(n + 1, "subset size"); const V a = draw(na), b = draw(nb); int sub = 1, eq = na == nb; for (const uint8_t x : b) sub &= count(b, x) <= count(a, x); for (const uint8_t x : a) eq &= count(a, x) == count(b, x);
  const int which = sym_param("which", 0); if (which == 0) sym_assert(IsSubset<uint8_t>(a, b) == (sub != 0), "subset with multiplicity"); if (which == 1) sym_assert(CollectionsEqual<uint8_t>(a, b) == (eq != 0), "equality with multiplicity whatever the order"); if (which == 2) { const std::list<uint8_t> l(a.begin(), a.end()); sym_assert((IsSubset<uint8_t, std::list<uint8_t>, V>(l, b)) == (sub != 0) && (CollectionsEqual<uint8_t, V, std::list<uint8_t>>(b, l)) == (eq != 0), "the same for other containers"); } if (sub) sym_cover("subset"); else sym_cover("no-subset"); if (eq) sym_cover("equal");
}
using P = std::vector<std::pair<uint8_t, uint16_t>>;
HARNESS(maps) {
  const int n = sym_choice(sym_param("size", 3) + 1, "pairs"); const V keys = draw(n); P pairs; std::vector<uint16_t> values; for (int i = 0; i < n; i++) { const uint16_t v = sym_u16("value"); values.push_back(v); pairs.emplace_back(keys[static_cast<size_t>(i)], v); }
  std::map<uint8_t, uint16_t> m; if (sym_choice(2, "from")) m = MakeFromKeysAndValues<uint8_t, uint16_t>(keys, values); else m = MakeFromKeysAndValues<uint8_t, uint16_t>(pairs);
  const uint8_t q = sym_u8("query"); const uint16_t def = sym_u16("default"); uint16_t want = def; for (int i = 0; i < n; i++) { const uint16_t mask = static_cast<uint16_t>(-(keys[static_cast<size_t>(i)] == q)); want = static_cast<uint16_t>((want & ~mask) | (values[static_cast<size_t>(i)] & mask)); } sym_assert(RetrieveOrDefault<uint8_t, uint16_t>(m, q, def) == want, "look-ups give the last value stored or the default");
  const V k = GetKeysFromMapLike<uint8_t, uint16_t>(m); const P kv = GetKeysAndValues<uint8_t, uint16_t>(m); std::set<uint8_t> s(keys.begin(), keys.end()); const V ks = GetKeysFromSetLike<uint8_t>(s); sym_assert(k.size() == m.size() && kv.size() == m.size() && ks == k, "as many keys and pairs as entries"); int ok = 1, hit = 0; size_t i = 0; for (const auto& e : m) { ok &= (k[i] == e.first) & (kv[i].first == e.first) & (kv[i].second == e.second) & (i == 0 || k[i - (i > 0)] < k[i]) & (count(keys, k[i]) > 0); hit |= k[i] == q; i++; } sym_assert(ok, "exactly the map's keys and pairs in order"); sym_assert((hit != 0) == (count(keys, q) > 0), "no key is lost"); sym_cover("map");
  V more = keys; more.push_back(q); bool threw = false; try { MakeFromKeysAndValues<uint8_t, uint16_t>(more, values); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "lists of different lengths are refused"); threw = false; values.push_back(def); try { MakeFromKeysAndValues<uint8_t, uint16_t>(keys, values); } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "lists of different lengths are refused");
}
HARNESS(strings) {
  const int n = sym_choice(3, "strings"); std::vector<std::string> s; for (int i = 0; i < n; i++) { const int l = sym_choice(4, "length"); std::string t; for (int j = 0; j < l; j++) { const int c = sym_choice(2, "letter"); t.push_back(c ? 'b' : 'a'); } s.push_back(t); } const int l = sym_choice(3, "length"); std::string f; for (int j = 0; j < l; j++) { const int c = sym_choice(2, "letter"); f.push_back(c ? 'b' : 'a'); }
  bool all = true; for (const auto& t : s) { bool in = false; for (size_t at = 0; at + f.size() <= t.size(); at++) { bool eq = true; for (size_t j = 0; j < f.size(); j++) eq = eq && t[at + j] == f[j]; in = in || eq; } all = all && in; } sym_assert(CheckAllStringsForSubstring(s, f) == all, "exactly when every string contains it"); if (all) sym_cover("all"); else sym_cover("not-all");
}
//@ job both h_subset size=3 which=0 top=2 time=150 must=subset,no-subset,equal
//@ job both h_subset size=3 which=1 top=2 time=150 must=subset,no-subset,equal
//@ job both h_subset size=2 which=0 time=150 must=subset,no-subset,equal
//@ job both h_subset size=2 which=1 time=150 must=subset,no-subset,equal
//@ job both h_subset size=2 which=2 time=150 must=subset,no-subset,equal
//@ job quick h_subset size=4 which=0 top=1 time=150 must=subset,no-subset,equal
//@ job quick h_subset size=4 which=1 top=1 time=150 must=subset,no-subset,equal
//@ job both h_maps size=3 time=150 must=map
//@ job both h_strings time=60 must=all,not-all
//@ job thorough h_subset size=3 which=0 time=1200 must=subset,no-subset,equal
//@ job thorough h_subset size=3 which=1 time=1200 must=subset,no-subset,equal
//@ job thorough h_subset size=3 which=2 time=1200 must=subset,no-subset,equal
//@ job thorough h_subset size=4 which=0 time=1200 must=subset,no-subset,equal
//@ job thorough h_subset size=4 which=1 time=1200 must=subset,no-subset,equal
//@ job thorough h_maps size=4 time=1200 must=map
