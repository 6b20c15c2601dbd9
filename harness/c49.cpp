// C49: printing shows every element once in order.
//@ srcs:
//@ bound: containers of 0..3 elements (matrices up to 3x3, arrays of 0, 1 and 3) of every supported kind, any element bytes and values, any separator of 0..2 bytes, with and without delimiters, vectors nested in every kind of container, key and value
//@ outside: how the standard library formats one number (precision, digits) - the string stream and std::to_string are replaced by stand-ins that append one unambiguous token per inserted value; stream state set by the caller's own operator<<
//@ assume: std::ostringstream appends what is inserted, in order
#include <sym.h>
#include <cstring>
#include <array>
#include <deque>
#include <forward_list>
#include <iomanip>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <Eigen/Geometry>
#include <common_robotics_utilities/utility.hpp>
namespace std {
inline std::string sym_token(char kind, uint64_t v) { std::string s(1, kind); for (int i = 0; i < 8; i++) s.push_back(static_cast<char>(v >> (8 * i))); return s; }
inline std::string sym_to_string(int v) { return sym_token(1, static_cast<uint64_t>(static_cast<int64_t>(v))); }
inline std::string sym_to_string(unsigned v) { return sym_token(1, v); }
inline std::string sym_to_string(long v) { return sym_token(1, static_cast<uint64_t>(v)); }
inline std::string sym_to_string(unsigned long v) { return sym_token(1, v); }
inline std::string sym_to_string(double v) { uint64_t b; std::memcpy(&b, &v, 8); return sym_token(2, b); }
class sym_stream {
public:
  sym_stream() {} explicit sym_stream(const std::string& s) : s_(s) {}
  std::string str() const { return s_; } void str(const std::string& s) { s_ = s; }
  sym_stream& operator<<(const char* s) { s_ += s; return *this; }
  sym_stream& operator<<(const std::string& s) { s_ += s; return *this; }
  sym_stream& operator<<(char c) { s_ += c; return *this; }
  sym_stream& operator<<(unsigned char c) { s_ += static_cast<char>(c); return *this; }
  sym_stream& operator<<(double v) { s_ += sym_to_string(v); return *this; }
  sym_stream& operator<<(int v) { s_ += sym_to_string(v); return *this; }
  sym_stream& operator<<(unsigned v) { s_ += sym_to_string(v); return *this; }
  sym_stream& operator<<(long v) { s_ += sym_to_string(v); return *this; }
  sym_stream& operator<<(unsigned long v) { s_ += sym_to_string(v); return *this; }
  sym_stream& operator<<(bool v) { s_ += sym_to_string(static_cast<int>(v)); return *this; }
  template <class M> typename std::enable_if<std::is_same<M, decltype(std::setprecision(1))>::value || std::is_same<M, decltype(std::setw(1))>::value, sym_stream&>::type operator<<(const M&) { return *this; }
  sym_stream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
private: std::string s_; };
}
#define ostringstream sym_stream
#define stringstream sym_stream
#define ostream sym_stream
#define to_string sym_to_string
#include <common_robotics_utilities/print.hpp>
#undef ostringstream
#undef stringstream
#undef ostream
#undef to_string
namespace pr = common_robotics_utilities::print; using S = std::string;
// an element whose text is two arbitrary bytes, ordered by its position
struct Item { int pos; char t[2]; bool operator<(const Item& o) const { return pos < o.pos; } bool operator==(const Item& o) const { return pos == o.pos; } };
static S text(const Item& i) { return S(i.t, 2); }
namespace std { inline sym_stream& operator<<(sym_stream& s, const Item& i) { return s << S(i.t, 2); } template <> struct hash<Item> { size_t operator()(const Item& i) const { return static_cast<size_t>(i.pos); } }; }
static Item item(int pos) { Item i; i.pos = pos; const uint8_t a = sym_u8("text"), b = sym_u8("text"); i.t[0] = static_cast<char>(a); i.t[1] = static_cast<char>(b); return i; }
static S separator() { const int n = sym_choice(3, "separator length"); S s; for (int i = 0; i < n; i++) { const uint8_t c = sym_u8("separator"); s.push_back(static_cast<char>(c)); } return s; }
template <class C> static void put(C& c, const Item& i) { c.insert(c.end(), i); }
static void put(std::forward_list<Item>& c, const Item& i) { auto at = c.before_begin(); for (auto it = c.begin(); it != c.end(); ++it) at = it; c.insert_after(at, i); }
static void put(std::unordered_set<Item>& c, const Item& i) { c.insert(i); }
static void put(std::unordered_multiset<Item>& c, const Item& i) { c.insert(i); }
template <class C> static void list(const char* open, const char* close, bool repeat = false) {
  const int n = sym_choice(1 + sym_param("n", 3), "size"); const S sep = separator(); const bool del = sym_bool("delimiters"); C c; for (int i = 0; i < n; i++) { const Item x = item(repeat ? i / 2 : i); put(c, x); }
  S e; int k = 0; for (const Item& x : c) { if (k++ > 0) e += sep; e += text(x); } if (n > 0 && del) e = open + e + close; const S got = pr::Print(c, del, sep); sym_assert(k == n, "harness"); sym_assert(got.size() == e.size() && std::memcmp(got.data(), e.data(), e.size()) == 0, "every element once, in order, separated and delimited as requested"); sym_observe(got.size()); sym_cover(n == 0 ? "empty" : "elements");
  const S dflt = pr::Print(c); e.clear(); k = 0; for (const Item& x : c) { if (k++ > 0) e += ", "; e += text(x); } sym_assert(dflt == e, "no delimiters and a comma by default");
}
template <class C> static void map(bool repeat = false) {
  const int n = sym_choice(1 + sym_param("n", 3), "size"); const S sep = separator(); const bool del = sym_bool("delimiters"); C c; for (int i = 0; i < n; i++) { const Item x = item(repeat ? i / 2 : i), y = item(0); c.insert(std::make_pair(x, y)); }
  S e; int k = 0; for (const auto& x : c) { if (k++ > 0) e += sep; const S p = text(x.first) + ": " + text(x.second); e += del ? "<" + p + ">" : p; } if (n > 0 && del) e = "{" + e + "}"; const S got = pr::Print(c, del, sep); sym_assert(k == n, "harness"); sym_assert(got.size() == e.size() && std::memcmp(got.data(), e.data(), e.size()) == 0, "every pair once, in order, separated and delimited as requested"); sym_observe(got.size()); sym_cover(n == 0 ? "empty" : "elements");
}
HARNESS(vector) { list<std::vector<Item>>("[", "]"); }
HARNESS(deque) { list<std::deque<Item>>("[", "]"); }
HARNESS(listc) { list<std::list<Item>>("[", "]"); }
HARNESS(set) { list<std::set<Item>>("(", ")"); }
HARNESS(multiset) { list<std::multiset<Item>>("(", ")", true); }
HARNESS(unordered_set) { list<std::unordered_set<Item>>("(", ")"); }
HARNESS(unordered_multiset) { list<std::unordered_multiset<Item>>("(", ")", true); }
HARNESS(map) { map<std::map<Item, Item>>(); }
HARNESS(multimap) { map<std::multimap<Item, Item>>(true); }
HARNESS(unordered_map) { map<std::unordered_map<Item, Item>>(); }
HARNESS(unordered_multimap) { map<std::unordered_multimap<Item, Item>>(true); }
template <size_t N> static void array() { std::array<Item, N> a; S e; const S sep = separator(); const bool del = sym_bool("delimiters"); for (size_t i = 0; i < N; i++) { a[i] = item(static_cast<int>(i)); if (i > 0) e += sep; e += text(a[i]); } if (del && N > 0) e = "[" + e + "]"; const S got = pr::Print(a, del, sep); sym_assert(got == e, "every element once, in order, separated and delimited as requested"); sym_observe(got.size()); }
HARNESS(array) { const int k = sym_choice(3, "array"); if (k == 0) array<0>(); else if (k == 1) array<1>(); else array<3>(); sym_cover("array"); }
HARNESS(nested) {
  const S sep = separator(); const bool del = sym_bool("delimiters"); std::vector<std::vector<Item>> v; const int n = sym_choice(3, "outer"); S e; for (int i = 0; i < n; i++) { std::vector<Item> in; const int m = sym_choice(3, "inner"); if (i > 0) e += sep; S t; for (int j = 0; j < m; j++) { const Item x = item(0); in.push_back(x); if (j > 0) t += sep; t += text(x); } e += (del && m > 0) ? "[" + t + "]" : t; v.push_back(in); } if (del && n > 0) e = "[" + e + "]"; const S got = pr::Print(v, del, sep); sym_assert(got == e, "nested containers use the same separator and delimiters");
  const Item a = item(0), b = item(1); std::map<int, std::list<Item>> m; m[5].push_back(a); m[5].push_back(b); S f = text(a) + sep + text(b); const S five = std::sym_to_string(5); f = del ? "{<" + five + ": [" + f + "]>}" : five + ": " + f; const S gm = pr::Print(m, del, sep); sym_assert(gm == f, "maps of containers"); sym_cover("nested");
}
// one to two inner containers in every kind of outer container
using In = std::vector<Item>; namespace std { template <> struct hash<In> { size_t operator()(const In& i) const { return i.size(); } }; }
static In inner(int base) { In r; const int m = 1 + sym_choice(2, "inner"); for (int j = 0; j < m; j++) { const Item x = item(base + j); r.push_back(x); } return r; }
static S inside(const In& v, bool del, const S& sep) { S t; for (size_t j = 0; j < v.size(); j++) { if (j > 0) t += sep; t += text(v[j]); } return del && !v.empty() ? "[" + t + "]" : t; }
template <class C> static void insert(C& c, const In& v) { c.insert(c.end(), v); }
static void insert(std::forward_list<In>& c, const In& v) { if (c.empty()) c.push_front(v); else c.insert_after(c.begin(), v); }
static void insert(std::unordered_set<In>& c, const In& v) { c.insert(v); }
static void insert(std::unordered_multiset<In>& c, const In& v) { c.insert(v); }
template <class C> static void outer(const char* open, const char* close) { const S sep = separator(); const bool del = sym_bool("delimiters"); C c; const int n = 1 + sym_choice(2, "outer"); for (int i = 0; i < n; i++) { const In v = inner(10 * i); insert(c, v); } S e; int k = 0; for (const In& v : c) { if (k++ > 0) e += sep; e += inside(v, del, sep); } if (del) e = open + e + close; const S got = pr::Print(c, del, sep); sym_assert(k == n && got == e, "nested containers use the same separator and delimiters"); sym_cover("nested"); }
template <class C> static void outer_map() { const S sep = separator(); const bool del = sym_bool("delimiters"); C c; const int n = 1 + sym_choice(2, "outer"); for (int i = 0; i < n; i++) { const In key = inner(10 * i), value = inner(10 * i + 5); c.insert(std::make_pair(key, value)); } S e; int k = 0; for (const auto& x : c) { if (k++ > 0) e += sep; const S p = inside(x.first, del, sep) + ": " + inside(x.second, del, sep); e += del ? "<" + p + ">" : p; } if (del) e = "{" + e + "}"; const S got = pr::Print(c, del, sep); sym_assert(k == n && got == e, "keys and values that are containers use the same separator and delimiters"); sym_cover("nested"); }
HARNESS(outer) { const int k = sym_choice(8, "kind"); if (k == 0) outer<std::deque<In>>("[", "]"); else if (k == 1) outer<std::list<In>>("[", "]"); else if (k == 2) outer<std::forward_list<In>>("[", "]"); else if (k == 3) outer<std::set<In>>("(", ")"); else if (k == 4) outer<std::multiset<In>>("(", ")"); else if (k == 5) outer<std::unordered_set<In>>("(", ")"); else if (k == 6) outer<std::unordered_multiset<In>>("(", ")"); else { const S sep = separator(); const bool del = sym_bool("delimiters"); std::array<In, 2> a{{inner(0), inner(5)}}; S e = inside(a[0], del, sep) + sep + inside(a[1], del, sep); if (del) e = "[" + e + "]"; const S got = pr::Print(a, del, sep); sym_assert(got == e, "arrays of containers"); const std::pair<In, In> q(a[0], a[1]); S f = inside(a[0], del, sep) + ": " + inside(a[1], del, sep); if (del) f = "<" + f + ">"; const S got2 = pr::Print(q, del, sep); sym_assert(got2 == f, "pairs of containers"); } }
HARNESS(outer_map) { const int k = sym_choice(4, "kind"); if (k == 0) outer_map<std::map<In, In>>(); else if (k == 1) outer_map<std::multimap<In, In>>(); else if (k == 2) outer_map<std::unordered_map<In, In>>(); else outer_map<std::unordered_multimap<In, In>>(); }
static S num(double d) { return std::sym_to_string(d); }
HARNESS(eigen) {
  double x[9]; for (double& v : x) v = sym_double("component"); const int kind = sym_choice(6, "type"); S e, got;
  if (kind == 0) { got = pr::Print(Eigen::Vector2d(x[0], x[1])); e = "Vector2d: <x: " + num(x[0]) + " y: " + num(x[1]) + ">"; }
  else if (kind == 1) { got = pr::Print(Eigen::Vector3d(x[0], x[1], x[2])); e = "Vector3d: <x: " + num(x[0]) + " y: " + num(x[1]) + " z: " + num(x[2]) + ">"; }
  else if (kind == 2) { got = pr::Print(Eigen::Vector4d(x[0], x[1], x[2], x[3])); e = "Vector4d: <x: " + num(x[0]) + " y: " + num(x[1]) + " z: " + num(x[2]) + " w: " + num(x[3]) + ">"; }
  else if (kind == 3) { got = pr::Print(Eigen::Quaterniond(x[3], x[0], x[1], x[2])); e = "Quaterniond: <x: " + num(x[0]) + " y: " + num(x[1]) + " z: " + num(x[2]) + " w: " + num(x[3]) + ">"; }
  else if (kind == 4) { const int n = sym_choice(4, "size"); Eigen::VectorXd v(n); for (int i = 0; i < n; i++) v(i) = x[i]; got = pr::Print(v); e = "VectorXd: <"; for (int i = 0; i < n; i++) { if (i > 0) e += ", "; e += num(x[i]); } e += ">"; }
  else { const int r = sym_choice(4, "rows"), c = sym_choice(4, "columns"); Eigen::MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = x[i * 3 + j]; got = pr::Print(m); e = "MatrixXd:\n["; if (r > 0 && c > 0) for (int i = 0; i < r; i++) { if (i > 0) e += "\n"; for (int j = 0; j < c; j++) { if (j > 0) e += ", "; e += num(x[i * 3 + j]); } } e += "]"; }
  sym_assert(got == e, "every component once, in order, with its name"); sym_cover("eigen");
}
HARNESS(isometry) {
  double x[3]; for (double& v : x) { v = sym_double("component"); sym_assume(v == v); } Eigen::Isometry3d t = Eigen::Isometry3d::Identity(); t.translation() = Eigen::Vector3d(x[0], x[1], x[2]); const S got = pr::Print(t), e = "Isometry3d: <x: " + num(x[0]) + " y: " + num(x[1]) + " z: " + num(x[2]) + ">, <x: " + num(0.0) + " y: " + num(0.0) + " z: " + num(0.0) + " w: " + num(1.0) + ">"; sym_assert(got == e, "translation and rotation");
}
HARNESS(scalars) {
  const uint8_t b = sym_u8("byte"); const bool f = sym_bool("flag"); const int32_t i = sym_i32("int"); const double d = sym_double("double"); sym_assert(pr::Print(b) == std::sym_to_string(static_cast<int>(b)), "bytes print as numbers"); sym_assert(pr::Print(f) == (f ? "true" : "false"), "booleans print as words"); sym_assert(pr::Print(i) == std::sym_to_string(i) && pr::Print(d) == num(d), "numbers"); const S s(1, static_cast<char>(b)); sym_assert(pr::Print(s) == s, "strings print as themselves");
  const std::vector<uint8_t> v{b, b}; sym_assert(pr::Print(v) == std::sym_to_string(static_cast<int>(b)) + ", " + std::sym_to_string(static_cast<int>(b)), "bytes in containers print as numbers"); const std::vector<bool> w{f, true}; sym_assert(pr::Print(w) == S(f ? "true" : "false") + ", true", "booleans in containers print as words"); const std::pair<uint8_t, bool> p(b, f); sym_assert(pr::Print(p, true) == "<" + std::sym_to_string(static_cast<int>(b)) + ": " + S(f ? "true" : "false") + ">", "pairs");
}
HARNESS(forward_list) { list<std::forward_list<Item>>("[", "]"); }
//@ job both h_vector must=empty,elements
//@ job both h_deque must=empty,elements
//@ job both h_listc must=empty,elements
//@ job both h_set must=empty,elements
//@ job both h_multiset must=empty,elements
//@ job both h_unordered_set must=empty,elements
//@ job both h_unordered_multiset must=empty,elements
//@ job both h_map must=empty,elements
//@ job both h_multimap must=empty,elements
//@ job both h_unordered_map must=empty,elements
//@ job both h_unordered_multimap must=empty,elements
//@ job both h_forward_list must=empty,elements
//@ job both h_array must=array
//@ job both h_nested must=nested time=60
//@ job both h_outer must=nested time=60
//@ job both h_outer_map must=nested time=60
//@ job both h_eigen must=eigen
//@ job both h_isometry
//@ job both h_scalars
