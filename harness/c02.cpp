// C02: strings, vectors, maps, sets and pairs survive serialization.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/serialization.cpp
//@ bound: containers of 0..4 elements (strings 0..6, maps and sets 0..3; thorough 11, 19 and 5), and of 255, 256 and 300 (thorough 65537) elements with few symbolic ones, every element value, up to 2 bytes in front and 1 behind; strings of 1- and 2-byte characters, vectors of integers, of strings, of pairs and memory-copied, maps, unordered maps, sets, VectorXd, MatrixXd up to 2x2; native and network forms; three objects in a row
//@ outside: larger containers; user-written element serializers other than the library's own
#include <sym.h>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <common_robotics_utilities/serialization.hpp>
namespace S = common_robotics_utilities::serialization;
using Buf = std::vector<uint8_t>;
static Buf prefix() { Buf v(sym_choice(3, "prefix")); for (auto& b : v) b = sym_u8("prefix byte"); return v; }
template <class T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(const Eigen::VectorXd& a, const Eigen::VectorXd& b) { if (a.size() != b.size()) return false; bool ok = true; for (int i = 0; i < a.size(); i++) { uint64_t x, y; std::memcpy(&x, a.data() + i, 8); std::memcpy(&y, b.data() + i, 8); ok &= x == y; } return ok; }
static bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; bool ok = true; for (int i = 0; i < a.size(); i++) { uint64_t x, y; std::memcpy(&x, a.data() + i, 8); std::memcpy(&y, b.data() + i, 8); ok &= x == y; } return ok; }
// one object between other bytes
template <class T, class Ser, class De> static void round(const T& v, Ser ser, De de) {
  Buf buf = prefix(); const Buf pre = buf; const uint64_t n = ser(v, buf);
  sym_assert(buf.size() - pre.size() == n, "reports the bytes it appended");
  for (size_t i = 0; i < pre.size(); i++) sym_assert(buf[i] == pre[i], "earlier bytes are untouched");
  if (sym_bool("suffix")) buf.push_back(sym_u8("suffix byte"));
  const auto got = de(buf, static_cast<uint64_t>(pre.size()));
  sym_assert(got.BytesRead() == n, "reads exactly the bytes that were written");
  sym_assert(same(got.Value(), v), "an equal object comes back");
  for (uint8_t b : buf) sym_observe(b);
  sym_cover("round_trip");
}
template <class T> static S::Serializer<T> ser(bool net) { return [net](const T& x, Buf& b) { return net ? S::SerializeNetworkMemcpyable<T>(x, b) : S::SerializeMemcpyable<T>(x, b); }; }
template <class T> static S::Deserializer<T> de(bool net) { return [net](const Buf& b, uint64_t o) { return net ? S::DeserializeNetworkMemcpyable<T>(b, o) : S::DeserializeMemcpyable<T>(b, o); }; }
static size_t len() { return sym_choice(sym_param("len", 4), "length"); }
static size_t klen() { return sym_choice(sym_param("keys", 3), "length"); }
template <class C> static std::basic_string<C> str() { std::basic_string<C> s(len(), C()); for (auto& c : s) c = static_cast<C>(sym_u16("char")); return s; }
template <class T> static std::vector<T> vec() { std::vector<T> v(len()); for (auto& x : v) x = static_cast<T>(sym_u64("item")); return v; }
template <class T> using V = std::vector<T>;
HARNESS(string) {
  switch (sym_choice(4, "form")) {
    case 0: round(str<char>(), S::SerializeString<char>, S::DeserializeString<char>); break;
    case 1: round(str<char16_t>(), S::SerializeString<char16_t>, S::DeserializeString<char16_t>); break;
    case 2: { std::string s(len(), 'x'); for (auto& c : s) c = static_cast<char>(sym_u8("char")); const std::basic_string<uint8_t> u(s.begin(), s.end()); round(u, S::SerializeNetworkString<uint8_t>, S::DeserializeNetworkString<uint8_t>); break; }
    default: { std::basic_string<uint16_t> u(len(), 0); for (auto& c : u) c = sym_u16("char"); round(u, S::SerializeNetworkString<uint16_t>, S::DeserializeNetworkString<uint16_t>); break; }
  }
}
HARNESS(vector) {
  const bool net = sym_choice(2, "network");
  if (net) round(vec<uint32_t>(), [](const V<uint32_t>& v, Buf& b) { return S::SerializeNetworkVectorLike<uint32_t>(v, b, ser<uint32_t>(true)); }, [](const Buf& b, uint64_t o) { return S::DeserializeNetworkVectorLike<uint32_t>(b, o, de<uint32_t>(true)); });
  else round(vec<uint32_t>(), [](const V<uint32_t>& v, Buf& b) { return S::SerializeVectorLike<uint32_t>(v, b, ser<uint32_t>(false)); }, [](const Buf& b, uint64_t o) { return S::DeserializeVectorLike<uint32_t>(b, o, de<uint32_t>(false)); });
}
HARNESS(memvector) {
  const size_t k = sym_choice(6, "form");
  if (k == 0) round(vec<uint16_t>(), S::SerializeMemcpyableVectorLike<uint16_t, V<uint16_t>>, S::DeserializeMemcpyableVectorLike<uint16_t, V<uint16_t>>);
  else if (k == 1) round(vec<int64_t>(), S::SerializeMemcpyableVectorLike<int64_t, V<int64_t>>, S::DeserializeMemcpyableVectorLike<int64_t, V<int64_t>>);
  else if (k == 2) round(vec<uint16_t>(), S::SerializeNetworkMemcpyableVectorLike<uint16_t, V<uint16_t>>, S::DeserializeNetworkMemcpyableVectorLike<uint16_t, V<uint16_t>>);
  else if (k == 3) round(vec<int64_t>(), S::SerializeNetworkMemcpyableVectorLike<int64_t, V<int64_t>>, S::DeserializeNetworkMemcpyableVectorLike<int64_t, V<int64_t>>);
  else if (k == 4) { Eigen::VectorXd v(static_cast<long>(len())); for (int i = 0; i < v.size(); i++) { const uint64_t u = sym_u64("item"); std::memcpy(v.data() + i, &u, 8); } round(v, S::SerializeVectorXd, S::DeserializeVectorXd); }
  else { const long r = sym_choice(3, "rows"), c = sym_choice(3, "cols"); Eigen::MatrixXd v(r, c); for (int i = 0; i < v.size(); i++) { const uint64_t u = sym_u64("item"); std::memcpy(v.data() + i, &u, 8); } round(v, S::SerializeMatrixXd, S::DeserializeMatrixXd); }
}
HARNESS(nested) {
  using P = std::pair<uint8_t, std::string>; using VP = std::vector<P>;
  VP v(klen()); for (auto& p : v) { p.first = sym_u8("first"); p.second.resize(sym_choice(3, "text length")); for (auto& c : p.second) c = static_cast<char>(sym_u8("char")); }
  const S::Serializer<P> ps = [](const P& p, Buf& b) { return S::SerializePair<uint8_t, std::string>(p, b, ser<uint8_t>(false), S::SerializeString<char>); };
  const S::Deserializer<P> pd = [](const Buf& b, uint64_t o) { return S::DeserializePair<uint8_t, std::string>(b, o, de<uint8_t>(false), S::DeserializeString<char>); };
  round(v, [&](const VP& x, Buf& b) { return S::SerializeVectorLike<P>(x, b, ps); }, [&](const Buf& b, uint64_t o) { return S::DeserializeVectorLike<P>(b, o, pd); });
}
HARNESS(map) {
  const bool net = sym_choice(2, "network"); using M = std::map<uint16_t, uint32_t>; M m; const size_t n = klen();
  for (size_t i = 0; i < n; i++) { const uint16_t k = sym_u16("key"); m[k] = sym_u32("value"); }
  if (net) round(m, [](const M& x, Buf& b) { return S::SerializeNetworkMapLike<uint16_t, uint32_t>(x, b, ser<uint16_t>(true), ser<uint32_t>(true)); }, [](const Buf& b, uint64_t o) { return S::DeserializeNetworkMapLike<uint16_t, uint32_t>(b, o, de<uint16_t>(true), de<uint32_t>(true)); });
  else round(m, [](const M& x, Buf& b) { return S::SerializeMapLike<uint16_t, uint32_t>(x, b, ser<uint16_t>(false), ser<uint32_t>(false)); }, [](const Buf& b, uint64_t o) { return S::DeserializeMapLike<uint16_t, uint32_t>(b, o, de<uint16_t>(false), de<uint32_t>(false)); });
}
HARNESS(set) {
  const bool net = sym_choice(2, "network"); using M = std::set<int32_t>; M m; const size_t n = klen();
  for (size_t i = 0; i < n; i++) m.insert(sym_i32("key"));
  if (net) round(m, [](const M& x, Buf& b) { return S::SerializeNetworkSetLike<int32_t>(x, b, ser<int32_t>(true)); }, [](const Buf& b, uint64_t o) { return S::DeserializeNetworkSetLike<int32_t>(b, o, de<int32_t>(true)); });
  else round(m, [](const M& x, Buf& b) { return S::SerializeSetLike<int32_t>(x, b, ser<int32_t>(false)); }, [](const Buf& b, uint64_t o) { return S::DeserializeSetLike<int32_t>(b, o, de<int32_t>(false)); });
}
HARNESS(umap) {   // keys from a small range, so that buckets are concrete
  using M = std::unordered_map<int32_t, uint32_t>; M m; const size_t n = klen();
  for (size_t i = 0; i < n; i++) m[static_cast<int32_t>(sym_choice(3, "key")) * 13 - 5] = sym_u32("value");
  round(m, [](const M& x, Buf& b) { return S::SerializeMapLike<int32_t, uint32_t, M>(x, b, ser<int32_t>(false), ser<uint32_t>(false)); }, [](const Buf& b, uint64_t o) { return S::DeserializeMapLike<int32_t, uint32_t, M>(b, o, de<int32_t>(false), de<uint32_t>(false)); });
}
HARNESS(sequence) {   // one after the other, read back one after the other
  Buf buf = prefix(); const uint64_t at = buf.size();
  const auto s = str<char>(); const auto v = vec<uint16_t>(); const double d = 0.5; const uint32_t x = sym_u32("x");
  uint64_t n = S::SerializeString<char>(s, buf); n += S::SerializeMemcpyableVectorLike<uint16_t>(v, buf); n += S::SerializeMemcpyable<double>(d, buf); n += S::SerializeNetworkMemcpyable<uint32_t>(x, buf);
  sym_assert(buf.size() == at + n, "reported sizes add up");
  uint64_t p = at; const auto s2 = S::DeserializeString<char>(buf, p); p += s2.BytesRead(); const auto v2 = S::DeserializeMemcpyableVectorLike<uint16_t>(buf, p); p += v2.BytesRead();
  const auto d2 = S::DeserializeMemcpyable<double>(buf, p); p += d2.BytesRead(); const auto x2 = S::DeserializeNetworkMemcpyable<uint32_t>(buf, p); p += x2.BytesRead();
  sym_assert(p == buf.size(), "everything is read"); sym_assert(s2.Value() == s && v2.Value() == v && d2.Value() == d && x2.Value() == x, "each object comes back equal"); sym_cover("sequence");
}
// sizes beyond 8 and 16 bits; some bytes symbolic
HARNESS(large) {
  static const size_t kLen[] = {255, 256, 300, 65537}; const size_t n = kLen[sym_choice(sym_param("lens", 3), "length")];
  const uint8_t x = sym_u8("item"); const size_t k = sym_choice(3, "container");
  if (k == 0) { std::string s(n, 'q'); s[n / 2] = static_cast<char>(x); s[n - 1] = static_cast<char>(x); Buf b; const uint64_t w = S::SerializeString<char>(s, b); sym_assert(w == b.size() && w == 8 + n, "reports the bytes it appended"); const auto g = S::DeserializeString<char>(b, 0); sym_assert(g.BytesRead() == w && g.Value() == s, "an equal object comes back"); }
  else if (k == 1) { V<uint8_t> s(n, 7); s[0] = x; s[n - 1] = x; Buf b{x}; const uint64_t w = S::SerializeMemcpyableVectorLike<uint8_t>(s, b); sym_assert(w + 1 == b.size() && w == 8 + n, "reports the bytes it appended"); const auto g = S::DeserializeMemcpyableVectorLike<uint8_t>(b, 1); sym_assert(g.BytesRead() == w && g.Value() == s, "an equal object comes back"); }
  else { V<uint8_t> s(n, 7); s[0] = x; s[n - 1] = x; Buf b{x}; const uint64_t w = S::SerializeNetworkMemcpyableVectorLike<uint8_t>(s, b); sym_assert(w + 1 == b.size() && w == 8 + n, "reports the bytes it appended"); const auto g = S::DeserializeNetworkMemcpyableVectorLike<uint8_t>(b, 1); sym_assert(g.BytesRead() == w && g.Value() == s, "an equal object comes back"); }
  sym_cover("large");
}
HARNESS(largeset) {
  const size_t n = 300; std::set<int32_t> m; for (size_t i = 0; i < n; i++) m.insert(static_cast<int32_t>(i * 3)); std::map<uint16_t, uint32_t> mm; const uint32_t v = sym_u32("value"); for (size_t i = 0; i < n; i++) mm[static_cast<uint16_t>(i)] = v + static_cast<uint32_t>(i);
  Buf b; const uint64_t w = S::SerializeSetLike<int32_t>(m, b, ser<int32_t>(false)); const uint64_t w2 = S::SerializeMapLike<uint16_t, uint32_t>(mm, b, ser<uint16_t>(false), ser<uint32_t>(false));
  sym_assert(w == 8 + 4 * n && w2 == 8 + 6 * n && b.size() == w + w2, "reports the bytes it appended");
  const auto g = S::DeserializeSetLike<int32_t>(b, 0, de<int32_t>(false)); sym_assert(g.BytesRead() == w && g.Value() == m, "an equal set comes back");
  const auto h = S::DeserializeMapLike<uint16_t, uint32_t>(b, w, de<uint16_t>(false), de<uint32_t>(false)); sym_assert(h.BytesRead() == w2 && h.Value() == mm, "an equal map comes back"); sym_cover("large");
}
//@ job both h_large time=100 must=large
//@ job both h_largeset time=100 must=large
//@ job thorough h_large lens=4 time=1900
//@ job both h_string len=7 time=100 must=round_trip
//@ job both h_vector len=6 time=100 must=round_trip
//@ job both h_memvector len=5 time=100 must=round_trip
//@ job both h_nested keys=4 time=100 must=round_trip
//@ job both h_map keys=4 time=100 must=round_trip
//@ job both h_set keys=4 time=100 must=round_trip
//@ job both h_umap time=100 must=round_trip
//@ job both h_sequence time=100 must=sequence
//@ job thorough h_string len=20 time=900 must=round_trip
//@ job thorough h_memvector len=12 time=900 must=round_trip
//@ job thorough h_vector len=12 time=900 must=round_trip
//@ job thorough h_map keys=6 time=1900 must=round_trip
//@ job thorough h_set keys=6 time=1900 must=round_trip
//@ job thorough h_nested keys=6 time=1900 must=round_trip
