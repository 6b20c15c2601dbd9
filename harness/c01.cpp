// C01: fixed-size values survive serialization, native and network order.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/serialization.cpp
//@ bound: every bit pattern of every fixed-size type (8..64 bit integers, float, double, bool, enum, a packed struct, Vector2d/3d/4d, Quaterniond, Isometry3d), 0..3 bytes (any values) in front and 0..2 behind; in-place writes at every 64-bit position into buffers of 0..10 bytes
//@ outside: longer prefixes and suffixes
#include <sym.h>
#include <cstring>
#include <stdexcept>
#include <type_traits>
#include <vector>
#include <common_robotics_utilities/serialization.hpp>
namespace S = common_robotics_utilities::serialization;
struct Pod { uint8_t a; uint32_t b; uint16_t c; };
enum class Kind : uint16_t {};
template <class T> struct Gen { static void fill(unsigned char* p) { for (size_t i = 0; i < sizeof(T); i++) p[i] = sym_u8("value byte"); } };
template <> struct Gen<bool> { static void fill(unsigned char* p) { const bool b = sym_bool("value"); std::memcpy(p, &b, 1); } };
static std::vector<uint8_t> prefix() { std::vector<uint8_t> v(sym_choice(4, "prefix")); for (auto& b : v) b = sym_u8("prefix byte"); return v; }
// ser/de work on raw storage so that no floating-point move touches the bits
template <class T, class Ser, class De> static void round(const unsigned char* raw, const T& value, Ser ser, De de, bool bigendian) {
  std::vector<uint8_t> buf = prefix(); const std::vector<uint8_t> pre = buf;
  const uint64_t written = ser(value, buf);
  sym_assert(written == sizeof(T), "reports its size");
  sym_assert(buf.size() == pre.size() + sizeof(T), "appends exactly its size");
  for (size_t i = 0; i < pre.size(); i++) sym_assert(buf[i] == pre[i], "leaves earlier bytes untouched");
  for (size_t i = 0; i < sizeof(T); i++) {
    const size_t k = bigendian ? sizeof(T) - 1 - i : i;
    sym_assert(buf[pre.size() + i] == raw[k], bigendian ? "most significant byte first" : "bytes as in memory");
    sym_observe(buf[pre.size() + i]);
  }
  const size_t tail = sym_choice(3, "suffix"); for (size_t i = 0; i < tail; i++) buf.push_back(sym_u8("suffix byte"));
  const auto got = de(buf, static_cast<uint64_t>(pre.size()));
  sym_assert(got.HasValue(), "deserialized has a value");
  sym_assert(got.BytesRead() == sizeof(T), "reads exactly its size");
  unsigned char back[sizeof(T)]; std::memcpy(back, &got.Value(), sizeof(T));
  for (size_t i = 0; i < sizeof(T); i++) sym_assert(back[i] == raw[i], "same bits come back");
  sym_cover("round_trip");
}
template <class T> static void native() {
  unsigned char raw[sizeof(T)]; Gen<T>::fill(raw); T v; std::memcpy(&v, raw, sizeof(T));
  round<T>(raw, v, [](const T& x, std::vector<uint8_t>& b) { return S::SerializeMemcpyable<T>(x, b); }, [](const std::vector<uint8_t>& b, uint64_t o) { return S::DeserializeMemcpyable<T>(b, o); }, false);
}
template <class T> static void network() {
  unsigned char raw[sizeof(T)]; Gen<T>::fill(raw); T v; std::memcpy(&v, raw, sizeof(T));
  round<T>(raw, v, [](const T& x, std::vector<uint8_t>& b) { return S::SerializeNetworkMemcpyable<T>(x, b); }, [](const std::vector<uint8_t>& b, uint64_t o) { return S::DeserializeNetworkMemcpyable<T>(b, o); }, true);
}
template <class T> static void inplace() {
  unsigned char raw[sizeof(T)]; Gen<T>::fill(raw); T v; std::memcpy(&v, raw, sizeof(T));
  std::vector<uint8_t> buf(sym_choice(11, "buffer size")); for (auto& b : buf) b = sym_u8("old byte");
  const std::vector<uint8_t> old = buf; const uint64_t pos = sym_u64("position");
  const bool fits = sizeof(T) <= old.size() && pos <= old.size() - sizeof(T);
  bool threw = false; uint64_t n = 0;
  try { n = S::SerializeNetworkMemcpyableInPlace<T>(v, buf, pos); } catch (const std::exception&) { threw = true; }
  sym_assert(threw == !fits, "throws exactly when the value does not fit");
  sym_assert(buf.size() == old.size(), "the buffer keeps its size");
  if (!threw) sym_assert(n == sizeof(T), "reports its size");
  for (size_t i = 0; i < old.size(); i++) {
    const bool inside = fits && i >= pos && i - pos < sizeof(T);
    if (inside) sym_assert(buf[i] == raw[sizeof(T) - 1 - (i - pos)], "most significant byte first, at the position");
    else sym_assert(buf[i] == old[i], "writes nothing outside the position");
    sym_observe(buf[i]);
  }
  sym_cover(threw ? "refused" : "written");
}
template <class F> static void each(F) {}
HARNESS(native) {
  switch (sym_choice(13, "type")) {
    case 0: native<uint8_t>(); break; case 1: native<int8_t>(); break; case 2: native<uint16_t>(); break; case 3: native<int16_t>(); break;
    case 4: native<uint32_t>(); break; case 5: native<int32_t>(); break; case 6: native<uint64_t>(); break; case 7: native<int64_t>(); break;
    case 8: native<float>(); break; case 9: native<double>(); break; case 10: native<bool>(); break; case 11: native<Kind>(); break; default: native<Pod>(); break;
  }
}
HARNESS(network) {
  switch (sym_choice(10, "type")) {
    case 0: network<uint8_t>(); break; case 1: network<int8_t>(); break; case 2: network<uint16_t>(); break; case 3: network<int16_t>(); break;
    case 4: network<uint32_t>(); break; case 5: network<int32_t>(); break; case 6: network<uint64_t>(); break; case 7: network<int64_t>(); break;
    case 8: network<float>(); break; default: network<double>(); break;
  }
}
HARNESS(inplace) {
  switch (sym_choice(10, "type")) {
    case 0: inplace<uint8_t>(); break; case 1: inplace<int8_t>(); break; case 2: inplace<uint16_t>(); break; case 3: inplace<int16_t>(); break;
    case 4: inplace<uint32_t>(); break; case 5: inplace<int32_t>(); break; case 6: inplace<uint64_t>(); break; case 7: inplace<int64_t>(); break;
    case 8: inplace<float>(); break; default: inplace<double>(); break;
  }
}
template <class T> static void eigen(T& v, double* data, uint64_t (*ser)(const T&, std::vector<uint8_t>&), S::Deserialized<T> (*de)(const std::vector<uint8_t>&, uint64_t)) {
  constexpr size_t n = sizeof(T); unsigned char raw[n]; Gen<T>::fill(raw); std::memcpy(data, raw, n);
  round<T>(raw, v, ser, de, false);
}
HARNESS(eigen) {
  switch (sym_choice(5, "type")) {
    case 0: { Eigen::Vector2d v; eigen<Eigen::Vector2d>(v, v.data(), S::SerializeVector2d, S::DeserializeVector2d); break; }
    case 1: { Eigen::Vector3d v; eigen<Eigen::Vector3d>(v, v.data(), S::SerializeVector3d, S::DeserializeVector3d); break; }
    case 2: { Eigen::Vector4d v; eigen<Eigen::Vector4d>(v, v.data(), S::SerializeVector4d, S::DeserializeVector4d); break; }
    case 3: { Eigen::Quaterniond v; eigen<Eigen::Quaterniond>(v, v.coeffs().data(), S::SerializeQuaterniond, S::DeserializeQuaterniond); break; }
    default: { Eigen::Isometry3d v; eigen<Eigen::Isometry3d>(v, v.matrix().data(), S::SerializeIsometry3d, S::DeserializeIsometry3d); break; }
  }
}
// conversions between host and network order
HARNESS(order) {
  const uint64_t x = sym_u64("x"); unsigned char b[8];
  const uint64_t n64 = S::HostToNetwork64(x); std::memcpy(b, &n64, 8); for (int i = 0; i < 8; i++) sym_assert(b[i] == static_cast<uint8_t>(x >> (56 - 8 * i)), "64 bit big-endian");
  const uint32_t n32 = S::HostToNetwork32(static_cast<uint32_t>(x)); std::memcpy(b, &n32, 4); for (int i = 0; i < 4; i++) sym_assert(b[i] == static_cast<uint8_t>(x >> (24 - 8 * i)), "32 bit big-endian");
  const uint16_t n16 = S::HostToNetwork16(static_cast<uint16_t>(x)); std::memcpy(b, &n16, 2); for (int i = 0; i < 2; i++) sym_assert(b[i] == static_cast<uint8_t>(x >> (8 - 8 * i)), "16 bit big-endian");
  sym_assert(S::HostToNetwork8(static_cast<uint8_t>(x)) == static_cast<uint8_t>(x), "8 bit unchanged");
  sym_assert(S::NetworkToHost64(n64) == x && S::NetworkToHost32(n32) == static_cast<uint32_t>(x) && S::NetworkToHost16(n16) == static_cast<uint16_t>(x) && S::NetworkToHost8(static_cast<uint8_t>(x)) == static_cast<uint8_t>(x), "network to host inverts host to network");
  sym_cover("order");
}
//@ job both h_native time=100 must=round_trip
//@ job both h_network time=100 must=round_trip
//@ job both h_inplace time=100 must=refused,written
//@ job both h_eigen time=100 must=round_trip
//@ job both h_order time=60 must=order
