// C05: base64 encoding is RFC 4648 and decodes back.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/base64_helpers.cpp
//@ bound: every byte string of length 0..9 (thorough 0..30), every value of every byte
//@ outside: longer strings (encoder and decoder handle them in independent groups of 3 bytes / 4 characters)
#include <sym.h>
#include <string>
#include <vector>
#include <common_robotics_utilities/base64_helpers.hpp>
namespace b64 = common_robotics_utilities::base64_helpers;
static const char kAlphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";   // RFC 4648 table 1
static uint8_t alphabet(uint32_t v) { return static_cast<uint8_t>(kAlphabet[v]); }
HARNESS(roundtrip) {
  const size_t from = sym_param("from", 0), n = from + sym_choice(sym_param("len", 10) - from, "length");
  std::vector<uint8_t> in(n);
  for (auto& b : in) b = sym_u8("byte");
  const std::vector<uint8_t> before = in;
  const std::string text = b64::Encode(in);
  sym_assert(text.size() == (n + 2) / 3 * 4, "encoded length is four characters per started group of three bytes");
  for (size_t g = 0; g * 3 < n; g++) {
    const size_t have = n - g * 3 < 3 ? n - g * 3 : 3;
    uint32_t v = 0;
    for (size_t i = 0; i < 3; i++) v = v << 8 | (i < have ? in[g * 3 + i] : 0);
    for (size_t c = 0; c < 4; c++) {
      const uint8_t want = c <= have ? alphabet(v >> (18 - 6 * c) & 63) : '=';
      sym_assert(static_cast<uint8_t>(text[g * 4 + c]) == want, "each character is the RFC 4648 character of its six bits, padding only at the end");
    }
  }
  for (size_t i = 0; i < n; i++) sym_assert(in[i] == before[i], "the input is not modified");
  const std::vector<uint8_t> back = b64::Decode(text);
  sym_assert(back.size() == n, "decoding returns as many bytes as were encoded");
  for (size_t i = 0; i < n; i++) { sym_assert(back[i] == in[i], "decoding returns the encoded bytes"); sym_observe(back[i]); }
  for (char c : text) sym_observe(static_cast<uint8_t>(c));
  sym_cover("done");
}
//@ job both h_roundtrip len=6 time=120 must=done
//@ job both h_roundtrip from=6 len=8 time=120 must=done
//@ job both h_roundtrip from=8 len=9 time=120 must=done
//@ job both h_roundtrip from=9 len=10 time=120 must=done
//@ job thorough h_roundtrip from=10 len=16 time=1200 must=done
//@ job thorough h_roundtrip from=16 len=31 time=3600
