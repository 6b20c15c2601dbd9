// C06: base64 decoding of arbitrary text is memory safe.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/base64_helpers.cpp
//@ bound: every character string of length 0..9 (thorough 0..24), every value of every character
//@ outside: longer strings (the decoder handles independent groups of four characters)
#include <sym.h>
#include <exception>
#include <string>
#include <vector>
#include <common_robotics_utilities/base64_helpers.hpp>
HARNESS(any) {
  const size_t from = sym_param("from", 0), n = from + sym_choice(sym_param("len", 10) - from, "length");
  std::string s(n, 'A');
  for (auto& c : s) c = static_cast<char>(sym_u8("char"));
  try {
    const std::vector<uint8_t> out = common_robotics_utilities::base64_helpers::Decode(s);
    sym_assert(out.size() <= (n + 3) / 4 * 3, "no more bytes than the characters can hold");
    for (uint8_t b : out) sym_observe(b);
    sym_cover("decoded");
  } catch (const std::exception&) { sym_cover("refused"); }
}
//@ job both h_any len=6 time=120 must=decoded
//@ job both h_any from=6 len=8 time=120 must=decoded
//@ job both h_any from=8 len=10 time=120 must=decoded
//@ job thorough h_any from=10 len=25 time=3600 must=decoded
