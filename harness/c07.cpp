// C07: the compression helpers return exactly what the codec made of their input.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs: src/common_robotics_utilities/zlib_helpers.cpp
//@ bound: inputs of 0..3 bytes (thorough 5), a codec that consumes and produces any number of bytes per call (0..2, or all the room there is, so that the 1 MiB buffer fills up), and that fails with any zlib error at any call; up to 4 codec calls per phase
//@ outside: more codec calls and longer inputs; file reading and writing; zlib itself, which is replaced by that codec
//@ assume: zlib's documented contract: a call makes progress or reports an error, the stream ends when the codec says so, and inflate inverts deflate
#include <sym.h>
#include <cstring>
#include <stdexcept>
#include <vector>
#include <zlib.h>
#include <common_robotics_utilities/zlib_helpers.hpp>
namespace Z = common_robotics_utilities::zlib_helpers;
using Buf = std::vector<uint8_t>;
static Buf g_in, g_out; static int g_calls, g_max, g_open, g_inits, g_room; static bool g_failed, g_ended, g_fresh;
static const int kErr[] = {Z_STREAM_ERROR, Z_DATA_ERROR, Z_MEM_ERROR, Z_BUF_ERROR, Z_VERSION_ERROR};
static void reset() { g_in.clear(); g_out.clear(); g_calls = 0; g_max = static_cast<int>(sym_param("calls", 4)); g_open = 0; g_inits = 0; g_failed = g_ended = g_fresh = false; g_room = 0; }
static int begin(z_stream* s) { sym_assert(g_open == 0, "one stream at a time"); g_inits++; if (!sym_param("full", 0) && sym_choice(2, "init fails")) { g_failed = true; return kErr[sym_choice(sym_param("full", 0) ? 1 : 5, "error")]; } g_open = 1; s->total_out = s->total_in = 0; return Z_OK; }
static void take(z_stream* s, size_t n) { for (size_t i = 0; i < n; i++) { g_in.push_back(*s->next_in); s->next_in++; s->avail_in--; s->total_in++; } }
static void put(z_stream* s, size_t n) {
  if (n > 2) { const uint8_t a = sym_u8("fill"); std::memset(s->next_out, a, n); g_out.insert(g_out.end(), n, a); s->next_out += n; s->avail_out -= n; s->total_out += n; return; }
  for (size_t i = 0; i < n; i++) { const uint8_t b = sym_u8("output"); *s->next_out = b; s->next_out++; s->avail_out--; s->total_out++; g_out.push_back(b); }
}
static size_t upto(size_t n, const char* what) { return sym_choice((n < 2 ? n : 2) + 1, what); }
extern "C" int deflateInit_(z_stream* s, int, const char*, int) { return begin(s); }
extern "C" int inflateInit_(z_stream* s, const char*, int) { return begin(s); }
extern "C" int deflateEnd(z_stream*) { g_open = 0; return Z_OK; }
extern "C" int inflateEnd(z_stream*) { g_open = 0; return Z_OK; }
static bool fails() { if (!sym_choice(2, "call fails")) return false; g_failed = true; return true; }
// bytes produced by this call: 0..2, or a full buffer the first time that is asked for
static size_t produce(z_stream* s) { const int full = static_cast<int>(sym_param("full", 0)); const size_t k = sym_choice(full ? 2 : 3, "produced"); if (full && g_room < full && sym_choice(2, "fills the buffer")) { g_room++; return s->avail_out; } return k < s->avail_out ? k : s->avail_out; }
extern "C" int deflate(z_stream* s, int flush) {
  sym_assert(g_open == 1 && !g_ended, "the stream is open and not ended"); sym_assert(s->avail_out > 0, "the codec is given room");
  sym_assume(++g_calls <= g_max); if (fails()) return kErr[sym_choice(sym_param("full", 0) ? 1 : 5, "error")];
  const size_t in = flush == Z_FINISH ? s->avail_in : upto(s->avail_in, "consumed"); const size_t out = produce(s); take(s, in); put(s, out);
  if (flush == Z_FINISH) { if (s->avail_out == 0 && sym_choice(2, "more to come")) return Z_OK; sym_assume(s->avail_out > 0 || g_room > 0); g_ended = true; return Z_STREAM_END; }
  sym_assume(in + out > 0); return Z_OK;
}
extern "C" int inflate(z_stream* s, int) {
  sym_assert(g_open == 1 && !g_ended, "the stream is open and not ended"); sym_assert(s->avail_out > 0, "the codec is given room");
  sym_assume(++g_calls <= g_max); if (fails()) { const size_t k = sym_choice(sym_param("full", 0) ? 1 : 6, "error"); if (k == 5) return Z_NEED_DICT; return kErr[k]; }
  const size_t in = upto(s->avail_in, "consumed"); const size_t out = produce(s); take(s, in); put(s, out);
  if (sym_choice(2, "end")) { g_ended = true; return Z_STREAM_END; }
  if (in + out == 0) { g_failed = true; return Z_BUF_ERROR; }
  return Z_OK;
}
static void run(bool compress) {
  reset(); Buf data(sym_choice(sym_param("len", 4), "length")); for (auto& b : data) b = sym_u8("input"); const Buf given = data; bool threw = false; Buf r;
  try { r = compress ? Z::CompressBytes(data) : Z::DecompressBytes(data); } catch (const std::exception&) { threw = true; }
  sym_assert(g_inits == 1, "the codec is used once"); sym_assert(g_open == 0, "the stream is released"); sym_assert(threw == g_failed, "exactly codec failures are reported as exceptions"); sym_assert(data == given, "the input is not changed");
  sym_observe(threw); sym_observe(r.size());
  if (threw) { sym_cover("failed"); return; }
  sym_assert(g_ended, "the stream was finished");
  if (compress) sym_assert(g_in == given, "every input byte was given to the codec once and in order");
  else for (size_t i = 0; i < g_in.size(); i++) sym_assert(g_in[i] == given[i], "input bytes are given to the codec once and in order");
  sym_assert(r.size() == g_out.size(), "the result has every byte the codec produced");
  for (size_t i = 0; i < r.size() && i < 16; i++) sym_assert(r[i] == g_out[i], "the result is what the codec produced");
  if (r.size() > 16) for (size_t i = r.size() - 16; i < r.size(); i++) sym_assert(r[i] == g_out[i], "the result is what the codec produced");
  if (r.size() > 1000) { const size_t half = r.size() / 2; sym_assert(r[half] == g_out[half], "the result is what the codec produced"); sym_cover("full_buffer"); }
  sym_cover("finished");
}
HARNESS(compress) { run(true); }
HARNESS(decompress) { run(false); }
//@ job both h_compress calls=4 time=100 must=failed,finished
//@ job both h_decompress calls=4 time=100 must=failed,finished
//@ job both h_compress calls=3 full=2 len=2 time=100 must=failed,finished,full_buffer samples=3
//@ job both h_decompress calls=3 full=2 len=2 time=100 must=failed,finished,full_buffer samples=3
//@ job thorough h_compress calls=5 len=6 time=1900 must=failed,finished
//@ job thorough h_decompress calls=5 len=6 time=1900 must=failed,finished
//@ job thorough h_compress calls=5 full=3 len=4 time=1900 must=failed,finished,full_buffer
//@ job thorough h_decompress calls=5 full=3 len=4 time=1900 must=failed,finished,full_buffer
