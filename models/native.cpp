// Native implementation of the harness API: the same harness, compiled against
// the same sources, is run on one recorded assignment of its inputs.
//   prog <entry> <replay file> [param=value ...]
// exit 0: ran to the end; 1: an assertion failed; 77: the assignment violates an
// assumption or ran out; anything else: abort, terminate, sanitizer report.
#include <sym.h>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
#include <atomic>
#include <exception>
#include <typeinfo>
#include <thread>
#include <unistd.h>
#if __has_include(<sanitizer/allocator_interface.h>)
#include <sanitizer/allocator_interface.h>
#endif
// requests no machine could satisfy fail with bad_alloc, as without a sanitizer
#include <new>
void* operator new(std::size_t n) { if (n > (1ull << 32)) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return ::operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return n > (1ull << 32) ? nullptr : std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return ::operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
static std::vector<std::pair<std::string, uint64_t>> g_in; static size_t g_pos = 0; static std::map<std::string, int64_t> g_par;
static std::mutex g_m; static std::atomic<long> g_live{0};
static std::vector<uint64_t> g_obs;
[[noreturn]] static void done(int rc) { std::fflush(stdout); std::fflush(stderr); _exit(rc); }
static uint64_t next(const char* raw) {
  std::string name(raw); for (char& c : name) if (c == ' ') c = '_';
  std::lock_guard<std::mutex> l(g_m);
  if (g_pos >= g_in.size()) { std::printf("EXHAUSTED %s\n", name.c_str()); done(77); }
  auto& p = g_in[g_pos++];
  if (p.first != name) { std::printf("MISMATCH wanted %s recorded %s\n", name.c_str(), p.first.c_str()); done(78); }
  return p.second;
}
extern "C" {
uint64_t sym_u64(const char* n) { return next(n); }
int64_t sym_i64(const char* n) { return (int64_t)next(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n); }
int32_t sym_i32(const char* n) { return (int32_t)next(n); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n); }
uint8_t sym_u8(const char* n) { return (uint8_t)next(n); }
bool sym_bool(const char* n) { return next(n) & 1; }
double sym_double(const char* n) { uint64_t b = next(n); double d; std::memcpy(&d, &b, 8); return d; }
float sym_float(const char* n) { uint32_t b = (uint32_t)next(n); float d; std::memcpy(&d, &b, 4); return d; }
int64_t sym_range(int64_t, int64_t, const char* n) { return (int64_t)next(n); }
double sym_double_grid(int64_t, int64_t, int32_t, const char* n) { uint64_t b = next(n); double d; std::memcpy(&d, &b, 8); return d; }
uint64_t sym_choice(uint64_t, const char* n) { return next(n); }
uint64_t sym_concretize(uint64_t x) { return x; }
void sym_assume(bool c) { if (!c) { std::printf("ASSUMPTION\n"); done(77); } }
void sym_assert(bool c, const char* m) { if (!c) { std::printf("FAIL %s\n", m); done(1); } }
void sym_fail(const char* m) { std::printf("FAIL %s\n", m); done(1); }
void sym_cover(const char*) {}
void sym_observe(uint64_t v) { std::lock_guard<std::mutex> l(g_m); g_obs.push_back(v); }
int64_t sym_param(const char* n, int64_t d) { auto i = g_par.find(n); return i == g_par.end() ? d : i->second; }
bool sym_engine() { return false; }
void sym_stop() { done(77); }
uint64_t sym_live_heap() { return (uint64_t)g_live.load(); }
void sym_log(const char* s) { std::printf("LOG %s\n", s); }
void sym_yield() {}
static std::vector<std::thread>& threads() { static std::vector<std::thread>* v = new std::vector<std::thread>(); return *v; }
int64_t sym_thread_create(void (*fn)(void*), void* arg) { threads().emplace_back(fn, arg); return static_cast<int64_t>(threads().size()); }
void sym_thread_join(int64_t id) { threads()[static_cast<size_t>(id - 1)].join(); }
int64_t sym_thread_id() { return 0; }
int64_t sym_thread_count() { return 1; }
int32_t sym_env_choice(int32_t lo, int32_t, const char*) { return lo; }
}
#if __has_include(<sanitizer/allocator_interface.h>)
static void onM(const volatile void*, size_t) { g_live++; }
static void onF(const volatile void* p) { if (p) g_live--; }
#endif
int main(int argc, char** argv) {
  if (argc < 3) return 99;
  for (int i = 3; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); if (e != std::string::npos) g_par[a.substr(0, e)] = std::atoll(a.c_str() + e + 1); }
  std::ifstream f(argv[2]); std::string l;
  while (std::getline(f, l)) { std::stringstream ss(l); std::string k, n, v; ss >> k; if (k == "in") { ss >> n >> v; g_in.push_back({n, std::strtoull(v.c_str(), nullptr, 16)}); } }
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!h) { std::printf("NOENTRY %s\n", argv[1]); return 98; }
#if __has_include(<sanitizer/allocator_interface.h>) && defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(onM, onF);
#endif
  try { h(); } catch (const std::exception& e) { std::printf("EXCEPTION %s: %s\n", typeid(e).name(), e.what()); done(2); } catch (...) { std::printf("EXCEPTION\n"); done(2); }
  std::string o; for (auto v : g_obs) { char b[32]; std::snprintf(b, 32, " 0x%" PRIx64, v); o += b; }
  std::printf("OK%s\n", o.c_str()); done(0);
}
