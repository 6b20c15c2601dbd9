// Engine self test: programs whose verdict is known.
#include <sym.h>
#include <algorithm>
#include <atomic>
#include <future>
#include <list>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <functional>
#include <omp.h>
HARNESS(ok_arith) { uint32_t x = sym_u32("x"), y = sym_u32("y"); sym_assume(y != 0); sym_assert((x / y) * y + x % y == x, "div"); sym_observe(x ^ y); }
HARNESS(bad_arith) { int32_t x = sym_i32("x"); sym_assume(x > 5); sym_assert(x * x != 1234321 * 4 , "sq"); }
HARNESS(ok_sort) {
  std::vector<int64_t> v; int n = sym_range(0, 4, "n"); for (int i = 0; i < n; i++) v.push_back(sym_range(-3, 3, "v"));
  std::vector<int64_t> w = v; std::sort(w.begin(), w.end()); for (size_t i = 1; i < w.size(); i++) sym_assert(w[i - 1] <= w[i], "sorted");
  sym_cover("sorted"); for (auto x : w) sym_observe(x);
}
HARNESS(bad_oob) { std::vector<int> v(3, 7); uint64_t i = sym_u64("i"); sym_assume(i <= 3); sym_observe(v[i]); }
HARNESS(ok_maps) {
  std::map<std::string, int> m; std::unordered_map<int64_t, int> u; std::set<int64_t> s; std::list<int64_t> l;
  for (int i = 0; i < 3; i++) { int64_t k = sym_range(0, 2, "k"); m[std::to_string(0)] = i; u[k] = i; s.insert(k); l.push_back(k); }
  l.sort(); l.unique(); sym_assert(u.size() == s.size() && l.size() == s.size(), "sizes"); int64_t p = -1; for (auto x : s) { sym_assert(x > p, "order"); p = x; sym_assert(u.count(x) == 1, "has"); sym_observe(u.at(x)); }
}
HARNESS(ok_exc) {
  int n = sym_range(0, 3, "n"); int got = 0;
  try { if (n == 1) throw std::runtime_error("x"); if (n == 2) throw std::out_of_range("y"); std::vector<int> v(1); v.at(n) = 1; } catch (const std::out_of_range&) { got = 2; } catch (const std::exception&) { got = 1; }
  sym_assert(got == (n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 2 : 0), "exc"); sym_observe(got);
}
HARNESS(bad_exc) { if (sym_u8("n") == 77) throw std::runtime_error("x"); }
HARNESS(ok_double) { double a = sym_double_grid(-8, 8, 1, "a"), b = sym_double_grid(-8, 8, 1, "b"); sym_assert((a + b) * 2.0 == a * 2.0 + b * 2.0, "lin"); sym_observe_d(a * b); }
HARNESS(ok_fp) { double a = sym_double("a"); sym_assume(a == a); sym_assert(std::max(a, 0.0) >= 0.0, "max"); }
HARNESS(bad_fp) { double a = sym_double("a"); sym_assert(!(a + 1.0 == a) || a != a || a > 1e308 || a < -1e308, "absorb"); }
HARNESS(ok_thread) { std::mutex m; int c = 0; { auto f = [&] { std::lock_guard<std::mutex> l(m); c++; }; auto a = std::async(std::launch::async, f), b = std::async(std::launch::async, f); a.get(); b.get(); } sym_assert(c == 2, "c"); sym_cover("end"); }
HARNESS(bad_race) { int c = 0; { auto f = [&] { c++; }; auto a = std::async(std::launch::async, f), b = std::async(std::launch::async, f); a.get(); b.get(); } }
HARNESS(bad_atomic) { std::atomic<int> c{0}; { auto f = [&] { int v = c.load(); c.store(v + 1); }; auto a = std::async(std::launch::async, f), b = std::async(std::launch::async, f); a.get(); b.get(); } sym_assert(c.load() == 2, "lost update"); }
HARNESS(ok_omp) { int s[6] = {0}; int n = (int)sym_range(1, 3, "n");
#pragma omp parallel for num_threads(n) schedule(dynamic)
  for (int i = 0; i < 4; i++) s[i]++;
  for (int i = 0; i < 4; i++) sym_assert(s[i] == 1, "once"); sym_cover("end"); }
HARNESS(bad_omp) { int s = 0;
#pragma omp parallel for num_threads(2) schedule(static)
  for (int i = 0; i < 4; i++) s++;
  sym_observe(s); }
HARNESS(ok_fn) { int k = (int)sym_choice(3, "k"); std::function<int(int)> f = [k](int x) { return x + k; }; sym_assert(f(1) == 1 + k, "f"); std::function<int(int)> g; bool t = false; try { g(1); } catch (const std::bad_function_call&) { t = true; } sym_assert(t, "bad"); }
HARNESS(bad_uaf) { int* p = new int(3); bool b = sym_bool("b"); if (b) delete p; sym_observe(*p); if (!b) delete p; }
HARNESS(bad_df) { std::vector<int>* p = new std::vector<int>(3); delete p; if (sym_bool("b")) delete p; }
HARNESS(ok_str) { std::string a; int n = (int)sym_range(0, 3, "n"); for (int i = 0; i < n; i++) a.push_back((char)sym_u8("c")); std::string b = a + "x" + a; sym_assert(b.size() == 2 * a.size() + 1, "len"); sym_assert(b.substr(0, a.size()) == a, "pre"); std::unordered_set<std::string> h; h.insert("ab"); sym_assert(h.count("ab") == 1, "h"); sym_observe(h.bucket_count()); sym_observe(std::hash<std::string>()("hello")); }
HARNESS(bad_deadlock) { std::mutex a, b; auto f = std::async(std::launch::async, [&] { std::lock_guard<std::mutex> l(a); std::lock_guard<std::mutex> m(b); }); { std::lock_guard<std::mutex> l(b); std::lock_guard<std::mutex> m(a); } f.get(); }
//@ job both h_ok_arith time=60
//@ job both h_bad_arith time=60
//@ job both h_ok_sort time=60
//@ job both h_bad_oob time=60
//@ job both h_ok_maps time=60
//@ job both h_ok_exc time=60
//@ job both h_bad_exc time=60
//@ job both h_ok_double time=60
//@ job both h_ok_fp time=60
//@ job both h_bad_fp time=60
//@ job both h_ok_thread time=60
//@ job both h_bad_race time=60
//@ job both h_bad_atomic time=60
//@ job both h_ok_omp time=60
//@ job both h_bad_omp time=60
//@ job both h_ok_fn time=60
//@ job both h_bad_uaf time=60
//@ job both h_bad_df time=60
//@ job both h_ok_str time=60
//@ job both h_bad_deadlock time=60
