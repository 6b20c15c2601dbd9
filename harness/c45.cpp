// C45: atomics copy their value, scope guards run once.
//@ srcs:
//@ bound: 8-, 32- and 64-bit integral and pointer-sized atomics with any values and up to 4 operations from construction, copying, moving, assignment (self and across memory orders), store, addition and subtraction; 2 threads doing up to 2 additions or subtractions each with up to 3 preemptions; guards with any enable/disable history of up to 3 steps, nested 1..3 deep, normal and exceptional exit at any depth
//@ outside: floating-point atomics (no arithmetic before C++20), an action that itself throws
#include <sym.h>
#include <stdexcept>
#include <vector>
#include <common_robotics_utilities/utility.hpp>
using namespace common_robotics_utilities::utility;
template <class T> using A = CopyableMoveableAtomic<T>;
template <class T> using R = CopyableMoveableAtomic<T, std::memory_order_relaxed>;
template <class T> static T any(const char* n) { const uint64_t v = sym_u64(n); return static_cast<T>(v); }
template <class T> static void history() {
  using U = typename std::make_unsigned<T>::type; const T i0 = any<T>("initial"), i1 = any<T>("initial"); A<T> x(i0), y; R<T> z(i1); y.store(i1); T vx = i0, vy = i1, vz = i1; sym_assert(x.load() == vx && y.load() == vy && z.load() == vz, "constructed with its value"); const A<T> zero; sym_assert(zero.load() == T(), "default is zero");
  const int steps = sym_param("steps", 3);
  for (int s = 0; s < steps; s++) {
    const int op = sym_choice(16, "operation"); const T v = any<T>("operand");
    if (op == 0) { x = y; vx = vy; }
    else if (op == 1) { y = std::move(x); vy = vx; }
    else if (op == 2) { x = z; vx = vz; }
    else if (op == 3) { z = x; vz = vx; }
    else if (op == 4) { z = std::move(y); vz = vy; }
    else if (op == 5) { A<T>& alias = x; x = alias; }
    else if (op == 6) { A<T> c(x); sym_assert(c.load() == vx, "a copy has the current value"); c.store(v); A<T> m(std::move(c)); sym_assert(m.load() == v, "a moved-to atomic has the value"); }
    else if (op == 7) { A<T> c(z); R<T> d(x); sym_assert(c.load() == vz && d.load() == vx, "a copy across memory orders has the current value"); A<T> e(std::move(d)); sym_assert(e.load() == vx, "moved across memory orders"); }
    else if (op == 8) { x.store(v); vx = v; }
    else if (op == 9) { const T old = x.fetch_add(v); sym_assert(old == vx, "fetch_add returns the previous value"); vx = static_cast<T>(static_cast<U>(vx) + static_cast<U>(v)); }
    else if (op == 10) { const T old = x.fetch_sub(v); sym_assert(old == vx, "fetch_sub returns the previous value"); vx = static_cast<T>(static_cast<U>(vx) - static_cast<U>(v)); }
    else if (op == 11) { const T old = z.fetch_add(v); sym_assert(old == vz, "fetch_add returns the previous value"); vz = static_cast<T>(static_cast<U>(vz) + static_cast<U>(v)); }
    else if (op == 12) { A<T>& alias = x; x = std::move(alias); }
    else if (op == 13) { x = std::move(z); vx = vz; z = x; }
    else if (op == 14) { const T old = z.fetch_sub(v); sym_assert(old == vz, "fetch_sub returns the previous value"); vz = static_cast<T>(static_cast<U>(vz) - static_cast<U>(v)); }
    else { std::vector<A<T>> w(2, x); w.push_back(y); sym_assert(w[0].load() == vx && w[1].load() == vx && w[2].load() == vy, "atomics keep their values in growing containers"); w[0].store(v); w[1].fetch_add(v); }
    sym_assert(x.load() == vx && y.load() == vy && z.load() == vz, "every atomic holds its own current value");
  }
  sym_cover("history"); sym_observe(vx);
}
HARNESS(int32) { history<int32_t>(); }
HARNESS(uint64) { history<uint64_t>(); }
HARNESS(int8) { history<int8_t>(); }
struct Shared { A<int64_t>* a; int64_t by; int n; bool sub; };
static void worker(void* p) { Shared* s = static_cast<Shared*>(p); for (int i = 0; i < s->n; i++) { if (s->sub) s->a->fetch_sub(s->by); else s->a->fetch_add(s->by); } }
HARNESS(threads) {
  const int64_t v = sym_i64("initial"), d = sym_i64("delta"), e = sym_i64("delta"); A<int64_t> a(v); const int n = 1 + sym_choice(2, "additions"), m = 1 + sym_choice(2, "additions"); const bool f = sym_choice(2, "subtract"), g = sym_choice(2, "subtract"); Shared p{&a, d, n, f}, q{&a, e, m, g};
  const auto t = sym_thread_create(worker, &p), u = sym_thread_create(worker, &q); sym_thread_join(t); sym_thread_join(u); const uint64_t sum = static_cast<uint64_t>(v) + static_cast<uint64_t>(d) * (f ? -n : n) + static_cast<uint64_t>(e) * (g ? -m : m); sym_assert(static_cast<uint64_t>(a.load()) == sum, "concurrent additions and subtractions are all counted"); sym_cover("threads"); sym_observe(n);
}
struct Leave {};
struct Disabler { OnScopeExit* g; ~Disabler() { if (g) g->Disable(); } };   // disables a guard while its scope is being left
// scope i runs one guard, optionally disabled and/or queried, then goes deeper; the exception may start at any depth
static void scope(int depth, int levels, int raise, int (&runs)[4], int& order, int (&when)[4], bool (&disabled)[4]) {
  if (depth == levels) return;
  OnScopeExit guard([&runs, &order, &when, depth] { runs[depth]++; when[depth] = ++order; }); sym_assert(guard.IsEnabled() && runs[depth] == 0, "a new guard is enabled and has not run");
  const int steps = sym_choice(depth == 0 ? 4 : 3, "disable_calls"); const Disabler late{steps == 3 ? &guard : nullptr}; for (int i = 0; i < steps % 3; i++) { guard.Disable(); sym_assert(!guard.IsEnabled(), "a disabled guard says so"); } disabled[depth] = steps > 0;
  if (raise == depth) throw Leave(); scope(depth + 1, levels, raise, runs, order, when, disabled); if (raise == depth + 10) throw Leave(); sym_assert(runs[depth] == 0, "the action waits for the end of the scope");
}
HARNESS(guard) {
  const int levels = 1 + sym_choice(3, "levels"), kind = sym_choice(1 + 2 * levels, "exit"); const int raise = kind == 0 ? -1 : kind <= levels ? kind - 1 : kind - levels - 1 + 10; int runs[4] = {0}, when[4] = {0}, order = 0; bool disabled[4] = {false}, threw = false;
  try { scope(0, levels, raise, runs, order, when, disabled); } catch (const Leave&) { threw = true; } sym_assert(threw == (raise >= 0), "the exception passes through");
  int reached = levels; if (raise >= 0 && raise < 10) reached = raise + 1; for (int i = 0; i < levels; i++) sym_assert(runs[i] == (i < reached && !disabled[i] ? 1 : 0), "an enabled guard runs exactly once, a disabled one never");
  for (int i = 0; i + 1 < reached; i++) if (!disabled[i] && !disabled[i + 1]) sym_assert(when[i + 1] < when[i], "inner scopes end first"); sym_cover(threw ? "exception" : "normal"); sym_observe(order);
}
HARNESS(empty) { bool threw = false; try { OnScopeExit g{std::function<void(void)>()}; } catch (const std::invalid_argument&) { threw = true; } sym_assert(threw, "an empty action is refused"); }
//@ job both h_int32 must=history time=60
//@ job both h_uint64 steps=2 must=history time=60
//@ job both h_int8 steps=2 must=history time=60
//@ job both h_threads preempt=3 must=threads time=60
//@ job both h_guard must=exception,normal time=60
//@ job both h_empty
//@ job thorough h_int32 steps=4 time=2000
