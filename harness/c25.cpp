// C25: optional and variant wrappers hold what was put in and destroy it once.
//@ cflags: -D_GLIBCXX_ASSERTIONS
//@ srcs:
//@ bound: every sequence of 3 (thorough 4) constructions, copies, moves, assignments (also to itself, and of an object in another state) and resets over two optionals, and over two variants, any values, the copy constructor of the contained object throwing at any one of its calls or never; reference optionals over two objects; optionals of const and of plain types
//@ outside: longer sequences; throwing moves and destructors
#include <sym.h>
#include <cstring>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <common_robotics_utilities/maybe.hpp>
using namespace common_robotics_utilities;
static const void* g_live[16]; static int g_count, g_copies, g_throw_at;   // the live contained objects by address
static int find(const void* p) { for (int i = 0; i < 16; i++) if (g_live[i] == p) return i; return -1; }
static void born(const void* p) { sym_assert(find(p) < 0, "no object is constructed over a live one"); for (int i = 0; i < 16; i++) if (!g_live[i]) { g_live[i] = p; break; } g_count++; }
static void died(const void* p) { const int i = find(p); sym_assert(i >= 0, "only live objects are destroyed, once"); if (i >= 0) { g_live[i] = nullptr; g_count--; } }
struct Thrown {};
template <int K> struct Obj {
  uint32_t v; bool moved = false;
  explicit Obj(uint32_t x) : v(x) { born(this); }
  Obj(const Obj& o) : v(o.v), moved(o.moved) { sym_assert(find(&o) >= 0, "only live objects are copied"); if (++g_copies == g_throw_at) throw Thrown(); born(this); }
  Obj(Obj&& o) noexcept : v(o.v), moved(o.moved) { sym_assert(find(&o) >= 0, "only live objects are moved"); o.moved = true; o.v = 0; born(this); }
  Obj& operator=(const Obj& o) { sym_assert(find(this) >= 0 && find(&o) >= 0, "assignment between live objects"); if (++g_copies == g_throw_at) throw Thrown(); v = o.v; moved = o.moved; return *this; }
  Obj& operator=(Obj&& o) noexcept { sym_assert(find(this) >= 0 && find(&o) >= 0, "assignment between live objects"); v = o.v; moved = o.moved; if (&o != this) { o.moved = true; o.v = 0; } return *this; }
  ~Obj() { died(this); }
};
using A = Obj<0>; using B = Obj<1>; using Maybe = OwningMaybe<B>;
struct M { int known; int has; uint32_t v; };   // what the optional must hold; known is 0 after a failed copy into it
static void check(const Maybe& m, const M& e) {
  sym_assert(m.HasValue() == static_cast<bool>(m), "both ways to ask agree"); bool threw = false; uint32_t v = 0; try { v = m.Value().v; sym_assert(find(&m.Value()) >= 0, "the value returned is a live object"); } catch (const std::runtime_error&) { threw = true; } sym_assert(threw == !m.HasValue(), "access to a missing value throws, and to a present value does not");
  Maybe& w = const_cast<Maybe&>(m); threw = false; try { sym_assert(w.Value().v == v, "mutable access returns the same value"); } catch (const std::runtime_error&) { threw = true; } sym_assert(threw == !m.HasValue(), "mutable access to a missing value throws"); if (e.known) { sym_assert(m.HasValue() == (e.has != 0), "it reports whether it has a value"); if (e.has) sym_assert(v == e.v, "it returns the value last stored"); }
}
HARNESS(maybe) {
  g_throw_at = sym_choice(1 + sym_param("throws", 4), "throw at"); alignas(Maybe) static unsigned char mem[3][sizeof(Maybe)]; Maybe* m[3] = {nullptr, nullptr, nullptr}; M e[3] = {{1, 0, 0}, {1, 0, 0}, {1, 0, 0}}; m[0] = new (mem[0]) Maybe(); m[1] = new (mem[1]) Maybe(); const int ops = sym_param("ops", 3);
  for (int k = 0; k < ops; k++) {
    const int op = sym_choice(9, "op"), i = sym_choice(2, "object"), j = 1 - i; const uint32_t v = sym_u32("value"); const M old = e[i];
    try {
      if (op == 0) { const B b(v); e[i].known = 0; *m[i] = Maybe(b); e[i] = M{1, 1, v}; }
      if (op == 1) { B b(v); *m[i] = Maybe(std::move(b)); e[i] = M{1, 1, v}; }
      if (op == 2) { e[i].known = 0; *m[i] = *m[j]; e[i] = e[j]; }
      if (op == 3) { *m[i] = std::move(*m[j]); e[i] = e[j]; if (e[j].has) e[j].known = 0; }
      if (op == 4) { m[i]->Reset(); e[i] = M{1, 0, 0}; }
      if (op == 5) { Maybe& s = *m[i]; *m[i] = s; }
      if (op == 6) { Maybe& s = *m[i]; *m[i] = std::move(s); }
      if (op == 7) { m[i]->~Maybe(); m[i] = nullptr; m[i] = new (mem[i]) Maybe(*m[j]); e[i] = e[j]; }
      if (op == 8) { m[i]->~Maybe(); m[i] = nullptr; m[i] = new (mem[i]) Maybe(std::move(*m[j])); e[i] = e[j]; if (e[j].has) e[j].known = 0; }
    } catch (const Thrown&) { sym_cover("threw"); if (!m[i]) { m[i] = new (mem[i]) Maybe(); e[i] = M{1, 0, 0}; } else if (e[i].known) e[i] = old; }
    check(*m[0], e[0]); check(*m[1], e[1]); int held = (m[0]->HasValue() ? 1 : 0) + (m[1]->HasValue() ? 1 : 0); sym_assert(g_count == held, "the live objects are exactly the ones held");
  }
  m[0]->~Maybe(); m[1]->~Maybe(); sym_assert(g_count == 0, "every contained object is destroyed"); sym_cover("end");
}
using Union = internal::TaggedUnion<A, B>;
HARNESS(variant) {
  g_throw_at = sym_choice(1 + sym_param("throws", 4), "throw at"); alignas(Union) static unsigned char mem[2][sizeof(Union)]; Union* u[2]; struct { int known, type; uint32_t v; } e[2]; for (int i = 0; i < 2; i++) { const uint32_t v = sym_u32("initial"); u[i] = i ? new (mem[i]) Union(B(v)) : new (mem[i]) Union(A(v)); e[i] = {1, i, v}; } const int ops = sym_param("ops", 3);
  for (int k = 0; k < ops; k++) {
    const int op = sym_choice(7, "op"), i = sym_choice(2, "object"), j = 1 - i; const uint32_t v = sym_u32("value"); const auto old = e[i];
    try {
      if (op == 0) { const A a(v); Union t(a); *u[i] = std::move(t); e[i] = {1, 0, v}; }
      if (op == 1) { const B b(v); Union t(b); e[i].known = 0; *u[i] = t; e[i] = {1, 1, v}; }
      if (op == 2) { e[i].known = 0; *u[i] = *u[j]; e[i] = e[j]; }
      if (op == 3) { *u[i] = std::move(*u[j]); e[i] = e[j]; e[j].known = 0; }
      if (op == 4) { Union& s = *u[i]; *u[i] = s; Union& t = *u[j]; *u[j] = std::move(t); }
      if (op == 5) { Union c(*u[j]); sym_assert(c.type_ == u[j]->type_, "a copy has the type of the original"); *u[i] = std::move(c); e[i] = e[j]; }
      if (op == 6) { Union c(std::move(*u[j])); *u[i] = std::move(c); e[i] = e[j]; e[j].known = 0; }
    } catch (const Thrown&) { sym_cover("threw"); if (e[i].known) e[i] = old; }
    int held = 0; for (int s = 0; s < 2; s++) { const bool a = u[s]->type_ == Union::TYPE_A, b = u[s]->type_ == Union::TYPE_B; held += a || b; if (a) sym_assert(find(&u[s]->value_a_) >= 0, "the value reported is live"); if (b) sym_assert(find(&u[s]->value_b_) >= 0, "the value reported is live"); if (e[s].known) sym_assert(e[s].type == 0 ? a && u[s]->value_a_.v == e[s].v : b && u[s]->value_b_.v == e[s].v, "a variant holds the value last stored"); } sym_assert(g_count == held, "the live objects are exactly the ones held");
  }
  u[0]->~Union(); u[1]->~Union(); sym_assert(g_count == 0, "every contained object is destroyed"); sym_cover("end");
}
HARNESS(reference) {
  const uint32_t x = sym_u32("x"), y = sym_u32("y"); uint32_t obj[2] = {x, y}; ReferencingMaybe<uint32_t> m[2]; uint32_t* e[2] = {nullptr, nullptr}; const int ops = sym_param("ops", 3);
  for (int k = 0; k < ops; k++) {
    const int op = sym_choice(5, "op"), i = sym_choice(2, "object"), t = sym_choice(2, "target"); const uint32_t v = sym_u32("value");
    if (op == 0) { m[i] = ReferencingMaybe<uint32_t>(obj[t]); e[i] = &obj[t]; } if (op == 1) { m[i] = m[t]; e[i] = e[t]; } if (op == 2) { m[i].Reset(); e[i] = nullptr; } if (op == 3) { const ReferencingMaybe<uint32_t> c(m[t]); m[i] = c; e[i] = e[t]; } if (op == 4 && e[i]) { const uint32_t other = obj[1 - (e[i] == &obj[1])]; m[i].Value() = v; sym_assert(*e[i] == v && obj[1 - (e[i] == &obj[1])] == other, "writes go to the referenced object"); }
    for (int s = 0; s < 2; s++) { const auto& c = m[s]; sym_assert(c.HasValue() == (e[s] != nullptr) && static_cast<bool>(c) == (e[s] != nullptr), "it reports whether it refers to something"); bool threw = false; try { sym_assert(&c.Value() == e[s] && &m[s].Value() == e[s], "it refers to the object last stored"); } catch (const std::runtime_error&) { threw = true; } sym_assert(threw == !e[s], "access to a missing reference throws"); }
  }
}
HARNESS(plain) {
  const double d = sym_double("d"); const OwningMaybe<const double> c(d); uint64_t a, b; std::memcpy(&a, &d, 8); const double r = c.Value(); std::memcpy(&b, &r, 8); sym_assert(c.HasValue() && a == b, "an optional of a const type holds the value"); OwningMaybe<double> p; sym_assert(!p, "a new optional is empty"); p = OwningMaybe<double>(d); const double w = p.Value(); std::memcpy(&b, &w, 8); sym_assert(a == b, "an optional of a plain type holds the value"); p.Reset(); sym_assert(!p, "a reset optional is empty");
}
//@ job both h_maybe ops=3 throws=3 time=200 must=threw,end
//@ job both h_variant ops=3 throws=4 time=200 must=threw,end
//@ job both h_reference ops=3 time=60
//@ job both h_plain time=30
//@ job thorough h_maybe ops=4 throws=4 time=1500 must=threw,end
//@ job thorough h_variant ops=4 throws=6 time=1500 must=threw,end
