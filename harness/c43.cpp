// C43: random generators are functions of their seed.
//@ srcs:
//@ bound: every 64-bit seed and re-seed, 0..17 draws before re-seeding and 18 compared (thorough 39 and 40); discard counts 0..39 after 0..17 draws (thorough 0..39 after 0..39), and 255, 256, 257, 1000, 65535, 65536 and 65537 for two seeds
//@ outside: longer sequences; quality of the random numbers
#include <sym.h>
#include <common_robotics_utilities/simple_prngs.hpp>
using namespace common_robotics_utilities::simple_prngs;
template <class G> static void reseed() {
  const uint64_t s = sym_u64("seed"), s0 = sym_u64("first seed");
  const size_t used = sym_choice(sym_param("used", 4), "draws before re-seeding"), cmp = sym_param("cmp", 4);
  G a(s0); for (size_t i = 0; i < used; i++) a();
  a.seed(s); G b(s);
  for (size_t i = 0; i < cmp; i++) { const uint64_t x = a(), y = b(); sym_assert(x == y, "re-seeding gives the sequence of a new generator"); sym_observe(x); }
  sym_cover("reseeded");
}
template <class G> static void discard() {
  const uint64_t s = sym_u64("seed"); const size_t used = sym_choice(sym_param("used", 4), "draws before"), n = sym_choice(sym_param("n", 5), "discarded");
  G a(s), b(s); for (size_t i = 0; i < used; i++) { a(); b(); }
  G c(a);                                     // a copy continues the same sequence
  a.discard(n); for (size_t i = 0; i < n; i++) b();
  c.discard(n);
  for (size_t i = 0; i < 3; i++) { const uint64_t x = a(), y = b(), z = c(); sym_assert(x == y, "discarding n is drawing n"); sym_assert(z == x, "a copy continues the same sequence"); sym_observe(x); }
  sym_cover("discarded");
}
template <class G> static void twice() { const uint64_t s = sym_u64("seed"); G a(s), b(s); for (int i = 0; i < 4; i++) { const uint64_t x = a(); sym_assert(x == b(), "same seed, same sequence"); sym_assert(x >= G::min() && x <= G::max(), "inside [min, max]"); } }
template <class G> static void far(size_t n) { const uint64_t s = 1 + sym_choice(2, "seed") * UINT64_C(0x123456789abcdef); G a(s), b(s); a(); b(); a.discard(n); for (size_t i = 0; i < n; i++) b(); for (int i = 0; i < 20; i++) { const uint64_t x = a(), y = b(); sym_assert(x == y, "discarding n is drawing n"); } sym_cover("far"); }
HARNESS(far) { static const size_t kN[] = {255, 256, 257, 1000, 65535, 65536, 65537}; const size_t n = kN[sym_choice(7, "discarded")]; switch (sym_choice(3, "generator")) { case 0: far<SplitMix64PRNG>(n); break; case 1: far<XorShift128PlusPRNG>(n); break; default: far<XorShift1024StarPRNG>(n); } }
HARNESS(reseed) { switch (sym_choice(3, "generator")) { case 0: reseed<SplitMix64PRNG>(); break; case 1: reseed<XorShift128PlusPRNG>(); break; default: reseed<XorShift1024StarPRNG>(); } }
HARNESS(discard) { switch (sym_choice(3, "generator")) { case 0: discard<SplitMix64PRNG>(); break; case 1: discard<XorShift128PlusPRNG>(); break; default: discard<XorShift1024StarPRNG>(); } }
HARNESS(twice) { switch (sym_choice(3, "generator")) { case 0: twice<SplitMix64PRNG>(); break; case 1: twice<XorShift128PlusPRNG>(); break; default: twice<XorShift1024StarPRNG>(); } }
//@ job both h_reseed used=18 cmp=18 time=200 must=reseeded
//@ job both h_discard used=18 n=40 time=200 must=discarded
//@ job both h_far time=200 must=far
//@ job both h_twice time=60
//@ job thorough h_reseed used=40 cmp=40 time=900 must=reseeded
//@ job thorough h_discard used=40 n=40 time=1900 must=discarded
