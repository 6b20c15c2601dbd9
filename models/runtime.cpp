// Definitions that live in libstdc++.so and that the encoded code needs: same
// observable behaviour (tree order, list links, bucket counts, hash values).
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <algorithm>
#include <map>
#include <list>
#include <unordered_map>
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <exception>
#include <mutex>
#include <thread>
#include <optional>
#include <functional>
#include <memory>
#include <cstdlib>
#include <cerrno>
#include <pthread.h>
#include <sym.h>
namespace std {
// --- ordered trees: plain binary search tree links; every inner node is black, the header is red
typedef _Rb_tree_node_base* BP;
static BP t_inc(BP x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static BP t_dec(BP x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
BP _Rb_tree_increment(BP x) throw() { return t_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return t_inc(const_cast<BP>(x)); }
BP _Rb_tree_decrement(BP x) throw() { return t_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return t_dec(const_cast<BP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) throw() {
  BP x; BP y = z;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { BP xp = y->_M_parent; if (x) x->_M_parent = xp; xp->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; y->_M_color = _S_black;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { BP m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { BP m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  return z;
}
// --- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// --- unordered containers
static const unsigned long kPrimes[] = {2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  static const unsigned char fast[] = {2,2,2,3,5,5,7,7,11,11,11,11,13,13};
  if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = __builtin_floor(fast[n] * (double)_M_max_load_factor); return fast[n]; }
  const std::size_t c = sizeof(kPrimes) / sizeof(kPrimes[0]);
  for (std::size_t i = 6; i < c; i++) if (kPrimes[i] >= n) { _M_next_resize = __builtin_floor(kPrimes[i] * (double)_M_max_load_factor); return kPrimes[i]; }
  sym_fail("model limit: hash table too large"); return 0;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > _M_next_resize) {
    double mb = std::max<std::size_t>(ne + ni, _M_next_resize ? 0 : 11) / (double)_M_max_load_factor;
    if (mb >= nb) return {true, _M_next_bkt(std::max<std::size_t>((std::size_t)(__builtin_floor(mb) + 1), nb * 2))};
    _M_next_resize = __builtin_floor(nb * (double)_M_max_load_factor); return {false, 0};
  }
  return {false, 0};
}
}
static inline size_t mix(size_t v) { return v ^ (v >> 47); }
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const char* const buf = static_cast<const char*>(ptr);
  const size_t la = len & ~(size_t)7; const char* const end = buf + la; size_t h = seed ^ (len * mul);
  for (const char* p = buf; p != end; p += 8) { size_t w; __builtin_memcpy(&w, p, 8); const size_t d = mix(w * mul) * mul; h ^= d; h *= mul; }
  if ((len & 7) != 0) { size_t d = 0; for (int i = (int)(len & 7) - 1; i >= 0; i--) d = (d << 8) + (unsigned char)end[i]; h ^= d; h *= mul; }
  h = mix(h) * mul; h = mix(h); return h;
}
}

template class std::basic_string<char>;

// --- exceptions with their text
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* cow_dup(const char* p, size_t n) { char* q = static_cast<char*>(malloc(n + 1)); __builtin_memcpy(q, p, n); q[n] = 0; return q; }
__cow_string::__cow_string() { _M_p = cow_dup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = cow_dup(s.c_str(), s.size()); }
__cow_string::__cow_string(const char* p, size_t n) { _M_p = cow_dup(p, n); }
__cow_string::__cow_string(const __cow_string& o) _GLIBCXX_NOTHROW { _M_p = cow_dup(o._M_p, __builtin_strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) _GLIBCXX_NOTHROW { if (this != &o) { free(const_cast<char*>(_M_p)); _M_p = cow_dup(o._M_p, __builtin_strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free(const_cast<char*>(_M_p)); }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SYM_EXC(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
SYM_EXC(domain_error, logic_error) SYM_EXC(invalid_argument, logic_error) SYM_EXC(length_error, logic_error) SYM_EXC(out_of_range, logic_error)
SYM_EXC(range_error, runtime_error) SYM_EXC(overflow_error, runtime_error) SYM_EXC(underflow_error, runtime_error)
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
// --- threads, call_once
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) { void (*body)(void*) = [](void* p) { _State_ptr q(static_cast<_State*>(p)); q->_M_run(); }; _M_id = id(static_cast<native_handle_type>(sym_thread_create(body, s.release()))); }
void thread::join() { if (!joinable()) __throw_runtime_error("Invalid argument"); sym_thread_join(static_cast<int64_t>(_M_id._M_thread)); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
#ifdef _GLIBCXX_HAVE_TLS
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
#endif
}
extern "C" {
static void once_lock(void* p) { pthread_mutex_lock(static_cast<pthread_mutex_t*>(p)); }
int pthread_once(pthread_once_t* o, void (*f)()) { struct L { void* p; explicit L(void* q) : p(q) { once_lock(p); } ~L() { pthread_mutex_unlock(static_cast<pthread_mutex_t*>(p)); } } l(o); if (*o == 0) { f(); *o = 2; } return 0; }
static __thread int sym_errno;
int* __errno_location() noexcept { return &sym_errno; }
long strtol(const char* p, char** e, int base) noexcept {
  const char* q = p; while (*q == ' ' || (*q >= '\t' && *q <= '\r')) q++; bool neg = *q == '-'; if (*q == '-' || *q == '+') q++;
  if ((base == 0 || base == 16) && q[0] == '0' && (q[1] | 32) == 'x') { q += 2; base = 16; } else if (base == 0) base = *q == '0' ? 8 : 10;
  bool any = false, over = false; unsigned long v = 0; const unsigned long lim = neg ? 1ul << 63 : (1ul << 63) - 1;
  for (;; q++) { int d = *q >= '0' && *q <= '9' ? *q - '0' : (*q | 32) >= 'a' && (*q | 32) <= 'z' ? (*q | 32) - 'a' + 10 : 99; if (d >= base) break; any = true; if (over || v > (lim - d) / base) over = true; else v = v * base + d; }
  if (e) *e = const_cast<char*>(any ? q : p); if (over) { sym_errno = ERANGE; v = lim; } return neg ? static_cast<long>(0 - v) : static_cast<long>(v);
}
long long strtoll(const char* p, char** e, int base) noexcept { return strtol(p, e, base); }
double modf(double x, double* ip) noexcept { const double t = __builtin_trunc(x); *ip = t; return __builtin_copysign(__builtin_isinf(x) ? 0.0 : x - t, x); }
double fdim(double x, double y) noexcept { return __builtin_isunordered(x, y) ? x + y : x > y ? x - y : 0.0; }
}
