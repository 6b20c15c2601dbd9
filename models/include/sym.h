// Harness API. In the engine these calls are interpreted symbolically; in a
// native replay build (models/native.cpp) they read a recorded assignment.
#pragma once
#include <cstdint>
extern "C" {
uint64_t sym_u64(const char* name);
int64_t sym_i64(const char* name);
uint32_t sym_u32(const char* name);
int32_t sym_i32(const char* name);
uint16_t sym_u16(const char* name);
uint8_t sym_u8(const char* name);
bool sym_bool(const char* name);
double sym_double(const char* name);                                                   // every bit pattern
float sym_float(const char* name);
int64_t sym_range(int64_t lo, int64_t hi, const char* name);                           // lo <= x <= hi
double sym_double_grid(int64_t lo, int64_t hi, int32_t shift, const char* name);       // x * 2^-shift, lo <= x <= hi
uint64_t sym_choice(uint64_t n, const char* name);                                     // one path per value 0..n-1
uint64_t sym_concretize(uint64_t x);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_fail(const char* msg);
void sym_cover(const char* label);                                                     // vacuity guard
void sym_observe(uint64_t v);                                                          // compared with the native run
int64_t sym_param(const char* name, int64_t def);                                      // bound given by the job
bool sym_engine();
void sym_stop();
uint64_t sym_live_heap();
void sym_log(const char* s);
void sym_yield();
int64_t sym_thread_id();
int64_t sym_thread_count();
int32_t sym_env_choice(int32_t lo, int32_t hi, const char* name);
int64_t sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int64_t tid);
bool sym_thread_done(int64_t tid);
}
#include <cstring>
inline void sym_observe_d(double d) { uint64_t b; std::memcpy(&b, &d, 8); sym_observe(b); }
#define HARNESS(n) extern "C" void h_##n()
#define CHECK(c) sym_assert((c), #c)
