// Symbolic execution state: memory, frames, threads.
#pragma once
#include "solver.hpp"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>

template <class T> struct RC {  // intrusive copy-on-write pointer (single threaded)
  T* p = nullptr;
  RC() {}
  explicit RC(T* x) : p(x) { if (p) p->rc++; }
  RC(const RC& o) : p(o.p) { if (p) p->rc++; }
  RC(RC&& o) noexcept : p(o.p) { o.p = nullptr; }
  RC& operator=(const RC& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  RC& operator=(RC&& o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
  ~RC() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
  T* w() { if (p->rc > 1) { T* n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

struct Val { E e = nullptr; uint64_t c = 0; };

enum OKind : uint8_t { K_GLOBAL, K_CONST, K_HEAP, K_STACK, K_FUNC, K_EXC };
struct SymByte { E e; uint8_t idx; };
const int MAXT = 8;
struct ShadowB { uint32_t wc = 0; uint8_t wt = 0; uint8_t wAtomic = 0; uint32_t rc[MAXT] = {0}; };
struct Shadow { uint32_t epoch = 0; std::vector<ShadowB> b; };
struct Obj {
  int rc = 0;
  uint64_t id; uint64_t size; OKind kind; uint8_t allocKind = 0;  // 1 malloc 2 new 3 new[]
  std::vector<uint8_t> data;
  std::vector<SymByte> sym;      // empty or size entries; e==nullptr -> concrete
  std::vector<uint8_t> uninit;   // empty (all initialised) or size entries
  std::shared_ptr<Shadow> sh;
  const char* name = nullptr;
  Obj() {}
  Obj(const Obj& o) : id(o.id), size(o.size), kind(o.kind), allocKind(o.allocKind), data(o.data), sym(o.sym), uninit(o.uninit), name(o.name) { if (o.sh) sh = std::make_shared<Shadow>(*o.sh); }
};
const int ASHIFT = 28; const uint64_t ABASE = 0x1000;
inline uint64_t addrOf(uint64_t id) { return (id << ASHIFT) + ABASE; }

struct Chunk { int rc = 0; int n = 0; RC<Obj> o[32]; Chunk() {} Chunk(const Chunk& x) : n(x.n) { for (int i = 0; i < 32; i++) o[i] = x.o[i]; } };
struct Super { int rc = 0; int n = 0; RC<Chunk> c[64]; Super() {} Super(const Super& x) : n(x.n) { for (int i = 0; i < 64; i++) c[i] = x.c[i]; } };
struct Memory {
  std::vector<RC<Super>> t; uint64_t next = 1;
  const Obj* get(uint64_t id) const {
    uint64_t s = id >> 11; if (s >= t.size() || !t[s]) return nullptr;
    auto& ch = t[s]->c[(id >> 5) & 63]; if (!ch) return nullptr;
    return ch->o[id & 31].p;
  }
  Obj* getW(uint64_t id) { return t[id >> 11].w()->c[(id >> 5) & 63].w()->o[id & 31].w(); }
  Obj* add(uint64_t size, OKind k) {
    uint64_t id = next; uint64_t span = (size + ABASE * 2) >> ASHIFT; next += 1 + span;
    uint64_t s = id >> 11; if (s >= t.size()) t.resize(s + 1);
    if (!t[s]) t[s] = RC<Super>(new Super);
    Super* S = t[s].w(); auto& ch = S->c[(id >> 5) & 63]; if (!ch) { ch = RC<Chunk>(new Chunk); S->n++; }
    Obj* o = new Obj; o->id = id; o->size = size; o->kind = k; o->data.resize(size, 0);
    Chunk* C = ch.w(); C->o[id & 31] = RC<Obj>(o); C->n++;
    return o;
  }
  void del(uint64_t id) {
    Super* S = t[id >> 11].w(); auto& ch = S->c[(id >> 5) & 63]; Chunk* C = ch.w(); C->o[id & 31] = RC<Obj>();
    if (--C->n == 0) { ch = RC<Chunk>(); if (--S->n == 0) t[id >> 11] = RC<Super>(); }
  }
};

struct DFunc;
enum RetHook : uint8_t { H_NONE, H_THREAD_END, H_OMP_MASTER, H_CTOR_NEXT, H_ENTRY, H_EXC_FREE, H_DROP };
struct Frame {
  int rc = 0;
  DFunc* f = nullptr; std::vector<Val> r; int pc = 0;
  std::vector<uint64_t> allocas; RetHook hook = H_NONE; uint64_t hookArg = 0;
};
typedef std::vector<uint32_t> VC;
enum TStat : uint8_t { T_RUN, T_BLOCK_MUTEX, T_BLOCK_COND, T_BLOCK_JOIN, T_BLOCK_TEAM, T_BLOCK_BARRIER, T_DONE };
struct Thread {
  int id; TStat st = T_RUN; uint64_t waitOn = 0; bool yielded = false; bool timedWait = false; uint64_t condMutex = 0; bool condSignaled = false; int polls = 0;
  std::vector<RC<Frame>> stack; VC vc;
  std::vector<uint64_t> caught; int uncaught = 0;
  uint64_t unwindExc = 0;
  int team = -1, ompTid = 0, ompLevel = 0, pushNum = 0; int loopIdx = 0; int barrierIdx = 0; int singleIdx = 0;
  int maxThreadsIcv = 0;
};
struct Exc { uint64_t ti = 0, dtor = 0; int handlers = 0; int refs = 1; };
struct OmpLoop { int64_t next = 0, ub = 0, st = 1, chunk = 1; bool init = false; VC vc; };
struct Team { int n = 1; int live = 0; int singles = 0; std::vector<OmpLoop> loops; int barArrived = 0; int barGen = 0; VC barVC; };
struct Inp { E e; uint8_t w; const char* name; };

struct State {
  uint64_t id = 0;
  Memory mem;
  std::vector<Thread> th; int cur = 0;
  PCP pc; ModelP model;
  std::map<uint64_t, Exc> exc;
  std::map<uint64_t, VC> syncVC;      // mutex / atomic / thread objects
  std::map<uint64_t, int> mutexOwner;
  std::vector<Team> teams;
  std::vector<Inp> inputs; std::vector<Inp> obs; std::vector<std::string> log;
  std::vector<int> sched;
  int nsym = 0; int preempt = 0; uint64_t ninstr = 0; int ctorIdx = 0; uint32_t mtEpoch = 1; bool mt = false;
  uint64_t undefN = 0; int forks = 0; int nestSched = 0; uint64_t tick = 0;
  int ompMaxThreads = 4; int wantEnv = 0;
  Thread& T() { return th[cur]; }
};
