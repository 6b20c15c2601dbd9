// Hash-consed expression DAG (bit-vectors and IEEE floats carried as bit-vectors).
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE,
  // floating point (operands/results are IEEE bit patterns of width 32/64)
  SCALED,  // kid: BV64 signed x; value x*2^-aux, exactly representable, never -0
  FADD, FSUB, FMUL, FDIV, FSQRT, FRND, FNEG, FABS, FLT, FLE, FEQ, FFROMS, FFROMU, FTOS, FTOU, FCVT, FREM
};
inline bool isFPOp(Op o) {
  return o == SCALED || o == FADD || o == FSUB || o == FMUL || o == FDIV || o == FSQRT || o == FRND ||
         o == FNEG || o == FABS || o == FFROMS || o == FFROMU || o == FCVT || o == FREM;
}

struct Expr {
  Op op; uint16_t width; int32_t aux; uint32_t id; uint32_t hash;
  const Expr* k[3];
  u128 c;                 // CONST value
  uint64_t umin, umax;    // unsigned range (width<=64)
  int64_t smin, smax;     // signed range (width<=64)
};
typedef const Expr* E;

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sextW(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskW(w); return (i128)((v ^ s) - s); }
inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t s = 1ull << (w - 1); v &= mask64(w); return (int64_t)((v ^ s) - s); }

inline double asD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
inline uint64_t dBits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
inline float asF(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
inline uint32_t fBits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

// ---- concrete semantics of every op (used for folding and model evaluation)
inline uint64_t fpBin(Op o, unsigned w, uint64_t a, uint64_t b) {
  if (w == 64) {
    volatile double x = asD(a), y = asD(b), r = 0;
    switch (o) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; case FREM: r = std::fmod(x, y); break; default: assert(0); }
    return dBits(r);
  }
  volatile float x = asF(a), y = asF(b), r = 0;
  switch (o) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; case FREM: r = std::fmod((float)x, (float)y); break; default: assert(0); }
  return fBits(r);
}
enum Rnd { R_FLOOR = 0, R_CEIL = 1, R_TRUNC = 2, R_ROUND = 3 /*half away*/, R_RINT = 4 /*half even*/ };
inline double rndD(int m, double x) { switch (m) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::round(x); default: return std::nearbyint(x); } }
inline float rndF(int m, float x) { switch (m) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::round(x); default: return std::nearbyint(x); } }

inline u128 evalOp(Op op, unsigned w, int aux, const Expr* const* k, u128 a, u128 b, u128 c) {
  unsigned kw = k[0] ? k[0]->width : 0;
  u128 m = maskW(w);
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b == 0 ? m : (a / b) & m;
    case UREM: return b == 0 ? a : (a % b) & m;
    case SDIV: { i128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case SREM: { i128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case ASHR: { i128 x = sextW(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : (unsigned)b)) & m; }
    case CONCAT: return ((a << k[1]->width) | b) & m;
    case EXTRACT: return (a >> aux) & m;
    case ZEXT: return a;
    case SEXT: return (u128)sextW(a, kw) & m;
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sextW(a, kw) < sextW(b, kw);
    case SLE: return sextW(a, kw) <= sextW(b, kw);
    case ITE: return a ? b : c;
    case SCALED: { double d = std::ldexp((double)(int64_t)a, -aux); return w == 64 ? dBits(d) : fBits((float)d); }
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: return fpBin(op, w, (uint64_t)a, (uint64_t)b);
    case FSQRT: return w == 64 ? dBits(std::sqrt(asD(a))) : fBits(std::sqrt(asF(a)));
    case FRND: return w == 64 ? dBits(rndD(aux, asD(a))) : fBits(rndF(aux, asF(a)));
    case FNEG: return a ^ ((u128)1 << (w - 1));
    case FABS: return a & (maskW(w - 1));
    case FLT: return kw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case FLE: return kw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case FEQ: return kw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case FFROMS: { i128 x = sextW(a, kw); return w == 64 ? dBits((double)x) : fBits((float)x); }
    case FFROMU: { return w == 64 ? dBits((double)a) : fBits((float)a); }
    case FTOS: {  // x86 cvttsd2si semantics: out of range -> INT_MIN of the conversion width (32 or 64)
      double d = kw == 64 ? asD(a) : (double)asF(a);
      unsigned cw = w <= 32 ? 32 : 64;
      if (cw == 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return (u128)0x80000000u & m; return (u128)(uint32_t)(int32_t)d & m; }
      if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return ((u128)1 << 63) & m;
      return (u128)(uint64_t)(int64_t)d & m;
    }
    case FTOU: {  // as compiled for x86-64: <=32 via signed 64 conversion; 64 via two-way
      double d = kw == 64 ? asD(a) : (double)asF(a);
      auto s64 = [](double v) -> uint64_t { if (!(v >= -9223372036854775808.0 && v < 9223372036854775808.0)) return 1ull << 63; return (uint64_t)(int64_t)v; };
      if (w <= 32) return (u128)s64(d) & m;
      uint64_t lo = s64(d); uint64_t hi = s64(d - 9223372036854775808.0);
      return (u128)(lo | (hi & (uint64_t)((int64_t)lo >> 63))) & m;
    }
    case FCVT: { if (kw == w) return a; return w == 64 ? dBits((double)asF(a)) : fBits((float)asD(a)); }
    default: assert(0 && "evalOp"); return 0;
  }
}

struct Ctx {
  std::deque<Expr> arena;
  std::vector<std::vector<E>> tab;  // open hashing
  size_t count = 0;
  struct VarInfo { std::string name; unsigned width; };
  std::vector<VarInfo> vars;
  Ctx() { tab.resize(1 << 16); }
};
extern Ctx* CX;

inline uint32_t hmix(uint32_t h, uint64_t v) { uint64_t x = (h ^ v) * 0x9E3779B97F4A7C15ull; return (uint32_t)(x >> 29) ^ (uint32_t)x; }

inline void computeRange(Expr& e) {
  unsigned w = e.width;
  if (w > 64) { e.umin = 0; e.umax = ~0ull; e.smin = INT64_MIN; e.smax = INT64_MAX; return; }
  uint64_t M = mask64(w);
  uint64_t umin = 0, umax = M; int64_t smin = sext64(1ull << (w - 1), w), smax = (int64_t)(M >> 1);
  auto K = [&](int i) { return e.k[i]; };
  bool ok64 = e.k[0] && e.k[0]->width <= 64;
  auto setU = [&](u128 lo, u128 hi) { if (hi <= M) { umin = (uint64_t)lo; umax = (uint64_t)hi; } };
  auto setS = [&](i128 lo, i128 hi) { if (lo >= (i128)smin && hi <= (i128)smax) { smin = (int64_t)lo; smax = (int64_t)hi; } };
  switch (e.op) {
    case CONST: umin = umax = (uint64_t)e.c; smin = smax = sext64((uint64_t)e.c, w); e.umin = umin; e.umax = umax; e.smin = smin; e.smax = smax; return;
    case VAR: if (e.umax) { umin = e.umin; umax = e.umax; } break;
    case ADD: setU((u128)K(0)->umin + K(1)->umin, (u128)K(0)->umax + K(1)->umax); setS((i128)K(0)->smin + K(1)->smin, (i128)K(0)->smax + K(1)->smax); break;
    case SUB: setS((i128)K(0)->smin - K(1)->smax, (i128)K(0)->smax - K(1)->smin); if (K(0)->umin >= K(1)->umax) setU(K(0)->umin - K(1)->umax, K(0)->umax - K(1)->umin); break;
    case MUL: {
      setU((u128)K(0)->umin * K(1)->umin, (u128)K(0)->umax * K(1)->umax);
      i128 p[4] = {(i128)K(0)->smin * K(1)->smin, (i128)K(0)->smin * K(1)->smax, (i128)K(0)->smax * K(1)->smin, (i128)K(0)->smax * K(1)->smax};
      i128 lo = p[0], hi = p[0]; for (int i = 1; i < 4; i++) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
      setS(lo, hi); break; }
    case UDIV: if (K(1)->umin > 0) setU(K(0)->umin / K(1)->umax, K(0)->umax / K(1)->umin); break;
    case UREM: if (K(1)->umin > 0) { uint64_t hi = K(1)->umax - 1; if (K(0)->umax < hi) hi = K(0)->umax; setU(0, hi); } break;
    case SDIV: if (K(1)->smin > 0) { i128 a = (i128)K(0)->smin, b = (i128)K(0)->smax; i128 lo = a < 0 ? a / K(1)->smin : a / K(1)->smax; i128 hi = b > 0 ? b / K(1)->smin : b / K(1)->smax; setS(lo, hi); } break;
    case SREM: if (K(1)->smin > 0) { i128 hi = (i128)K(1)->smax - 1; i128 lo = K(0)->smin < 0 ? -hi : 0; if (K(0)->smin >= 0 && K(0)->smax < hi) hi = K(0)->smax; setS(lo, hi); } break;
    case AND: setU(0, K(0)->umax < K(1)->umax ? K(0)->umax : K(1)->umax); break;
    case OR: case XOR: { uint64_t x = K(0)->umax | K(1)->umax; unsigned b = x ? 64 - __builtin_clzll(x) : 0; uint64_t hi = b >= 64 ? ~0ull : ((1ull << b) - 1); uint64_t lo = e.op == OR ? (K(0)->umin > K(1)->umin ? K(0)->umin : K(1)->umin) : 0; setU(lo, hi & M); break; }
    case SHL: if (K(1)->op == CONST && K(1)->umax < w) { setU((u128)K(0)->umin << K(1)->umax, (u128)K(0)->umax << K(1)->umax); i128 f = (i128)1 << K(1)->umax; setS((i128)K(0)->smin * f, (i128)K(0)->smax * f); } break;
    case LSHR: if (K(1)->op == CONST && K(1)->umax < w) setU(K(0)->umin >> K(1)->umax, K(0)->umax >> K(1)->umax); else setU(0, K(0)->umax); break;
    case ASHR: if (K(1)->op == CONST && K(1)->umax < w) setS(K(0)->smin >> K(1)->umax, K(0)->smax >> K(1)->umax); break;
    case CONCAT: if (K(0)->width <= 64 && K(1)->width <= 64) setU(((u128)K(0)->umin << K(1)->width) + K(1)->umin, ((u128)K(0)->umax << K(1)->width) + K(1)->umax); break;
    case EXTRACT: if (ok64 && e.aux == 0) { if (K(0)->umax <= M) setU(K(0)->umin, K(0)->umax); setS(K(0)->smin, K(0)->smax); if (!(K(0)->smin >= (int64_t)smin)) {} } else if (ok64) { uint64_t h = K(0)->umax >> e.aux; if (h <= M) setU(K(0)->umin >> e.aux, h); } break;
    case ZEXT: setU(K(0)->umin, K(0)->umax); break;
    case SEXT: setS(K(0)->smin, K(0)->smax); break;
    case ITE: setU(K(1)->umin < K(2)->umin ? K(1)->umin : K(2)->umin, K(1)->umax > K(2)->umax ? K(1)->umax : K(2)->umax); setS(K(1)->smin < K(2)->smin ? K(1)->smin : K(2)->smin, K(1)->smax > K(2)->smax ? K(1)->smax : K(2)->smax); break;
    default: break;
  }
  // cross-derive
  if (umax <= (M >> 1)) { if ((int64_t)umin > smin) smin = (int64_t)umin; if ((int64_t)umax < smax) smax = (int64_t)umax; }
  if (smin >= 0) { if ((uint64_t)smin > umin) umin = (uint64_t)smin; if ((uint64_t)smax < umax) umax = (uint64_t)smax; }
  if (smax < 0) { uint64_t lo = (uint64_t)smin & M, hi = (uint64_t)smax & M; if (lo > umin) umin = lo; if (hi < umax) umax = hi; }
  e.umin = umin; e.umax = umax; e.smin = smin; e.smax = smax;
}

inline E intern(Expr& t) {
  uint32_t h = hmix(hmix(t.op * 131 + t.width, (uint32_t)t.aux), (uint64_t)t.c ^ (uint64_t)(t.c >> 64));
  for (int i = 0; i < 3; i++) h = hmix(h, t.k[i] ? t.k[i]->id + 1 : 0);
  t.hash = h;
  auto& b = CX->tab[h & (CX->tab.size() - 1)];
  for (E e : b)
    if (e->hash == h && e->op == t.op && e->width == t.width && e->aux == t.aux && e->c == t.c && e->k[0] == t.k[0] && e->k[1] == t.k[1] && e->k[2] == t.k[2]) return e;
  t.id = CX->arena.size();
  computeRange(t);
  CX->arena.push_back(t);
  E r = &CX->arena.back();
  b.push_back(r);
  if (++CX->count > CX->tab.size() * 2) {
    std::vector<std::vector<E>> nt(CX->tab.size() * 4);
    for (auto& v : CX->tab) for (E e : v) nt[e->hash & (nt.size() - 1)].push_back(e);
    CX->tab.swap(nt);
  }
  return r;
}
inline E mkC(u128 v, unsigned w) { Expr t{}; t.op = CONST; t.width = w; t.c = v & maskW(w); return intern(t); }
inline E mkVar(const std::string& n, unsigned w, uint64_t umin = 0, uint64_t umax = 0) {
  Expr t{}; t.op = VAR; t.width = w; t.aux = (int)CX->vars.size(); CX->vars.push_back({n, w}); t.umin = umin; t.umax = umax; return intern(t);
}
inline E rawN(Op op, unsigned w, int aux, E a, E b = nullptr, E c = nullptr) { Expr t{}; t.op = op; t.width = w; t.aux = aux; t.k[0] = a; t.k[1] = b; t.k[2] = c; return intern(t); }
inline bool isC(E e) { return e->op == CONST; }
inline bool isC(E e, u128 v) { return e->op == CONST && e->c == (v & maskW(e->width)); }

E mkITE(E c, E a, E b);
E mkBin(Op op, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkConcat(E hi, E lo);
E mkScaled(E x, int s, unsigned w = 64);
E mkFBin(Op op, E a, E b);
E mkFCmp(Op op, E a, E b);
E mkFNeg(E a);
E mkFAbs(E a);
E mkFRnd(int mode, E a);
E mkFSqrt(E a);
E mkSIToFP(E a, unsigned w);
E mkUIToFP(E a, unsigned w);
E mkFPToSI(E a, unsigned w);
E mkFPToUI(E a, unsigned w);
E mkFCvt(E a, unsigned w);
inline E mkNot(E a) { return mkBin(XOR, a, mkC(1, 1)); }
inline E mkAndB(E a, E b) { return mkBin(AND, a, b); }
inline E mkOrB(E a, E b) { return mkBin(OR, a, b); }
inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
inline E mkTrue() { return mkC(1, 1); }
inline E mkFalse() { return mkC(0, 1); }
std::string exprStr(E e, int depth = 6);
