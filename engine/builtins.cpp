#include "engine.hpp"
#include <complex>
#include <llvm/IR/Intrinsics.h>
#include <algorithm>
using namespace llvm;
#define BF(name) static BRes name(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res)
#define UNUSED (void)en; (void)s; (void)d; (void)a; (void)res
static Val cv(uint64_t c) { Val v; v.c = c; return v; }
static std::string cstr(Engine& en, State& s, const Val& v) { std::string o; if (!v.e) en.readCStr(s, v.c, o); return o; }
static const char* intern_name(Engine& en, const std::string& n) { return en.nameset.insert(n).first->c_str(); }

// ---------------------------------------------------------------- harness API
static E symVar(Engine& en, State& s, const std::string& nm, unsigned w, uint64_t umax) {
  const char* n = intern_name(en, nm);
  E e;
  if (en.replaying) { u128 x = s.inputs.size() < en.replayVals.size() ? en.replayVals[s.inputs.size()] : 0; e = mkC(x, w); }
  else e = en.newVar(s, nm, w, 0, umax);
  (void)n; return e;
}
static void record(Engine& en, State& s, E e, unsigned w, const std::string& nm) { s.inputs.push_back({e, (uint8_t)w, intern_name(en, nm)}); }
template <int W> static BRes symW(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {
  (void)d; std::string nm = cstr(en, s, a[0]); E e = symVar(en, s, nm, W, 0); record(en, s, e, W, nm); res.push_back(en.fromE(e)); return B_DONE;
}
BF(sym_range) {
  UNUSED; if (!en.concretize(s, a[0], 64) || !en.concretize(s, a[1], 64)) return B_STOP;
  std::string nm = cstr(en, s, a[2]); int64_t lo = (int64_t)a[0].c, hi = (int64_t)a[1].c; 
  if (lo > hi) { en.violation(s, "harness", "sym_range with an empty range", s.model); return B_STOP; }
  uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
  E v;
  if (en.replaying) { u128 x = s.inputs.size() < en.replayVals.size() ? en.replayVals[s.inputs.size()] : (u128)(uint64_t)lo; v = mkC(x, 64); }
  else if (span == 0) v = mkC((uint64_t)lo, 64);
  else { E x = en.newVar(s, nm, w, 0, span == mask64(w) ? 0 : span); v = mkBin(ADD, mkZExt(x, 64), mkC((uint64_t)lo, 64)); }
  record(en, s, v, 64, nm); res.push_back(en.fromE(v)); return B_DONE;
}
BF(sym_double_grid) {  // (lo, hi, shift, name): x * 2^-shift for integer x in [lo, hi]
  UNUSED; int64_t lo = (int64_t)a[0].c, hi = (int64_t)a[1].c; int sh = (int)a[2].c; std::string nm = cstr(en, s, a[3]);
  uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
  E v;
  if (en.replaying) { u128 x = s.inputs.size() < en.replayVals.size() ? en.replayVals[s.inputs.size()] : 0; v = mkC(x, 64); }
  else if (span == 0) v = mkScaled(mkC((uint64_t)lo, 64), sh);
  else { E x = en.newVar(s, nm, w, 0, span == mask64(w) ? 0 : span); v = mkScaled(mkBin(ADD, mkZExt(x, 64), mkC((uint64_t)lo, 64)), sh); }
  record(en, s, v, 64, nm); res.push_back(en.fromE(v)); return B_DONE;
}
BF(sym_choice) {
  UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; uint64_t n = a[0].c; std::string nm = cstr(en, s, a[1]);
  if (en.replaying) { u128 x = s.inputs.size() < en.replayVals.size() ? en.replayVals[s.inputs.size()] : 0; record(en, s, mkC(x, 64), 64, nm); res.push_back(cv((uint64_t)x)); return B_DONE; }
  if (n <= 1) { record(en, s, mkC(0, 64), 64, nm); res.push_back(cv(0)); return B_DONE; }
  unsigned w = 1; while ((n - 1) >> w) w++;
  int save = s.nsym; E x = en.newVar(s, nm, w, 0, n - 1 == mask64(w) ? 0 : n - 1);
  Val v = en.fromE(x); s.nsym = save; if (!en.concretize(s, v, w)) return B_STOP; s.nsym = save + 1;
  record(en, s, mkC(v.c, 64), 64, nm); res.push_back(cv(v.c)); return B_DONE;
}
BF(sym_concretize) { UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; res.push_back(a[0]); return B_DONE; }
BF(sym_assume) {
  UNUSED; if (!a[0].e) { if (a[0].c) return B_DONE; en.assumes[en.where(s)]++; return B_STOP; }
  E c = mkExtract(a[0].e, 0, 1);
  if (isC(c)) { if (c->c) return B_DONE; en.assumes[en.where(s)]++; return B_STOP; }
  bool v; if (en.inPC(s, c, v)) { if (v) return B_DONE; en.assumes[en.where(s)]++; return B_STOP; }
  if (s.model->eval(c) == 0) { ModelP m; Res r = en.S.check(s.pc, c, s.model, m); if (r == UNSAT) { en.assumes[en.where(s)]++; return B_STOP; } if (r == UNKNOWN) { en.unsupported(s, "solver gave no answer"); return B_STOP; } s.model = m; }
  en.addPC(s, c); return B_DONE;
}
BF(sym_assert) {
  UNUSED; en.nAssert++; if (!en.concretize(s, a[1], 64)) return B_STOP; std::string msg = cstr(en, s, a[1]);
  if (!a[0].e) { if (a[0].c) { return B_DONE; } en.violation(s, "assert", msg, s.model); return B_STOP; }
  E c = mkExtract(a[0].e, 0, 1), n = mkNot(c); en.nChecks++;
  if (isC(c)) { if (c->c) return B_DONE; en.violation(s, "assert", msg, s.model); return B_STOP; }
  if (s.model->eval(c) == 0) { en.violation(s, "assert", msg, s.model); return B_STOP; }
  ModelP m; Res r = en.S.check(s.pc, n, s.model, m);
  if (r == SAT) { en.violation(s, "assert", msg, m); en.addPC(s, c); return B_DONE; }
  if (r == UNKNOWN) { en.nIncomplete++; en.unsup["solver gave no answer for: " + msg]++; en.addPC(s, c); }
  return B_DONE;
}
BF(sym_fail) { UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; en.nAssert++; en.violation(s, "assert", cstr(en, s, a[0]), s.model); return B_STOP; }
BF(sym_cover) { UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; en.covers[cstr(en, s, a[0])]++; return B_DONE; }
BF(sym_observe) { UNUSED; s.obs.push_back({en.toE(a[0], 64), 64, "o"}); return B_DONE; }
BF(sym_param) { UNUSED; std::string n = cstr(en, s, a[0]); auto it = en.O.params.find(n); res.push_back(it == en.O.params.end() ? a[1] : cv((uint64_t)it->second)); return B_DONE; }
BF(sym_engine) { UNUSED; res.push_back(cv(1)); return B_DONE; }
BF(sym_stop) { UNUSED; en.endPath(s); return B_STOP; }
BF(sym_live_heap) { UNUSED; uint64_t n = 0; for (auto& S : s.mem.t) if (S) for (int i = 0; i < 64; i++) if (S->c[i]) for (int j = 0; j < 32; j++) if (S->c[i]->o[j] && S->c[i]->o[j]->kind == K_HEAP) n++; res.push_back(cv(n)); return B_DONE; }
BF(sym_log) { UNUSED; s.log.push_back(cstr(en, s, a[0])); return B_DONE; }
BF(sym_yield) { UNUSED; if (!en.syncPoint(s)) return B_RETRY; return B_DONE; }
BF(b_sleep) { UNUSED; if (!en.syncPoint(s)) return B_RETRY; res.push_back(cv(0)); return B_DONE; }
BF(sym_thread_id) { UNUSED; res.push_back(cv(s.cur)); return B_DONE; }
BF(sym_thread_count) { UNUSED; res.push_back(cv(s.th.size())); return B_DONE; }
BF(sym_env_choice) { UNUSED; int r = en.envChoice(s, (int)a[0].c, (int)a[1].c, cstr(en, s, a[2]).c_str()); if (r < 0) return B_STOP; res.push_back(cv(r)); return B_DONE; }

// ---------------------------------------------------------------- allocation
static BRes doAlloc(Engine& en, State& s, Val n, int kind, bool nothrow, std::vector<Val>& res, bool zero = false) {
  if (n.e) {
    int k = en.decide(s, mkBin(ULE, n.e, mkC(en.O.mallocCap, 64))); if (k < 0) return B_STOP;
    if (!k) { if (nothrow) { res.push_back(cv(0)); return B_DONE; } return en.throwStd(s, "_ZTISt9bad_alloc") ? B_UNWIND : B_STOP; }
    if (!en.concretize(s, n, 64)) return B_STOP;
  }
  if (n.c > (64ull << 20)) { if (nothrow) { res.push_back(cv(0)); return B_DONE; } return en.throwStd(s, "_ZTISt9bad_alloc") ? B_UNWIND : B_STOP; }
  uint64_t p = en.alloc(s, n.c, K_HEAP, kind); if (zero) s.mem.getW(p >> ASHIFT)->uninit.clear();
  res.push_back(cv(p)); return B_DONE;
}
BF(b_new) { UNUSED; return doAlloc(en, s, a[0], 2, false, res); }
BF(b_newarr) { UNUSED; return doAlloc(en, s, a[0], 3, false, res); }
BF(b_new_nt) { UNUSED; return doAlloc(en, s, a[0], 2, true, res); }
BF(b_malloc) { UNUSED; return doAlloc(en, s, a[0], 1, true, res); }
BF(b_calloc) { UNUSED; Val n; if (a[0].e || a[1].e) n = en.fromE(mkBin(MUL, en.toE(a[0], 64), en.toE(a[1], 64))); else n.c = a[0].c * a[1].c; return doAlloc(en, s, n, 1, true, res, true); }
BF(b_free) { UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; return en.freeObj(s, a[0].c, 0) ? B_DONE : B_STOP; }
BF(b_aligned) { UNUSED; return doAlloc(en, s, a[1], 1, true, res); }

// ---------------------------------------------------------------- memory functions
BF(b_memcpy) { UNUSED; if (!en.concreteLen(s, a[2], {{&a[0], true}, {&a[1], false}})) return B_STOP; if (!en.memcopy(s, a[0], a[1], a[2].c)) return B_STOP; res.push_back(a[0]); return B_DONE; }
BF(b_memset) { UNUSED; if (!en.concreteLen(s, a[2], {{&a[0], true}})) return B_STOP; Val b = a[1]; if (b.e) b = en.fromE(mkExtract(b.e, 0, 8)); else b.c &= 255; if (!en.memfill(s, a[0], b, a[2].c)) return B_STOP; res.push_back(a[0]); return B_DONE; }
static BRes cmpMem(Engine& en, State& s, std::vector<Val>& a, std::vector<Val>& res, bool eqOnly) {
  if (!en.concreteLen(s, a[2], {{&a[0], false}, {&a[1], false}})) return B_STOP; uint64_t n = a[2].c;
  if (!n) { res.push_back(cv(0)); return B_DONE; }
  Engine::Acc x, y; if (en.resolve(s, a[0], n, false, x, true) != 1 || en.resolve(s, a[1], n, false, y, true) != 1) return B_STOP;
  if (s.mt) { if (!en.raceCheck(s, x.id, x.off, n, false, false) || !en.raceCheck(s, y.id, y.off, n, false, false)) return B_STOP; }
  E r = mkC(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    E p = en.toE(en.byteAt(s, s.mem.get(x.id), x.off + i), 8), q = en.toE(en.byteAt(s, s.mem.get(y.id), y.off + i), 8);
    E ne = mkNot(mkEq(p, q));
    r = mkITE(ne, eqOnly ? mkC(1, 32) : mkITE(mkBin(ULT, p, q), mkC((uint32_t)-1, 32), mkC(1, 32)), r);
  }
  res.push_back(en.fromE(r)); return B_DONE;
}
BF(b_memcmp) { UNUSED; return cmpMem(en, s, a, res, false); }
BF(b_bcmp) { UNUSED; return cmpMem(en, s, a, res, true); }
BF(b_memchr) {
  UNUSED; if (!en.concreteLen(s, a[2], {{&a[0], false}})) return B_STOP; if (!en.concretize(s, a[0], 64)) return B_STOP; uint64_t n = a[2].c; E c = mkExtract(en.toE(a[1], 32), 0, 8); E r = mkC(0, 64);
  if (n) { Engine::Acc x; if (en.resolve(s, a[0], n, false, x, true) != 1) return B_STOP; for (uint64_t i = n; i-- > 0;) r = mkITE(mkEq(en.toE(en.byteAt(s, s.mem.get(x.id), x.off + i), 8), c), mkC(a[0].c + i, 64), r); }
  res.push_back(en.fromE(r)); return B_DONE;
}
BF(b_strlen) {
  UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; uint64_t id = a[0].c >> ASHIFT, off = a[0].c - addrOf(id); const Obj* o = s.mem.get(id);
  for (uint64_t i = off;; i++) {
    if (!o || i >= o->size) { en.violation(s, "memory", "string read past the end of its buffer", s.model); return B_STOP; }
    Val b = en.byteAt(s, o, i); o = s.mem.get(id); E z = mkEq(en.toE(b, 8), mkC(0, 8)); int k = en.decide(s, z); if (k < 0) return B_STOP; if (k) { res.push_back(cv(i - off)); return B_DONE; }
  }
}

// ---------------------------------------------------------------- numeric
static unsigned fw(const DInst& d, Engine& en, int arg = 0) { return en.ti(cast<CallBase>(d.I)->getArgOperand(arg)->getType())->leaves[0].w; }
template <int MODE> static BRes b_rnd(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) { (void)s; unsigned w = fw(d, en); for (auto& v : a) res.push_back(en.fromE(mkFRnd(MODE, en.toE(v, w)))); return B_DONE; }
BF(b_fabs) { UNUSED; unsigned w = fw(d, en); for (auto& v : a) res.push_back(en.fromE(mkFAbs(en.toE(v, w)))); return B_DONE; }
BF(b_sqrt) { UNUSED; unsigned w = fw(d, en); for (auto& v : a) res.push_back(en.fromE(mkFSqrt(en.toE(v, w)))); return B_DONE; }
// fmod of a symbolic double by a positive constant y: subtract y*8, y*4, y*2, y where they fit. Every step is exact (t <= x < 2t), so this is
// fmod itself for |x| < 16y; beyond that the solver's own remainder is used.
BF(b_fmod) {
  UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w), y = en.toE(a[1], w); double yd = w == 64 && isC(y) ? asD(y->c) : 0;
  if (w == 64 && !isC(x) && yd > 1e-100 && yd < 1e100) {
    E neg = mkFCmp(FLT, x, mkC(dBits(0.0), 64)); int k = en.decide(s, neg); if (k < 0) return B_STOP; bool sg = k;
    E ax = mkFAbs(x); k = en.decide(s, mkFCmp(FLT, ax, mkC(dBits(16 * yd), 64))); if (k < 0) return B_STOP;
    if (k) {
      int n = 0;
      for (double t = 8 * yd; t >= yd; t /= 2) { k = en.decide(s, mkFCmp(FLE, mkC(dBits(t), 64), ax)); if (k < 0) return B_STOP; if (k) { ax = mkFBin(FSUB, ax, mkC(dBits(t), 64)); n++; } }
      if (!n) { res.push_back(en.fromE(x)); return B_DONE; }
      res.push_back(en.fromE(sg ? mkFNeg(ax) : ax)); return B_DONE;
    }
  }
  res.push_back(en.fromE(mkFBin(FREM, x, y))); return B_DONE;
}
static BRes fminmax(Engine& en, const DInst& d, std::vector<Val>& a, std::vector<Val>& res, bool mn) {
  unsigned w = fw(d, en); size_t n = a.size() / 2;
  for (size_t i = 0; i < n; i++) { E x = en.toE(a[i], w), y = en.toE(a[i + n], w); E lt = mn ? mkFCmp(FLT, y, x) : mkFCmp(FLT, x, y); E xnan = mkNot(mkFCmp(FEQ, x, x)); res.push_back(en.fromE(mkITE(mkOrB(lt, xnan), y, x))); }
  return B_DONE;
}
BF(b_fmin) { UNUSED; return fminmax(en, d, a, res, true); }
BF(b_fmax) { UNUSED; return fminmax(en, d, a, res, false); }
BF(b_fma) { UNUSED; unsigned w = fw(d, en); size_t n = a.size() / 3; for (size_t i = 0; i < n; i++) res.push_back(en.fromE(mkFBin(FADD, mkFBin(FMUL, en.toE(a[i], w), en.toE(a[i + n], w)), en.toE(a[i + 2 * n], w)))); return B_DONE; }
BF(b_copysign) { UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w), y = en.toE(a[1], w); E m = mkC((u128)1 << (w - 1), w); E yneg = mkEq(mkBin(AND, y, m), m);
  if (isC(x) && isC(y)) { res.push_back(en.fromE(mkC((x->c & maskW(w - 1)) | (y->c & ((u128)1 << (w - 1))), w))); return B_DONE; }
  E ax = mkFAbs(x); res.push_back(en.fromE(mkITE(yneg, mkFNeg(ax), ax))); return B_DONE; }
BF(b_lround) { UNUSED; unsigned w = fw(d, en); res.push_back(en.fromE(mkFPToSI(mkFRnd(R_ROUND, en.toE(a[0], w)), 64))); return B_DONE; }
BF(b_lrint) { UNUSED; unsigned w = fw(d, en); res.push_back(en.fromE(mkFPToSI(mkFRnd(R_RINT, en.toE(a[0], w)), 64))); return B_DONE; }
BF(b_libm) {
  UNUSED; unsigned w = fw(d, en); for (auto& v : a) if (v.e) { en.unsupported(s, "transcendental function " + d.cname + " of a symbolic value"); return B_STOP; }
  std::string n = d.cname; if (n.compare(0, 5, "llvm.") == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); } if (w == 32 && n.back() == 'f') n.pop_back(); if (n.size() > 2 && n.back() == 'l') n.pop_back();
  double x = w == 64 ? asD(a[0].c) : asF(a[0].c), y = a.size() > 1 ? (w == 64 ? asD(a[1].c) : asF(a[1].c)) : 0, r;
  if (n == "sin") r = std::sin(x); else if (n == "cos") r = std::cos(x); else if (n == "tan") r = std::tan(x); else if (n == "asin") r = std::asin(x); else if (n == "acos") r = std::acos(x); else if (n == "atan") r = std::atan(x); else if (n == "atan2") r = std::atan2(x, y); else if (n == "exp") r = std::exp(x); else if (n == "log") r = std::log(x); else if (n == "log2") r = std::log2(x); else if (n == "log10") r = std::log10(x); else if (n == "exp2") r = std::exp2(x); else if (n == "pow") r = std::pow(x, y); else if (n == "hypot") r = std::hypot(x, y); else if (n == "remainder") r = std::remainder(x, y); else if (n == "cbrt") r = std::cbrt(x); else if (n == "sinh") r = std::sinh(x); else if (n == "cosh") r = std::cosh(x); else if (n == "tanh") r = std::tanh(x); else if (n == "asinh") r = std::asinh(x); else if (n == "acosh") r = std::acosh(x); else if (n == "atanh") r = std::atanh(x); else if (n == "expm1") r = std::expm1(x); else if (n == "log1p") r = std::log1p(x); else if (n == "erf") r = std::erf(x); else if (n == "erfc") r = std::erfc(x); else if (n == "tgamma") r = std::tgamma(x); else if (n == "lgamma") r = std::lgamma(x); else if (n == "nextafter") r = std::nextafter(x, y); else { en.unsupported(s, d.cname); return B_STOP; }
  res.push_back(cv(w == 64 ? dBits(r) : fBits((float)r))); return B_DONE;
}
template <bool DIV> static BRes b_cplx(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {
  for (auto& v : a) if (v.e) { en.unsupported(s, d.cname + " of a symbolic value"); return B_STOP; }
  std::complex<double> x(asD(a[0].c), asD(a[1].c)), y(asD(a[2].c), asD(a[3].c)), r = DIV ? x / y : x * y;
  res.push_back(cv(dBits(r.real()))); res.push_back(cv(dBits(r.imag()))); return B_DONE;
}
BF(b_cfn) {
  UNUSED; for (auto& v : a) if (v.e) { en.unsupported(s, d.cname + " of a symbolic value"); return B_STOP; }
  std::complex<double> x(asD(a[0].c), asD(a[1].c)), r; const std::string& n = d.cname;
  if (n == "cabs" || n == "carg") { res.push_back(cv(dBits(n == "cabs" ? std::abs(x) : std::arg(x)))); return B_DONE; }
  r = n == "csqrt" ? std::sqrt(x) : n == "clog" ? std::log(x) : std::exp(x);
  res.push_back(cv(dBits(r.real()))); res.push_back(cv(dBits(r.imag()))); return B_DONE;
}
BF(b_ilogb) { UNUSED; if (a[0].e) { en.unsupported(s, "ilogb"); return B_STOP; } res.push_back(cv((uint32_t)std::ilogb(asD(a[0].c)))); return B_DONE; }
// a power of two scales exactly, or rounds once
BF(b_ldexp) {
  UNUSED; if (!en.concretize(s, a[1], 32)) return B_STOP; int n = (int)(int32_t)a[1].c;
  if (!a[0].e) { res.push_back(cv(dBits(std::ldexp(asD(a[0].c), n)))); return B_DONE; }
  if (n < -1022 || n > 1023) { en.unsupported(s, "ldexp"); return B_STOP; }
  res.push_back(en.fromE(mkFBin(FMUL, en.toE(a[0], 64), mkC(dBits(std::ldexp(1.0, n)), 64)))); return B_DONE;
}
BF(b_powi) { UNUSED; if (a[1].e) { en.unsupported(s, "powi"); return B_STOP; } unsigned w = fw(d, en); int n = (int)(int32_t)a[1].c; E x = en.toE(a[0], w); bool neg = n < 0; if (neg) n = -n; E r = mkC(w == 64 ? dBits(1.0) : fBits(1.0f), w); for (int i = 0; i < n; i++) r = mkFBin(FMUL, r, x); if (neg) r = mkFBin(FDIV, mkC(w == 64 ? dBits(1.0) : fBits(1.0f), w), r); res.push_back(en.fromE(r)); return B_DONE; }
static E minmaxE(int k, E x, E y) { switch (k) { case 0: return mkITE(mkBin(ULT, x, y), x, y); case 1: return mkITE(mkBin(ULT, x, y), y, x); case 2: return mkITE(mkBin(SLT, x, y), x, y); default: return mkITE(mkBin(SLT, x, y), y, x); } }
template <int K> static BRes b_mm(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) { (void)s; unsigned w = fw(d, en); size_t n = a.size() / 2; for (size_t i = 0; i < n; i++) res.push_back(en.fromE(minmaxE(K, en.toE(a[i], w), en.toE(a[i + n], w)))); return B_DONE; }
BF(b_abs) { UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w); res.push_back(en.fromE(mkITE(mkBin(SLT, x, mkC(0, w)), mkBin(SUB, mkC(0, w), x), x))); return B_DONE; }
BF(b_bswap) { UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w); E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } res.push_back(en.fromE(r)); return B_DONE; }
BF(b_bitreverse) { UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w); E r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } res.push_back(en.fromE(r)); return B_DONE; }
BF(b_ctpop) { UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w); E r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(x, i, 1), w)); res.push_back(en.fromE(r)); return B_DONE; }
BF(b_ctlz) { UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w); E r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkITE(mkEq(mkExtract(x, i, 1), mkC(1, 1)), mkC(w - 1 - i, w), r); res.push_back(en.fromE(r)); return B_DONE; }
BF(b_cttz) { UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w); E r = mkC(w, w); for (unsigned i = w; i-- > 0;) r = mkITE(mkEq(mkExtract(x, i, 1), mkC(1, 1)), mkC(i, w), r); res.push_back(en.fromE(r)); return B_DONE; }
template <bool L> static BRes b_fsh(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {
  (void)s; unsigned w = fw(d, en); E x = en.toE(a[0], w), y = en.toE(a[1], w), z = en.toE(a[2], w);
  if (isC(z)) { unsigned n = (unsigned)(z->c % w); if (!L) n = n ? w - n : 0; if (!L && !n) { res.push_back(a[1]); return B_DONE; } if (!n) { res.push_back(a[0]); return B_DONE; } res.push_back(en.fromE(mkConcat(mkExtract(x, 0, w - n), mkExtract(y, w - n, n)))); return B_DONE; }
  E m = mkBin(UREM, z, mkC(w, w)), inv = mkBin(SUB, mkC(w, w), m); E r = L ? mkBin(OR, mkBin(SHL, x, m), mkBin(LSHR, y, inv)) : mkBin(OR, mkBin(SHL, x, inv), mkBin(LSHR, y, m)); res.push_back(en.fromE(r)); return B_DONE;
}
template <int K> static BRes b_ovf(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {  // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
  unsigned w = fw(d, en); E x = en.toE(a[0], w), y = en.toE(a[1], w); E r, o;
  if (w > 64) { en.unsupported(s, "wide overflow intrinsic"); return B_STOP; }
  switch (K) {
    case 0: r = mkBin(ADD, x, y); o = mkBin(ULT, r, x); break;
    case 1: r = mkBin(SUB, x, y); o = mkBin(ULT, x, y); break;
    case 2: { r = mkBin(MUL, x, y); if ((u128)x->umax * y->umax <= mask64(w)) o = mkFalse(); else if (isC(y) && y->c) o = mkBin(ULT, mkC(mask64(w) / (uint64_t)y->c, w), x); else if (isC(x) && x->c) o = mkBin(ULT, mkC(mask64(w) / (uint64_t)x->c, w), y); else { E p = mkBin(MUL, mkZExt(x, 2 * w), mkZExt(y, 2 * w)); o = mkNot(mkEq(mkExtract(p, w, w), mkC(0, w))); } break; }
    case 3: { r = mkBin(ADD, x, y); E p = mkBin(ADD, mkSExt(x, w + 1), mkSExt(y, w + 1)); o = mkNot(mkEq(p, mkSExt(r, w + 1))); i128 lo = (i128)x->smin + y->smin, hi = (i128)x->smax + y->smax; if (lo >= sext64(1ull << (w - 1), w) && hi <= (i128)(mask64(w) >> 1)) o = mkFalse(); break; }
    case 4: { r = mkBin(SUB, x, y); E p = mkBin(SUB, mkSExt(x, w + 1), mkSExt(y, w + 1)); o = mkNot(mkEq(p, mkSExt(r, w + 1))); i128 lo = (i128)x->smin - y->smax, hi = (i128)x->smax - y->smin; if (lo >= sext64(1ull << (w - 1), w) && hi <= (i128)(mask64(w) >> 1)) o = mkFalse(); break; }
    default: { r = mkBin(MUL, x, y); E p = mkBin(MUL, mkSExt(x, 2 * w), mkSExt(y, 2 * w)); o = mkNot(mkEq(p, mkSExt(r, 2 * w))); break; }
  }
  res.push_back(en.fromE(r)); res.push_back(en.fromE(o)); return B_DONE;
}
template <int K> static BRes b_sat(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) { (void)s; unsigned w = fw(d, en); E x = en.toE(a[0], w), y = en.toE(a[1], w); E r = K == 0 ? mkITE(mkBin(ULT, mkBin(ADD, x, y), x), mkC(maskW(w), w), mkBin(ADD, x, y)) : mkITE(mkBin(ULT, x, y), mkC(0, w), mkBin(SUB, x, y)); res.push_back(en.fromE(r)); return B_DONE; }
BF(b_first) { UNUSED; res.push_back(a[0]); return B_DONE; }
BF(b_objectsize) { UNUSED; res.push_back(cv(~0ull & mask64(en.ti(d.I->getType())->leaves[0].w))); return B_DONE; }
BF(b_zero) { UNUSED; for (int i = 0; i < d.ndst; i++) res.push_back(cv(0)); return B_DONE; }
BF(b_false) { UNUSED; res.push_back(cv(0)); return B_DONE; }
BF(b_threadlocal) { UNUSED; res.push_back(a[0]); return B_DONE; }
BF(b_isfpclass) {
  UNUSED; unsigned w = fw(d, en); E x = en.toE(a[0], w); uint64_t m = a[1].c; E r = mkFalse(); u128 inf = w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u;
  E I = mkC(inf, w), NI = mkC(inf | ((u128)1 << (w - 1)), w); E nan = mkNot(mkFCmp(FEQ, x, x)); E pinf = mkFCmp(FEQ, x, I), ninf = mkFCmp(FEQ, x, NI); E z = mkFCmp(FEQ, x, mkC(0, w));
  if ((m & 3) == 3) r = mkOrB(r, nan); else if (m & 3) { en.unsupported(s, "is.fpclass nan kinds"); return B_STOP; }
  if (m & 4) r = mkOrB(r, ninf); if (m & 512) r = mkOrB(r, pinf);
  E Z = mkC(0, w), mn = mkC(w == 64 ? (u128)0x0010000000000000ull : (u128)0x00800000u, w), nmn = mkC((w == 64 ? (u128)0x0010000000000000ull : (u128)0x00800000u) | ((u128)1 << (w - 1)), w), NZ = mkC((u128)1 << (w - 1), w);
  auto band = [](E p, E q) { return mkNot(mkOrB(mkNot(p), mkNot(q))); };
  uint64_t fin = m & 0x1F8; if (fin == 0x1F8) r = mkOrB(r, mkNot(mkOrB(nan, mkOrB(pinf, ninf)))); else if (fin == 0x198) r = mkOrB(r, mkNot(mkOrB(z, mkOrB(nan, mkOrB(pinf, ninf)))));
  else if (fin) {
    if ((fin & 0x60) == 0x60) r = mkOrB(r, z); else if (fin & 0x40) r = mkOrB(r, mkEq(x, Z)); else if (fin & 0x20) r = mkOrB(r, mkEq(x, NZ));
    if ((fin & 0x180) == 0x180) r = mkOrB(r, band(mkFCmp(FLT, Z, x), mkFCmp(FLT, x, I))); else if (fin & 0x80) r = mkOrB(r, band(mkFCmp(FLT, Z, x), mkFCmp(FLT, x, mn))); else if (fin & 0x100) r = mkOrB(r, band(mkFCmp(FLE, mn, x), mkFCmp(FLT, x, I)));
    if ((fin & 0x18) == 0x18) r = mkOrB(r, band(mkFCmp(FLT, x, Z), mkFCmp(FLT, NI, x))); else if (fin & 0x10) r = mkOrB(r, band(mkFCmp(FLT, x, Z), mkFCmp(FLT, nmn, x))); else if (fin & 0x8) r = mkOrB(r, band(mkFCmp(FLE, x, nmn), mkFCmp(FLT, NI, x)));
  }
  res.push_back(en.fromE(r)); return B_DONE;
}
template <int OP> static BRes b_vreduce(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {
  (void)s; unsigned w = fw(d, en); E r = en.toE(a[0], w); for (size_t i = 1; i < a.size(); i++) { E x = en.toE(a[i], w); r = OP == 0 ? mkBin(ADD, r, x) : OP == 1 ? mkBin(AND, r, x) : OP == 2 ? mkBin(OR, r, x) : OP == 3 ? mkBin(XOR, r, x) : OP == 4 ? mkBin(MUL, r, x) : minmaxE(OP - 5, r, x); } res.push_back(en.fromE(r)); return B_DONE;
}

// ---------------------------------------------------------------- process ends
BF(b_abort) { UNUSED; en.violation(s, "abort", "the process is aborted (" + d.cname + ")", s.model); return B_STOP; }
BF(b_terminate) { UNUSED; en.violation(s, "terminate", "std::terminate is called", s.model); return B_STOP; }
BF(b_assert_fail) { UNUSED; en.violation(s, "abort", "assertion in the code fails: " + cstr(en, s, a[0]), s.model); return B_STOP; }
BF(b_ubtrap) { UNUSED; static const char* kinds[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type", "float-cast-overflow", "function-type", "implicit-conversion", "invalid-builtin", "invalid-objc", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla-bound"}; uint64_t k = a.empty() ? 0 : a[0].c; en.violation(s, "ub", std::string("undefined behaviour: ") + (k < 25 ? kinds[k] : "trap"), s.model); return B_STOP; }

// ---------------------------------------------------------------- exceptions
BF(b_cxa_alloc) { UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; uint64_t p = en.alloc(s, a[0].c, K_EXC, 0); s.mem.getW(p >> ASHIFT)->uninit.clear(); s.exc[p] = Exc(); res.push_back(cv(p)); return B_DONE; }
BF(b_cxa_free) { UNUSED; s.exc.erase(a[0].c); s.mem.del(a[0].c >> ASHIFT); return B_DONE; }
BF(b_cxa_throw) { UNUSED; return en.throwObj(s, a[0].c, a[1].c, a[2].c) ? B_UNWIND : B_STOP; }
BF(b_begin_catch) { UNUSED; uint64_t x = a[0].c; Exc& e = s.exc[x]; if (e.handlers < 0) e.handlers = -e.handlers + 1; else e.handlers++; Thread& t = s.T(); if (t.caught.empty() || t.caught.back() != x) t.caught.push_back(x); t.uncaught--; res.push_back(cv(x)); return B_DONE; }
BF(b_end_catch) {
  UNUSED; Thread& t = s.T(); if (t.caught.empty()) return B_DONE; uint64_t x = t.caught.back(); Exc& e = s.exc[x];
  if (e.handlers < 0) { if (++e.handlers == 0) t.caught.pop_back(); return B_DONE; }
  if (--e.handlers == 0) {
    t.caught.pop_back();
    if (--e.refs == 0) { en.setRes(s, d, res); en.advance(s, d); en.destroyExc(s, x); return B_PUSHED; }
  }
  return B_DONE;
}
BF(b_rethrow) { UNUSED; Thread& t = s.T(); if (t.caught.empty()) { en.violation(s, "terminate", "rethrow without a current exception", s.model); return B_STOP; } uint64_t x = t.caught.back(); Exc& e = s.exc[x]; e.handlers = -e.handlers; t.uncaught++; return en.unwind(s, x) ? B_UNWIND : B_STOP; }
BF(b_get_exc_ptr) { UNUSED; res.push_back(a[0]); return B_DONE; }
BF(b_uncaught) { UNUSED; res.push_back(cv(s.T().uncaught)); return B_DONE; }
BF(b_typeid_for) { UNUSED; uint64_t t = a[0].c; if (!en.tiIds.count(t)) { int n = en.tiIds.size() + 1; en.tiIds[t] = n; } res.push_back(cv(en.tiIds[t])); return B_DONE; }
static uint64_t rd64(Engine& en, State& s, uint64_t p) { const Obj* o = s.mem.get(p >> ASHIFT); Leaf l{64, 0, 8, true}; if (!o || p - addrOf(p >> ASHIFT) + 8 > o->size) return 0; Val v = en.loadC(s, o, p - addrOf(p >> ASHIFT), l); return v.e ? 0 : v.c; }
static void wr64(Engine& en, State& s, uint64_t p, uint64_t x) { Obj* o = s.mem.getW(p >> ASHIFT); en.storeC(s, o, p - addrOf(p >> ASHIFT), cv(x), 64, 8); }
BF(b_current_exception) { UNUSED; Thread& t = s.T(); uint64_t x = t.caught.empty() ? 0 : t.caught.back(); if (x) s.exc[x].refs++; wr64(en, s, a[0].c, x); return B_DONE; }
static BRes epRelease(Engine& en, State& s, const DInst& d, std::vector<Val>& res, uint64_t x, uint64_t clear) {
  if (clear) wr64(en, s, clear, 0);
  if (x && s.exc.count(x) && --s.exc[x].refs == 0) { en.setRes(s, d, res); en.advance(s, d); en.destroyExc(s, x); return B_PUSHED; }
  return B_DONE;
}
BF(b_ep_addref) { UNUSED; uint64_t x = rd64(en, s, a[0].c); if (x) s.exc[x].refs++; return B_DONE; }
BF(b_ep_release) { UNUSED; uint64_t x = rd64(en, s, a[0].c); return epRelease(en, s, d, res, x, a[0].c); }
BF(b_ep_copy) { UNUSED; uint64_t x = rd64(en, s, a[1].c); wr64(en, s, a[0].c, x); if (x) s.exc[x].refs++; return B_DONE; }
BF(b_ep_ctor) { UNUSED; wr64(en, s, a[0].c, 0); return B_DONE; }
BF(b_ep_assign) { UNUSED; uint64_t x = rd64(en, s, a[1].c), o = rd64(en, s, a[0].c); if (x) s.exc[x].refs++; wr64(en, s, a[0].c, x); res.push_back(a[0]); return epRelease(en, s, d, res, o, 0); }
BF(b_ep_dtor) { UNUSED; uint64_t x = rd64(en, s, a[0].c); return epRelease(en, s, d, res, x, 0); }
BF(b_ep_swap) { UNUSED; uint64_t x = rd64(en, s, a[0].c), y = rd64(en, s, a[1].c); wr64(en, s, a[0].c, y); wr64(en, s, a[1].c, x); return B_DONE; }
BF(b_rethrow_exception) { UNUSED; uint64_t x = rd64(en, s, a[0].c); if (!x) { en.violation(s, "terminate", "rethrow_exception of a null pointer", s.model); return B_STOP; } s.exc[x].refs++; s.T().uncaught++; return en.unwind(s, x) ? B_UNWIND : B_STOP; }
BF(b_throw_std) {
  UNUSED; const std::string& n = d.callee ? d.cname : d.cname; static const std::pair<const char*, const char*> m[] = {{"length_error", "_ZTISt12length_error"}, {"logic_error", "_ZTISt11logic_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"bad_cast", "_ZTISt8bad_cast"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"system_error", "_ZTISt12system_error"}, {"future_error", "_ZTISt12future_error"}, {"runtime_error", "_ZTISt13runtime_error"}, {"range_error", "_ZTISt11range_error"}, {"domain_error", "_ZTISt12domain_error"}, {"overflow_error", "_ZTISt14overflow_error"}, {"bad_optional_access", "_ZTISt19bad_optional_access"}, {"bad_variant_access", "_ZTISt18bad_variant_access"}};
  for (auto& p : m) if (n.find(std::string("__throw_") + p.first) != std::string::npos) return en.throwStd(s, p.second) ? B_UNWIND : B_STOP;
  en.unsupported(s, n); return B_STOP;
}
BF(b_nop) { UNUSED; for (int i = 0; i < d.ndst; i++) res.push_back(cv(0)); return B_DONE; }
BF(b_ret0) { UNUSED; if (!a.empty()) res.push_back(a[0]); return B_DONE; }
BF(b_guard_acquire) { UNUSED; Leaf l{8, 0, 1, true}; const Obj* o = s.mem.get(a[0].c >> ASHIFT); Val v = en.loadC(s, o, a[0].c - addrOf(a[0].c >> ASHIFT), l); if (v.c) en.acquire(s, a[0].c); res.push_back(cv(v.c ? 0 : 1)); return B_DONE; }
BF(b_guard_release) { UNUSED; Obj* o = s.mem.getW(a[0].c >> ASHIFT); en.storeC(s, o, a[0].c - addrOf(a[0].c >> ASHIFT), cv(1), 8, 1); en.release(s, a[0].c); return B_DONE; }

// ---------------------------------------------------------------- std::to_string of values whose text is irrelevant
BF(b_to_string) {  // (sret string*, x): writes the one character string "#"
  UNUSED; uint64_t p = a[0].c; wr64(en, s, p, p + 16); wr64(en, s, p + 8, 1); Obj* o = s.mem.getW(p >> ASHIFT); uint64_t off = p - addrOf(p >> ASHIFT) + 16; en.storeC(s, o, off, cv('#'), 8, 1); en.storeC(s, o, off + 1, cv(0), 8, 1); return B_DONE;
}

// ---------------------------------------------------------------- clocks
BF(b_now) {
  UNUSED; auto it = en.O.params.find("clock_sym");
  if (it == en.O.params.end() || !it->second) { s.tick += 1000; res.push_back(cv(s.tick)); return B_DONE; }
  // nondeterministic, non-decreasing: each call may advance a little or by an hour (2: also by fractions of a second)
  static const uint64_t adv[] = {1000, 3600000000000ull, 400000000, 900000000}; int k = en.envChoice(s, 0, it->second == 2 ? 3 : 1, "clock"); if (k < 0) return B_STOP; s.tick += adv[k]; res.push_back(cv(s.tick)); return B_DONE;
}

// ---------------------------------------------------------------- mutexes, conditions, threads
BF(b_mutex_lock) {
  UNUSED; if (!en.concretize(s, a[0], 64)) return B_STOP; uint64_t m = a[0].c; if (!en.syncPoint(s)) return B_RETRY;
  int& ow = s.mutexOwner[m];
  if (ow == 0) { ow = s.cur + 1; en.acquire(s, m); res.push_back(cv(0)); return B_DONE; }
  if (ow == s.cur + 1 && s.th.size() == 1) { en.violation(s, "deadlock", "a thread locks a mutex it already holds", s.model); return B_STOP; }
  s.T().st = T_BLOCK_MUTEX; s.T().waitOn = m; return en.schedule(s, true) ? B_RETRY : B_STOP;
}
BF(b_mutex_trylock) { UNUSED; uint64_t m = a[0].c; if (!en.syncPoint(s)) return B_RETRY; int& ow = s.mutexOwner[m]; if (ow == 0) { ow = s.cur + 1; en.acquire(s, m); res.push_back(cv(0)); } else res.push_back(cv(16)); return B_DONE; }
BF(b_mutex_unlock) { UNUSED; uint64_t m = a[0].c; int& ow = s.mutexOwner[m]; if (ow != s.cur + 1) { en.violation(s, "mutex", "unlock of a mutex the thread does not hold", s.model); return B_STOP; } ow = 0; en.release(s, m); res.push_back(cv(0)); return B_DONE; }
static BRes condWait(Engine& en, State& s, uint64_t c, uint64_t m, bool timed) {
  if (!en.syncPoint(s)) return B_RETRY;
  if (s.mutexOwner[m] != s.cur + 1) { en.violation(s, "mutex", "condition wait without holding the lock", s.model); return B_STOP; }
  auto it = en.O.params.find("spurious"); bool sp = it != en.O.params.end() && (int64_t)s.forks * 0 + s.undefN * 0 + it->second > 0 && s.preempt < 1000;
  if (sp && !timed) { // bounded spurious wake-ups: at most 'spurious' per execution
    int used = 0; for (auto& l : s.log) if (l == "spurious wake-up") used++;
    if (used < it->second) { int k = en.envChoice(s, 0, 1, "spurious"); if (k < 0) return B_STOP; if (k) { s.log.push_back("spurious wake-up"); timed = true; } }
  }
  s.mutexOwner[m] = 0; en.release(s, m);
  Thread& t = s.T(); t.st = T_BLOCK_COND; t.waitOn = c; t.condMutex = m; t.timedWait = timed; t.condSignaled = false;
  return en.schedule(s, true) ? B_RETRY : B_STOP;
}
BF(b_cv_wait) { UNUSED; uint64_t m = rd64(en, s, a[1].c); return condWait(en, s, a[0].c, m, false); }
BF(b_cond_timedwait) { UNUSED; return condWait(en, s, a[0].c, a[1].c, true); }
BF(b_cond_wait) { UNUSED; return condWait(en, s, a[0].c, a[1].c, false); }
BF(b_notify_all) { UNUSED; if (!en.syncPoint(s)) return B_RETRY; en.release(s, a[0].c); for (auto& t : s.th) if (t.st == T_BLOCK_COND && t.waitOn == a[0].c) t.condSignaled = true; res.push_back(cv(0)); return B_DONE; }
BF(b_notify_one) {
  UNUSED; std::vector<int> w; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].st == T_BLOCK_COND && s.th[i].waitOn == a[0].c && !s.th[i].condSignaled) w.push_back(i);
  if (!en.syncPoint(s)) return B_RETRY;
  w.clear(); for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].st == T_BLOCK_COND && s.th[i].waitOn == a[0].c && !s.th[i].condSignaled) w.push_back(i);
  if (w.size() > 1) { s.T().yielded = true; int k = en.envChoice(s, 0, w.size() - 1, "notify"); if (k < 0) return B_STOP; s.T().yielded = false; en.release(s, a[0].c); s.th[w[k]].condSignaled = true; }
  else { en.release(s, a[0].c); if (w.size() == 1) s.th[w[0]].condSignaled = true; }
  res.push_back(cv(0)); return B_DONE;
}
static void settle(State& s) { bool live = false; for (auto& t : s.th) if (t.id != s.cur && t.st != T_DONE) live = true; if (!live && s.cur == 0) { s.mt = false; s.mtEpoch++; } }
BF(b_thread_create) {
  UNUSED; auto it = en.faddr.find(a[0].c); if (it == en.faddr.end()) { en.violation(s, "memory", "thread start through an invalid function pointer", s.model); return B_STOP; }
  if (!en.syncPoint(s)) return B_RETRY;
  if (s.th.size() >= 40) { en.unsupported(s, "too many threads"); return B_STOP; }
  int id = en.newThread(s); int me = s.cur; s.cur = id; bool ok = en.pushCall(s, en.getF(it->second), {a[1]}, H_THREAD_END); s.cur = me; if (!ok) return B_STOP;
  res.push_back(cv(id)); return B_DONE;
}
BF(b_thread_join) {
  UNUSED; int t = (int)a[0].c; if (t <= 0 || t >= (int)s.th.size()) { en.violation(s, "thread", "join of an invalid thread", s.model); return B_STOP; }
  if (s.th[t].st == T_DONE) { en.acquire(s, 0xF000000000000000ull + t); settle(s); res.push_back(cv(0)); return B_DONE; }
  s.T().st = T_BLOCK_JOIN; s.T().waitOn = t; return en.schedule(s, true) ? B_RETRY : B_STOP;
}
BF(b_thread_done) {
  UNUSED;
  if (s.mt && !s.T().yielded && s.th[(int)a[0].c].st != T_DONE) { int live = 0; for (auto& t : s.th) if (t.id != s.cur && t.st != T_DONE) live++; if (s.T().polls > live) { s.T().polls = -1; int me = s.cur; bool ok = en.schedule(s, true); s.th[me].polls = 0; if (!ok) return B_STOP; if (s.cur != me) return B_RETRY; s.T().yielded = false; } }
  if (!en.syncPoint(s)) return B_RETRY; int t = (int)a[0].c; bool dn = s.th[t].st == T_DONE; if (dn) { en.acquire(s, 0xF000000000000000ull + t); settle(s); } else s.T().polls++;
  res.push_back(cv(dn)); return B_DONE; }

// ---------------------------------------------------------------- OpenMP runtime
BF(k_push_num) { UNUSED; if (!en.concretize(s, a[2], 32)) return B_STOP; s.T().pushNum = (int)a[2].c; return B_DONE; }
BF(k_fork) {
  UNUSED; Thread& t0 = s.T(); int req = t0.pushNum > 0 ? t0.pushNum : t0.maxThreadsIcv; int g;
  if (t0.ompLevel > 0) g = 1;
  else {
    auto it = en.O.params.find("omp_grant"); int mode = it == en.O.params.end() ? 0 : (int)it->second;  // 0: any 1..req ; -1: all ; n: min(n,req)
    int lim = 6; auto il = en.O.params.find("omp_limit"); if (il != en.O.params.end()) lim = (int)il->second;
    int top = std::min(req, lim);
    if (mode == 0) { g = en.envChoice(s, 1, top, "omp_granted_threads"); if (g < 0) return B_STOP; } else g = mode < 0 ? top : std::min(mode, top);
  }
  auto it = en.faddr.find(a[2].c); if (it == en.faddr.end()) { en.unsupported(s, "fork_call"); return B_STOP; }
  DFunc* f = en.getF(it->second); int me = s.cur; s.T().pushNum = 0;
  if (s.T().ompLevel > 0) {  // nested: serialised, team of one
    uint64_t gp = en.alloc(s, 4, K_STACK, 0), bp = en.alloc(s, 4, K_STACK, 0); Frame* fr = s.T().stack.back().w(); fr->allocas.push_back(gp >> ASHIFT); fr->allocas.push_back(bp >> ASHIFT);
    s.mem.getW(gp >> ASHIFT)->uninit.clear(); s.mem.getW(bp >> ASHIFT)->uninit.clear();
    en.unsupported(s, "nested parallel region"); return B_STOP;
  }
  int tm = s.teams.size(); Team T; T.n = g; T.live = g - 1; s.teams.push_back(T);
  auto mkArgs = [&](int owner, int tid) {
    uint64_t gp = en.alloc(s, 4, K_STACK, 0), bp = en.alloc(s, 4, K_STACK, 0);
    for (uint64_t p : {gp, bp}) { Obj* o = s.mem.getW(p >> ASHIFT); o->uninit.clear(); if (p == gp) { o->data[0] = (uint8_t)tid; } }
    std::vector<Val> v{cv(gp), cv(bp)}; for (size_t i = 3; i < a.size(); i++) v.push_back(a[i]); (void)owner; return std::make_pair(v, std::make_pair(gp, bp));
  };
  for (int k = 1; k < g; k++) {
    int id = en.newThread(s); Thread& n = s.th[id]; n.team = tm; n.ompTid = k; n.ompLevel = 1; s.cur = id; auto m = mkArgs(id, k);
    bool ok = en.pushCall(s, f, m.first, H_THREAD_END); if (ok) { Frame* fr = s.T().stack.back().w(); fr->allocas.push_back(m.second.first >> ASHIFT); fr->allocas.push_back(m.second.second >> ASHIFT); }
    s.cur = me; if (!ok) return B_STOP;
  }
  Thread& t = s.T(); t.team = tm; t.ompTid = 0; t.ompLevel = 1; t.loopIdx = 0; t.singleIdx = 0; auto m = mkArgs(me, 0);
  if (!en.pushCall(s, f, m.first, H_OMP_MASTER, tm)) return B_STOP;
  Frame* fr = s.T().stack.back().w(); fr->allocas.push_back(m.second.first >> ASHIFT); fr->allocas.push_back(m.second.second >> ASHIFT);
  en.nMT++; return B_PUSHED;
}
static int64_t rdInt(Engine& en, State& s, uint64_t p, int w) { Leaf l{(uint16_t)w, 0, (uint32_t)w / 8, true}; Val v = en.loadC(s, s.mem.get(p >> ASHIFT), p - addrOf(p >> ASHIFT), l); return v.e ? 0 : sext64(v.c, w); }
static bool rdIntC(Engine& en, State& s, uint64_t p, int w, int64_t& out) { Leaf l{(uint16_t)w, 0, (uint32_t)w / 8, true}; Val v = en.loadC(s, s.mem.get(p >> ASHIFT), p - addrOf(p >> ASHIFT), l); if (!en.concretize(s, v, w)) return false; out = sext64(v.c, w); return true; }
static void wrInt(Engine& en, State& s, uint64_t p, int w, int64_t x) { en.storeC(s, s.mem.getW(p >> ASHIFT), p - addrOf(p >> ASHIFT), cv((uint64_t)x & mask64(w)), w, w / 8); }
template <int W> static BRes k_static_init(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {
  (void)d; (void)res; // loc, gtid, schedtype, plastiter, plower, pupper, pstride, incr, chunk
  int64_t lo, hi, st; if (!rdIntC(en, s, a[4].c, W, lo) || !rdIntC(en, s, a[5].c, W, hi)) return B_STOP; int64_t incr = sext64(a[7].c, W), chunk = sext64(a[8].c, W); int sched = (int)a[2].c; st = incr;
  int n = s.T().team >= 0 ? s.teams[s.T().team].n : 1, tid = s.T().ompTid;
  int64_t trip = incr > 0 ? (hi >= lo ? (hi - lo) / incr + 1 : 0) : (lo >= hi ? (lo - hi) / -incr + 1 : 0);
  if (trip == 0) { wrInt(en, s, a[4].c, W, lo); wrInt(en, s, a[5].c, W, incr > 0 ? lo - 1 : lo + 1); wrInt(en, s, a[3].c, 32, 0); return B_DONE; }
  if (sched == 34 || sched == 66 || sched == 45) {  // static, no chunk
    int64_t q = trip / n, r = trip % n; int64_t cnt = q + (tid < r ? 1 : 0); int64_t b = tid * q + std::min<int64_t>(tid, r);
    wrInt(en, s, a[4].c, W, lo + b * incr); wrInt(en, s, a[5].c, W, lo + (b + cnt - 1) * incr); wrInt(en, s, a[6].c, W, trip * st); wrInt(en, s, a[3].c, 32, cnt > 0 && b + cnt == trip);
  } else if (sched == 33) {
    wrInt(en, s, a[4].c, W, lo + tid * chunk * incr); wrInt(en, s, a[5].c, W, lo + (tid * chunk + chunk - 1) * incr); wrInt(en, s, a[6].c, W, chunk * n * incr); wrInt(en, s, a[3].c, 32, tid == ((trip - 1) / chunk) % n);
  } else { en.unsupported(s, "omp static schedule kind"); return B_STOP; }
  return B_DONE;
}
template <int W> static BRes k_dispatch_init(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {
  (void)d; (void)res; // loc, gtid, schedule, lb, ub, st, chunk
  for (int i : {3, 4, 5, 6}) if (!en.concretize(s, a[i], W)) return B_STOP;
  Thread& t = s.T(); if (t.team < 0) { Team T; s.teams.push_back(T); t.team = s.teams.size() - 1; }
  Team& T = s.teams[t.team]; int li = t.loopIdx; if ((int)T.loops.size() <= li) T.loops.resize(li + 1); OmpLoop& L = T.loops[li];
  if (!L.init) { L.init = true; L.next = sext64(a[3].c, W); L.ub = sext64(a[4].c, W); L.st = sext64(a[5].c, W); L.chunk = std::max<int64_t>(1, sext64(a[6].c, W)); }
  return B_DONE;
}
template <int W> static BRes k_dispatch_next(Engine& en, State& s, const DInst& d, std::vector<Val>& a, std::vector<Val>& res) {
  (void)d; // loc, gtid, plast, plower, pupper, pstride
  if (!en.syncPoint(s)) return B_RETRY;
  Thread& t = s.T(); Team& T = s.teams[t.team]; OmpLoop& L = T.loops[t.loopIdx];
  bool more = L.st > 0 ? L.next <= L.ub : L.next >= L.ub;
  if (!more) { t.loopIdx++; res.push_back(cv(0)); return B_DONE; }
  int64_t lo = L.next, hi = lo + (L.chunk - 1) * L.st; if (L.st > 0 ? hi > L.ub : hi < L.ub) hi = L.ub; L.next = hi + L.st;
  bool last = L.st > 0 ? L.next > L.ub : L.next < L.ub; int64_t st = L.st;
  if (a[2].c) wrInt(en, s, a[2].c, 32, last); wrInt(en, s, a[3].c, W, lo); wrInt(en, s, a[4].c, W, hi); if (a[5].c) wrInt(en, s, a[5].c, W, st);
  res.push_back(cv(1)); return B_DONE;
}
BF(k_barrier) {
  UNUSED; Thread& t = s.T(); if (t.team < 0) return B_DONE; Team& T = s.teams[t.team]; if (T.n <= 1) return B_DONE;
  en.vcJoin(T.barVC, t.vc); en.vcTick(t); int gen = T.barGen; if (++T.barArrived == T.n) { T.barArrived = 0; T.barGen++; en.vcJoin(t.vc, T.barVC); return B_DONE; }
  t.st = T_BLOCK_BARRIER; t.waitOn = gen; return en.schedule(s, true) ? B_RETRY : B_STOP;
}
BF(k_gtid) { UNUSED; res.push_back(cv(s.T().ompTid)); return B_DONE; }
BF(k_critical) { UNUSED; std::vector<Val> x{a[2]}; return b_mutex_lock(en, s, d, x, res); }
BF(k_end_critical) { UNUSED; std::vector<Val> x{a[2]}; return b_mutex_unlock(en, s, d, x, res); }
BF(k_master) { UNUSED; res.push_back(cv(s.T().ompTid == 0)); return B_DONE; }
BF(k_masked) { UNUSED; if (!en.concretize(s, a[2], 32)) return B_STOP; res.push_back(cv(s.T().ompTid == (int)(int32_t)a[2].c)); return B_DONE; }
// the first thread to arrive executes a single region
BF(k_single) { UNUSED; if (!en.syncPoint(s)) return B_RETRY; Thread& t = s.T(); if (t.team < 0) { res.push_back(cv(1)); return B_DONE; } Team& T = s.teams[t.team]; int mine = t.singleIdx++; bool win = T.singles == mine; if (win) T.singles++; res.push_back(cv(win)); return B_DONE; }
// a reduction's combination runs under its lock (return value 1), released by the end call
BF(k_reduce_nowait) { UNUSED; std::vector<Val> x{a[6]}, r; BRes b = b_mutex_lock(en, s, d, x, r); if (b == B_DONE) res.push_back(cv(1)); return b; }
BF(o_thread_num) { UNUSED; res.push_back(cv(s.T().ompTid)); return B_DONE; }
BF(o_num_threads) { UNUSED; res.push_back(cv(s.T().team >= 0 && s.T().ompLevel ? s.teams[s.T().team].n : 1)); return B_DONE; }
BF(o_max_threads) { UNUSED; res.push_back(cv(s.T().maxThreadsIcv)); return B_DONE; }
BF(o_in_parallel) { UNUSED; res.push_back(cv(s.T().ompLevel > 0 && s.teams[s.T().team].n > 1)); return B_DONE; }
BF(o_set_num) { UNUSED; if (!en.concretize(s, a[0], 32)) return B_STOP; int n = (int)(int32_t)a[0].c; if (n < 1) n = 1; s.T().maxThreadsIcv = n; return B_DONE; }
BF(o_thread_limit) { UNUSED; auto it = en.O.params.find("omp_thread_limit"); res.push_back(cv(it == en.O.params.end() ? 0x7fffffff : it->second)); return B_DONE; }
BF(o_num_procs) { UNUSED; auto it = en.O.params.find("omp_procs"); res.push_back(cv(it == en.O.params.end() ? 4 : it->second)); return B_DONE; }

// ---------------------------------------------------------------- lookup
static bool pre(const std::string& n, const char* p) { return n.compare(0, strlen(p), p) == 0; }
BFn findBuiltin(const std::string& n, const Function* F) {
  static const std::unordered_map<std::string, BFn> m = {
    {"sym_u64", symW<64>}, {"sym_i64", symW<64>}, {"sym_u32", symW<32>}, {"sym_i32", symW<32>}, {"sym_u16", symW<16>}, {"sym_u8", symW<8>}, {"sym_bool", symW<1>}, {"sym_double", symW<64>}, {"sym_float", symW<32>},
    {"sym_range", sym_range}, {"sym_double_grid", sym_double_grid}, {"sym_choice", sym_choice}, {"sym_concretize", sym_concretize}, {"sym_assume", sym_assume}, {"sym_assert", sym_assert}, {"sym_fail", sym_fail}, {"sym_cover", sym_cover}, {"sym_observe", sym_observe}, {"sym_param", sym_param}, {"sym_engine", sym_engine}, {"sym_stop", sym_stop}, {"sym_live_heap", sym_live_heap}, {"sym_log", sym_log}, {"sym_yield", sym_yield}, {"sym_thread_id", sym_thread_id}, {"sym_thread_count", sym_thread_count}, {"sym_env_choice", sym_env_choice},
    {"_Znwm", b_new}, {"_Znam", b_newarr}, {"_ZnwmRKSt9nothrow_t", b_new_nt}, {"_ZnamRKSt9nothrow_t", b_new_nt}, {"_ZnwmSt11align_val_t", b_new}, {"_ZnamSt11align_val_t", b_newarr}, {"malloc", b_malloc}, {"calloc", b_calloc}, {"free", b_free}, {"aligned_alloc", b_aligned},
    {"_ZdlPv", b_free}, {"_ZdaPv", b_free}, {"_ZdlPvm", b_free}, {"_ZdaPvm", b_free}, {"_ZdlPvSt11align_val_t", b_free}, {"_ZdlPvmSt11align_val_t", b_free}, {"_ZdaPvSt11align_val_t", b_free},
    {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_bcmp}, {"memchr", b_memchr}, {"strlen", b_strlen},
    {"floor", b_rnd<R_FLOOR>}, {"floorf", b_rnd<R_FLOOR>}, {"ceil", b_rnd<R_CEIL>}, {"ceilf", b_rnd<R_CEIL>}, {"trunc", b_rnd<R_TRUNC>}, {"truncf", b_rnd<R_TRUNC>}, {"round", b_rnd<R_ROUND>}, {"roundf", b_rnd<R_ROUND>}, {"rint", b_rnd<R_RINT>}, {"nearbyint", b_rnd<R_RINT>},
    {"fabs", b_fabs}, {"fabsf", b_fabs}, {"sqrt", b_sqrt}, {"sqrtf", b_sqrt}, {"fmod", b_fmod}, {"fmodf", b_fmod}, {"fmin", b_fmin}, {"fmax", b_fmax}, {"fminf", b_fmin}, {"fmaxf", b_fmax}, {"lround", b_lround}, {"llround", b_lround}, {"lrint", b_lrint}, {"copysign", b_copysign}, {"ldexp", b_ldexp}, {"scalbn", b_ldexp},
    {"sinh", b_libm}, {"cosh", b_libm}, {"tanh", b_libm}, {"asinh", b_libm}, {"acosh", b_libm}, {"atanh", b_libm}, {"expm1", b_libm}, {"log1p", b_libm}, {"erf", b_libm}, {"erfc", b_libm}, {"tgamma", b_libm}, {"lgamma", b_libm}, {"nextafter", b_libm}, {"logl", b_libm}, {"log2l", b_libm}, {"log10l", b_libm}, {"expl", b_libm}, {"powl", b_libm}, {"sinl", b_libm}, {"cosl", b_libm}, {"tanf", b_libm}, {"asinf", b_libm}, {"acosf", b_libm}, {"atanf", b_libm}, {"atan2f", b_libm}, {"log2f", b_libm}, {"exp2f", b_libm}, {"log10f", b_libm}, {"hypotf", b_libm}, {"cbrtf", b_libm}, {"tanhf", b_libm}, {"sinhf", b_libm}, {"coshf", b_libm}, {"cabs", b_cfn}, {"carg", b_cfn}, {"csqrt", b_cfn}, {"clog", b_cfn}, {"cexp", b_cfn}, {"ilogb", b_ilogb}, {"__divdc3", b_cplx<true>}, {"__muldc3", b_cplx<false>}, {"sin", b_libm}, {"cos", b_libm}, {"tan", b_libm}, {"asin", b_libm}, {"acos", b_libm}, {"atan", b_libm}, {"atan2", b_libm}, {"exp", b_libm}, {"log", b_libm}, {"log2", b_libm}, {"log10", b_libm}, {"exp2", b_libm}, {"pow", b_libm}, {"hypot", b_libm}, {"remainder", b_libm}, {"cbrt", b_libm}, {"sinf", b_libm}, {"cosf", b_libm}, {"powf", b_libm}, {"expf", b_libm}, {"logf", b_libm},
    {"abort", b_abort}, {"exit", b_abort}, {"_exit", b_abort}, {"_ZSt9terminatev", b_terminate}, {"__assert_fail", b_assert_fail}, {"__cxa_pure_virtual", b_abort}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort},
    {"__cxa_allocate_exception", b_cxa_alloc}, {"__cxa_free_exception", b_cxa_free}, {"__cxa_throw", b_cxa_throw}, {"__cxa_begin_catch", b_begin_catch}, {"__cxa_end_catch", b_end_catch}, {"__cxa_rethrow", b_rethrow}, {"__cxa_get_exception_ptr", b_get_exc_ptr}, {"_ZSt18uncaught_exceptionv", b_uncaught}, {"_ZSt19uncaught_exceptionsv", b_uncaught},
    {"_ZSt17current_exceptionv", b_current_exception}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_ep_addref}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_ep_release}, {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", b_ep_copy}, {"_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", b_ep_copy}, {"_ZNSt15__exception_ptr13exception_ptrC1Ev", b_ep_ctor}, {"_ZNSt15__exception_ptr13exception_ptrC2Ev", b_ep_ctor}, {"_ZNSt15__exception_ptr13exception_ptraSERKS0_", b_ep_assign}, {"_ZNSt15__exception_ptr13exception_ptrD1Ev", b_ep_dtor}, {"_ZNSt15__exception_ptr13exception_ptrD2Ev", b_ep_dtor}, {"_ZNSt15__exception_ptr13exception_ptr4swapERS0_", b_ep_swap}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrow_exception},
    {"__cxa_atexit", b_false}, {"__cxa_guard_acquire", b_guard_acquire}, {"__cxa_guard_release", b_guard_release}, {"__cxa_guard_abort", b_nop},
    {"_ZNSt6chrono3_V212steady_clock3nowEv", b_now}, {"_ZNSt6chrono3_V212system_clock3nowEv", b_now},
    {"pthread_mutex_lock", b_mutex_lock}, {"pthread_mutex_unlock", b_mutex_unlock}, {"pthread_mutex_trylock", b_mutex_trylock},
    {"_ZNSt18condition_variableC1Ev", b_nop}, {"_ZNSt18condition_variableD1Ev", b_nop}, {"_ZNSt18condition_variableC2Ev", b_nop}, {"_ZNSt18condition_variableD2Ev", b_nop}, {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", b_cv_wait}, {"_ZNSt18condition_variable10notify_allEv", b_notify_all}, {"_ZNSt18condition_variable10notify_oneEv", b_notify_one}, {"pthread_cond_clockwait", b_cond_timedwait}, {"pthread_cond_timedwait", b_cond_timedwait}, {"pthread_cond_wait", b_cond_wait},
    {"pthread_rwlock_rdlock", b_mutex_lock}, {"pthread_rwlock_wrlock", b_mutex_lock}, {"pthread_rwlock_tryrdlock", b_mutex_trylock}, {"pthread_rwlock_trywrlock", b_mutex_trylock}, {"pthread_rwlock_unlock", b_mutex_unlock}, {"sched_yield", b_sleep}, {"nanosleep", b_sleep}, {"sym_thread_create", b_thread_create}, {"sym_thread_join", b_thread_join}, {"sym_thread_done", b_thread_done},
    {"__kmpc_push_num_threads", k_push_num}, {"__kmpc_fork_call", k_fork}, {"__kmpc_for_static_init_4", k_static_init<32>}, {"__kmpc_for_static_init_4u", k_static_init<32>}, {"__kmpc_for_static_init_8", k_static_init<64>}, {"__kmpc_for_static_init_8u", k_static_init<64>}, {"__kmpc_for_static_fini", b_nop}, {"__kmpc_dispatch_init_4", k_dispatch_init<32>}, {"__kmpc_dispatch_init_4u", k_dispatch_init<32>}, {"__kmpc_dispatch_init_8", k_dispatch_init<64>}, {"__kmpc_dispatch_init_8u", k_dispatch_init<64>}, {"__kmpc_dispatch_next_4", k_dispatch_next<32>}, {"__kmpc_dispatch_next_4u", k_dispatch_next<32>}, {"__kmpc_dispatch_next_8", k_dispatch_next<64>}, {"__kmpc_dispatch_next_8u", k_dispatch_next<64>}, {"__kmpc_dispatch_fini_4", b_nop}, {"__kmpc_dispatch_fini_8", b_nop}, {"__kmpc_dispatch_deinit", b_nop}, {"__kmpc_barrier", k_barrier}, {"__kmpc_global_thread_num", k_gtid}, {"__kmpc_master", k_master}, {"__kmpc_end_master", b_nop}, {"__kmpc_masked", k_masked}, {"__kmpc_end_masked", b_nop}, {"__kmpc_single", k_single}, {"__kmpc_end_single", b_nop}, {"__kmpc_reduce_nowait", k_reduce_nowait}, {"__kmpc_end_reduce_nowait", k_end_critical}, {"__kmpc_flush", b_nop}, {"__kmpc_critical_with_hint", k_critical}, {"__kmpc_critical", k_critical}, {"__kmpc_end_critical", k_end_critical},
    {"omp_get_thread_num", o_thread_num}, {"omp_get_num_threads", o_num_threads}, {"omp_get_max_threads", o_max_threads}, {"omp_in_parallel", o_in_parallel}, {"omp_set_num_threads", o_set_num}, {"omp_get_thread_limit", o_thread_limit}, {"omp_get_num_procs", o_num_procs},
    {"llvm.trap", b_abort}, {"llvm.eh.typeid.for", b_typeid_for}, {"llvm.stacksave", b_zero}, {"llvm.stacksave.p0", b_zero}, {"_ZNSt8ios_base4InitC1Ev", b_nop}, {"_ZNSt8ios_base4InitD1Ev", b_nop},
  };
  auto it = m.find(n); if (it != m.end()) return it->second;
  if (pre(n, "llvm.")) {
    static const std::pair<const char*, BFn> p[] = {
      {"llvm.memcpy.", b_memcpy}, {"llvm.memmove.", b_memcpy}, {"llvm.memset.", b_memset}, {"llvm.fabs.", b_fabs}, {"llvm.sqrt.", b_sqrt}, {"llvm.floor.", b_rnd<R_FLOOR>}, {"llvm.ceil.", b_rnd<R_CEIL>}, {"llvm.trunc.", b_rnd<R_TRUNC>}, {"llvm.round.", b_rnd<R_ROUND>}, {"llvm.rint.", b_rnd<R_RINT>}, {"llvm.nearbyint.", b_rnd<R_RINT>}, {"llvm.roundeven.", b_rnd<R_RINT>},
      {"llvm.minnum.", b_fmin}, {"llvm.maxnum.", b_fmax}, {"llvm.fmuladd.", b_fma}, {"llvm.fma.", b_fma}, {"llvm.copysign.", b_copysign}, {"llvm.umin.", b_mm<0>}, {"llvm.umax.", b_mm<1>}, {"llvm.smin.", b_mm<2>}, {"llvm.smax.", b_mm<3>}, {"llvm.abs.", b_abs}, {"llvm.bswap.", b_bswap}, {"llvm.bitreverse.", b_bitreverse}, {"llvm.ctpop.", b_ctpop}, {"llvm.ctlz.", b_ctlz}, {"llvm.cttz.", b_cttz}, {"llvm.fshl.", b_fsh<true>}, {"llvm.fshr.", b_fsh<false>},
      {"llvm.uadd.with.overflow.", b_ovf<0>}, {"llvm.usub.with.overflow.", b_ovf<1>}, {"llvm.umul.with.overflow.", b_ovf<2>}, {"llvm.sadd.with.overflow.", b_ovf<3>}, {"llvm.ssub.with.overflow.", b_ovf<4>}, {"llvm.smul.with.overflow.", b_ovf<5>}, {"llvm.uadd.sat.", b_sat<0>}, {"llvm.usub.sat.", b_sat<1>},
      {"llvm.expect.", b_first}, {"llvm.launder.", b_first}, {"llvm.strip.", b_first}, {"llvm.ssa.copy", b_first}, {"llvm.objectsize.", b_objectsize}, {"llvm.is.constant.", b_false}, {"llvm.threadlocal.address", b_threadlocal}, {"llvm.ubsantrap", b_ubtrap}, {"llvm.is.fpclass.", b_isfpclass}, {"llvm.invariant.start", b_zero},
      {"llvm.lround.", b_lround}, {"llvm.llround.", b_lround}, {"llvm.lrint.", b_lrint}, {"llvm.powi.", b_powi}, {"llvm.eh.typeid.for", b_typeid_for},
      {"llvm.vector.reduce.add.", b_vreduce<0>}, {"llvm.vector.reduce.and.", b_vreduce<1>}, {"llvm.vector.reduce.or.", b_vreduce<2>}, {"llvm.vector.reduce.xor.", b_vreduce<3>}, {"llvm.vector.reduce.mul.", b_vreduce<4>}, {"llvm.vector.reduce.umin.", b_vreduce<5>}, {"llvm.vector.reduce.umax.", b_vreduce<6>}, {"llvm.vector.reduce.smin.", b_vreduce<7>}, {"llvm.vector.reduce.smax.", b_vreduce<8>},
      {"llvm.sin.", b_libm}, {"llvm.cos.", b_libm}, {"llvm.exp.", b_libm}, {"llvm.log.", b_libm}, {"llvm.log2.", b_libm}, {"llvm.log10.", b_libm}, {"llvm.exp2.", b_libm}, {"llvm.pow.", b_libm}};
    for (auto& x : p) if (pre(n, x.first)) return x.second;
    return nullptr;
  }
  if (F && F->isDeclaration()) {
    if (n.find("__throw_") != std::string::npos) return b_throw_std;
    if (pre(n, "_ZSt9to_stringB") || pre(n, "_ZNSt7__cxx119to_string") || pre(n, "_ZSt9to_string")) return b_to_string;
    static const char* exc[] = {"St9exception", "9exception", "9bad_alloc", "11logic_error", "13runtime_error", "12out_of_range", "12length_error", "16invalid_argument", "12domain_error", "11range_error", "14overflow_error", "15underflow_error", "17bad_function_call", "18bad_variant_access", "19bad_optional_access", "20bad_array_new_length", "8bad_cast", "12system_error", "12future_error"};
    if (pre(n, "_ZNSt")) for (auto e : exc) { std::string p = std::string("_ZNSt") + e; if (pre(n, p.c_str()) && n.size() > p.size() && (n[p.size()] == 'C' || n[p.size()] == 'D' || n[p.size()] == 'a')) return b_nop; }
    if (pre(n, "_ZStls") || pre(n, "_ZNSols") || pre(n, "_ZSt16__ostream_insert") || pre(n, "_ZSt4endl") || pre(n, "_ZNSo3put") || pre(n, "_ZNSo5flush") || pre(n, "_ZNSo9_M_insert")) return b_ret0;
  }
  return nullptr;
}
