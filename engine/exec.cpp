#include "engine.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <sstream>
using namespace llvm;
bool gTrace = false;

// ------------------------------------------------------------------ helpers
static std::string hex128(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "0x%llx", (unsigned long long)v); return b; }
static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  const DILocation* L = I->getDebugLoc().get();
  if (!L) return I->getFunction()->getName().str();
  std::string f = L->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
  std::string fn = L->getScope() && L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "";
  return fn + " " + f + ":" + std::to_string(L->getLine());
}
std::string Engine::where(State& s) {
  // prefer a location inside the repository
  std::string first;
  for (int i = (int)s.T().stack.size() - 1; i >= 0; i--) {
    Frame* f = s.T().stack[i].p; const Instruction* I = f->f->code[f->pc].I;
    const DILocation* L = I ? I->getDebugLoc().get() : nullptr;
    if (first.empty()) first = locOf(I);
    for (const DILocation* l = L; l; l = l->getInlinedAt()) {
      std::string fn = l->getFilename().str();
      if (fn.find("common_robotics_utilities/") != std::string::npos) {
        size_t p = fn.rfind('/'); std::string sp = l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : "";
        return sp + " " + fn.substr(p + 1) + ":" + std::to_string(l->getLine());
      }
    }
  }
  return first;
}
std::vector<std::string> Engine::backtrace(State& s) {
  std::vector<std::string> r;
  for (int i = (int)s.T().stack.size() - 1; i >= 0 && r.size() < 25; i--) {
    Frame* f = s.T().stack[i].p; const Instruction* I = f->f->code[f->pc].I;
    const DILocation* L = I ? I->getDebugLoc().get() : nullptr;
    if (!L) { r.push_back(f->f->F->getName().str()); continue; }
    for (const DILocation* l = L; l && r.size() < 25; l = l->getInlinedAt()) {
      std::string fn = l->getFilename().str(); size_t p = fn.rfind('/'); if (p != std::string::npos) fn = fn.substr(p + 1);
      r.push_back((l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : "?") + " " + fn + ":" + std::to_string(l->getLine()));
    }
  }
  return r;
}
void Engine::violation(State& s, const std::string& kind, const std::string& msg, const ModelP& m) {
  Violation v; v.kind = kind; v.msg = msg; v.where = where(s); v.stack = backtrace(s);
  for (auto& i : s.inputs) { v.inputs.push_back({i.name, hex128(m ? m->eval(i.e) : 0)}); v.widths.push_back(std::to_string(i.w)); }
  v.sched = s.sched; v.log = s.log;
  for (auto& o : viols) if (o.kind == v.kind && o.msg == v.msg && o.where == v.where) { if (viols.size() >= (size_t)O.maxViol) stopAll = true; return; }
  viols.push_back(v);
  if ((int)viols.size() >= O.maxViol) stopAll = true;
}
void Engine::unsupported(State& s, const std::string& what) { unsup[what + " @ " + where(s)]++; nIncomplete++; }

bool Engine::inPC(State& s, E cond, bool& val) {
  E n = mkNot(cond);
  for (PCNode* p = s.pc.get(); p; p = p->parent.get()) { if (p->cond == cond) { val = true; return true; } if (p->cond == n) { val = false; return true; } }
  return false;
}
int Engine::decide(State& s, E cond) {
  if (isC(cond)) return cond->c != 0;
  bool v; if (inPC(s, cond, v)) return v;
  nDecide++;
  bool cur = s.model->eval(cond) != 0;
  E mine = cur ? cond : mkNot(cond), other = cur ? mkNot(cond) : cond;
  ModelP m; Res r = S.check(s.pc, other, s.model, m);
  if (r == SAT) {
    State* n = fork(s); n->model = m; addPC(*n, other); n->forks++; work.push_back(n);
    addPC(s, mine); s.forks++;
  } else if (r == UNKNOWN) { nIncomplete++; unsup["solver gave no answer @ " + where(s)]++; addPC(s, mine); }
  return cur;
}
bool Engine::concretize(State& s, Val& v, unsigned w) {
  if (!v.e) return true;
  if (isC(v.e)) { if (w <= 64) v = fromE(v.e); return true; }
  for (int k = 0;; k++) {
    u128 x = s.model->eval(v.e);
    E eq = mkEq(v.e, mkC(x, w));
    int d = decide(s, eq);
    if (d == 1) { v.e = nullptr; v.c = (uint64_t)x; if (w > 64) v.e = mkC(x, w); return true; }
    if (d < 0 || k > 4) return false;
  }
}
E Engine::newVar(State& s, const std::string& nm, unsigned w, uint64_t umin, uint64_t umax) {
  std::string key = std::to_string(s.nsym++) + ":" + nm + ":" + std::to_string(w) + ":" + std::to_string(umin) + ":" + std::to_string(umax);
  auto it = symCache.find(key); if (it != symCache.end()) return it->second;
  E e = mkVar(nm, w, umin, umax); symCache[key] = e; return e;
}

// ------------------------------------------------------------------ memory
Val Engine::byteAt(State& s, const Obj* o, uint64_t off) {
  Val v;
  if (!o->uninit.empty() && o->uninit[off]) {
    Obj* w = s.mem.getW(o->id); E e = newVar(s, "uninit", 8); s.undefN++;
    if (w->sym.empty()) w->sym.resize(w->size, {nullptr, 0});
    w->sym[off] = {e, 0}; w->uninit[off] = 0; v.e = e; return v;
  }
  if (!o->sym.empty() && o->sym[off].e) { v = fromE(mkExtract(o->sym[off].e, o->sym[off].idx * 8, 8)); return v; }
  v.c = o->data[off]; return v;
}
Val Engine::loadC(State& s, const Obj* o, uint64_t off, const Leaf& l) {
  Val v; unsigned n = l.size;
  bool conc = true;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { conc = false; break; }
  if (!o->uninit.empty()) for (unsigned i = 0; i < n; i++) if (o->uninit[off + i]) { conc = false; break; }
  if (conc) {
    if (n <= 8) { uint64_t x = 0; memcpy(&x, &o->data[off], n); v.c = x & mask64(l.w); if (l.w > 64) v.e = mkC(x, l.w); return v; }
    u128 x = 0; memcpy(&x, &o->data[off], n); v.e = mkC(x, l.w); return v;
  }
  uint64_t id = o->id;
  // whole uninitialised word: a single fresh variable
  if (!o->uninit.empty()) {
    bool all = true; for (unsigned i = 0; i < n; i++) if (!o->uninit[off + i]) all = false;
    if (all && n <= 8) {
      E e = newVar(s, "uninit", n * 8); s.undefN++; Obj* w = s.mem.getW(id);
      if (w->sym.empty()) w->sym.resize(w->size, {nullptr, 0});
      for (unsigned i = 0; i < n; i++) { w->sym[off + i] = {e, (uint8_t)i}; w->uninit[off + i] = 0; }
      return fromE(mkExtract(e, 0, l.w));
    }
  }
  if (!o->sym.empty()) {
    const SymByte& b = o->sym[off];
    if (b.e && b.idx == 0 && b.e->width >= n * 8) {
      bool same = true; for (unsigned i = 1; i < n; i++) if (o->sym[off + i].e != b.e || o->sym[off + i].idx != i) { same = false; break; }
      if (same) return fromE(mkExtract(b.e, 0, l.w));
    }
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) { Val x = byteAt(s, s.mem.get(id), off + i); E e = toE(x, 8); r = r ? mkConcat(e, r) : e; }
  return fromE(mkExtract(r, 0, l.w));
}
void Engine::storeC(State& s, Obj* o, uint64_t off, const Val& v, unsigned w, unsigned size) {
  if (!o->uninit.empty()) for (unsigned i = 0; i < size; i++) o->uninit[off + i] = 0;
  if (!v.e || isC(v.e)) {
    u128 x = v.e ? v.e->c : (u128)v.c;
    if (size <= 8) { uint64_t y = (uint64_t)x; memcpy(&o->data[off], &y, size); } else memcpy(&o->data[off], &x, size);
    if (!o->sym.empty()) for (unsigned i = 0; i < size; i++) o->sym[off + i].e = nullptr;
    return;
  }
  E e = mkZExt(v.e, size * 8);
  if (o->sym.empty()) o->sym.resize(o->size, {nullptr, 0});
  for (unsigned i = 0; i < size; i++) o->sym[off + i] = {e, (uint8_t)i};
}
static unsigned trailingZeros(E e) {
  switch (e->op) {
    case CONST: { if (!e->c) return e->width; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; }
    case SHL: if (isC(e->k[1])) return trailingZeros(e->k[0]) + (unsigned)e->k[1]->c; return 0;
    case MUL: return trailingZeros(e->k[0]) + trailingZeros(e->k[1]);
    case ADD: case SUB: case OR: case XOR: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    case ZEXT: case SEXT: return trailingZeros(e->k[0]);
    case ITE: return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    case CONCAT: { unsigned t = trailingZeros(e->k[1]); return t >= e->k[1]->width ? t + trailingZeros(e->k[0]) : t; }
    case AND: return std::max(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    default: return 0;
  }
}
static std::string memErr(State& s, uint64_t a, uint64_t n, bool wr, std::unordered_map<uint64_t, std::string>& names) {
  char b[256]; uint64_t id = a >> ASHIFT; const Obj* o = s.mem.get(id); int64_t off = (int64_t)(a - addrOf(id));
  const char* acc = wr ? "write" : "read";
  if (id == 0) snprintf(b, 256, "%s of %llu bytes through a null or invalid pointer", acc, (unsigned long long)n);
  else if (!o) snprintf(b, 256, "%s of %llu bytes of released memory", acc, (unsigned long long)n);
  else if (o->kind == K_FUNC) snprintf(b, 256, "%s of function memory", acc);
  else if (off < 0 || (uint64_t)off + n > o->size) snprintf(b, 256, "%s of %llu bytes outside an object of %s memory", acc, (unsigned long long)n, o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "static");
  else snprintf(b, 256, "%s of read-only memory", acc);
  return b;
}
int Engine::resolve(State& s, const Val& p, uint64_t n, bool wr, Acc& a, bool noite) {
  if (!p.e) {
    uint64_t id = p.c >> ASHIFT; const Obj* o = s.mem.get(id); uint64_t off = p.c - addrOf(id);
    if (!o || off > o->size || off + n > o->size || (wr && o->kind == K_CONST) || o->kind == K_FUNC) { violation(s, "memory", memErr(s, p.c, n, wr, addrName), s.model); return 0; }
    a.id = id; a.off = off; a.offE = nullptr; return 1;
  }
  uint64_t addr = (uint64_t)s.model->eval(p.e); uint64_t id = addr >> ASHIFT; const Obj* o = s.mem.get(id);
  uint64_t off = addr - addrOf(id);
  if (!o || off > o->size || off + n > o->size || (wr && o->kind == K_CONST) || o->kind == K_FUNC) { violation(s, "memory", memErr(s, addr, n, wr, addrName), s.model); return 0; }
  E offE = mkBin(SUB, p.e, mkC(addrOf(id), 64)); uint64_t lim = o->size - n;
  if (isC(offE)) { a.id = id; a.off = (uint64_t)offE->c; a.offE = nullptr; return a.off <= lim; }
  if (offE->umax > lim) { int d = decide(s, mkBin(ULE, offE, mkC(lim, 64))); if (d != 1) return 0; }
  uint64_t lo = offE->umin, hi = std::min<uint64_t>(offE->umax, lim); unsigned tz = trailingZeros(offE); uint64_t step = tz >= 32 ? 1 : 1ull << tz;
  lo = (lo + step - 1) / step * step; uint64_t cnt = hi >= lo ? (hi - lo) / step + 1 : 0;
  int limit = wr ? O.storeIte : O.loadIte;
  if (noite || cnt > (uint64_t)limit || (wr && step < n)) {
    Val v = fromE(offE); if (!concretize(s, v, 64)) return 0; a.id = id; a.off = v.c; a.offE = nullptr; return 1;
  }
  a.id = id; a.offE = offE; a.lo = lo; a.hi = hi; a.step = step; a.off = off; return 2;
}
bool Engine::raceCheck(State& s, uint64_t id, uint64_t off, uint64_t n, bool wr, bool atomic) {
  const Obj* o = s.mem.get(id); Thread& t = s.T();
  if (o->kind == K_CONST || t.id >= MAXT) return true;
  Obj* w = s.mem.getW(id);
  if (!w->sh || w->sh->epoch != s.mtEpoch) { w->sh = std::make_shared<Shadow>(); w->sh->epoch = s.mtEpoch; w->sh->b.resize(w->size); }
  uint32_t myclk = t.id < (int)t.vc.size() ? t.vc[t.id] : 0;
  auto seen = [&](int tid) -> uint32_t { return tid < (int)t.vc.size() ? t.vc[tid] : 0; };
  for (uint64_t i = off; i < off + n; i++) {
    ShadowB& b = w->sh->b[i];
    bool race = false;
    if (b.wc && b.wt != t.id && b.wc > seen(b.wt) && !(atomic && b.wAtomic)) race = true;
    if (wr && !atomic) for (int k = 0; k < MAXT; k++) if (k != t.id && b.rc[k] && b.rc[k] > seen(k)) race = true;
    if (race) { violation(s, "race", std::string("unsynchronised concurrent ") + (wr ? "write" : "read") + " of memory another thread accesses", s.model); return false; }
    if (wr) { b.wc = myclk ? myclk : 1; b.wt = t.id; b.wAtomic = atomic; } else if (!atomic) b.rc[t.id] = myclk ? myclk : 1;
  }
  return true;
}
bool Engine::load(State& s, const Val& p, const TypeInfo* t, std::vector<Val>& out, bool atomic) {
  out.clear(); Acc a; int r = resolve(s, p, t->size, false, a, s.mt); if (!r) return false;
  if (r == 1) {
    if (s.mt && !raceCheck(s, a.id, a.off, t->size, false, atomic)) return false;
    for (auto& l : t->leaves) out.push_back(loadC(s, s.mem.get(a.id), a.off + l.off, l));
    return true;
  }
  for (auto& l : t->leaves) {
    // group offsets by identical value
    E res = nullptr; std::vector<std::pair<E, E>> groups;  // value, condition
    std::unordered_map<E, size_t> gi;
    for (uint64_t k = a.lo; k <= a.hi; k += a.step) {
      E v = toE(loadC(s, s.mem.get(a.id), k + l.off, l), l.w); E c = mkEq(a.offE, mkC(k, 64)); if (isC(c, 0)) continue;
      auto it = gi.find(v); if (it == gi.end()) { gi[v] = groups.size(); groups.push_back({v, c}); } else groups[it->second].second = mkOrB(groups[it->second].second, c);
    }
    if (groups.empty()) return false;
    // the largest group last as default
    res = groups[0].first; for (size_t g = 1; g < groups.size(); g++) res = mkITE(groups[g].second, groups[g].first, res);
    out.push_back(fromE(res));
  }
  return true;
}
bool Engine::store(State& s, const Val& p, const TypeInfo* t, const Val* v, bool atomic) {
  Acc a; int r = resolve(s, p, t->size, true, a, s.mt); if (!r) return false;
  if (r == 1) {
    if (s.mt && !raceCheck(s, a.id, a.off, t->size, true, atomic)) return false;
    Obj* o = s.mem.getW(a.id); size_t i = 0;
    for (auto& l : t->leaves) storeC(s, o, a.off + l.off, v[i++], l.w, l.size);
    return true;
  }
  for (uint64_t k = a.lo; k <= a.hi; k += a.step) {
    E c = mkEq(a.offE, mkC(k, 64)); if (isC(c, 0)) continue; size_t i = 0;
    for (auto& l : t->leaves) {
      E old = toE(loadC(s, s.mem.get(a.id), k + l.off, l), l.w); E nv = mkITE(c, toE(v[i], l.w), old); i++;
      storeC(s, s.mem.getW(a.id), k + l.off, fromE(nv), l.w, l.size);
    }
  }
  return true;
}
bool Engine::concreteLen(State& s, Val& n, std::initializer_list<std::pair<const Val*, bool>> ptrs) {
  if (!n.e) return true;
  for (auto& pr : ptrs) {
    Val pc = *pr.first; if (!concretize(s, pc, 64)) return false;
    const Obj* o = s.mem.get(pc.c >> ASHIFT); uint64_t off = pc.c - addrOf(pc.c >> ASHIFT);
    uint64_t room = o && off <= o->size ? o->size - off : 0;
    int d = decide(s, mkBin(ULE, n.e, mkC(room, 64))); if (d < 0) return false;
    if (d == 0) { uint64_t len = (uint64_t)s.model->eval(n.e); violation(s, "memory", memErr(s, pc.c, len, pr.second, addrName), s.model); return false; }
  }
  return concretize(s, n, 64);
}
bool Engine::memcopy(State& s, const Val& dv, const Val& sv, uint64_t n) {
  if (!n) return true;
  Acc d, r; if (resolve(s, dv, n, true, d, true) != 1) return false; if (resolve(s, sv, n, false, r, true) != 1) return false;
  if (s.mt) { if (!raceCheck(s, r.id, r.off, n, false, false)) return false; if (!raceCheck(s, d.id, d.off, n, true, false)) return false; }
  Obj* w = s.mem.getW(d.id); const Obj* o = s.mem.get(r.id);
  memmove(&w->data[d.off], &o->data[r.off], n);
  if (!o->sym.empty() || !w->sym.empty()) {
    if (!o->sym.empty()) { if (w->sym.empty()) w->sym.resize(w->size, {nullptr, 0}); o = s.mem.get(r.id); std::vector<SymByte> tmp(o->sym.begin() + r.off, o->sym.begin() + r.off + n); std::copy(tmp.begin(), tmp.end(), w->sym.begin() + d.off); }
    else for (uint64_t i = 0; i < n; i++) w->sym[d.off + i].e = nullptr;
  }
  if (!o->uninit.empty() || !w->uninit.empty()) {
    if (!o->uninit.empty()) {
      bool any = false; for (uint64_t i = 0; i < n && !any; i++) any = o->uninit[r.off + i];
      if (w->uninit.empty() && any) w->uninit.resize(w->size, 0);
      if (!w->uninit.empty()) { std::vector<uint8_t> tmp(o->uninit.begin() + r.off, o->uninit.begin() + r.off + n); std::copy(tmp.begin(), tmp.end(), w->uninit.begin() + d.off); }
    } else for (uint64_t i = 0; i < n; i++) w->uninit[d.off + i] = 0;
  }
  return true;
}
bool Engine::memfill(State& s, const Val& dv, const Val& b, uint64_t n) {
  if (!n) return true;
  Acc d; if (resolve(s, dv, n, true, d, true) != 1) return false;
  if (s.mt && !raceCheck(s, d.id, d.off, n, true, false)) return false;
  Obj* w = s.mem.getW(d.id);
  for (uint64_t i = 0; i < n; i++) storeC(s, w, d.off + i, b, 8, 1);
  return true;
}
bool Engine::freeObj(State& s, uint64_t addr, int ak) {
  if (!addr) return true;
  uint64_t id = addr >> ASHIFT; const Obj* o = s.mem.get(id);
  if (!o || o->kind != K_HEAP || addr != addrOf(id)) { violation(s, "memory", !o ? "double free or free of an invalid pointer" : "free of memory that was not allocated", s.model); return false; }
  if (s.mt && o->size && !raceCheck(s, id, 0, o->size, true, false)) return false;
  s.mem.del(id); return true;
}
bool Engine::readCStr(State& s, uint64_t a, std::string& out) {
  const Obj* o = s.mem.get(a >> ASHIFT); if (!o) return false;
  for (uint64_t off = a - addrOf(a >> ASHIFT); off < o->size; off++) { if (!o->sym.empty() && o->sym[off].e) { out += '?'; continue; } if (!o->data[off]) return true; out += (char)o->data[off]; }
  return true;
}

// ------------------------------------------------------------------ control
static inline Val rd(Frame* f, int id) { return id >= 0 ? f->r[id] : f->f->consts[~id]; }
void Engine::setRes(State& s, const DInst& d, const std::vector<Val>& r) {
  if (d.dst < 0) return; Frame* f = s.T().stack.back().w();
  for (int i = 0; i < d.ndst && i < (int)r.size(); i++) f->r[d.dst + i] = r[i];
}
void Engine::takeEdge(State& s, Frame* f, const Edge& e) {
  if (!e.moves.empty()) {
    if (e.moves.size() == 1) f->r[e.moves[0].first] = rd(f, e.moves[0].second);
    else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; size_t n = e.moves.size(); if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = rd(f, e.moves[i].second); for (size_t i = 0; i < n; i++) f->r[e.moves[i].first] = t[i]; }
  }
  f->pc = e.pc;
}
void Engine::advance(State& s, const DInst& d) {
  Frame* f = s.T().stack.back().w();
  if (d.k == D_CALL && d.inv) takeEdge(s, f, d.edges[0]); else f->pc++;
}
bool Engine::pushCall(State& s, DFunc* f, const std::vector<Val>& args, RetHook h, uint64_t ha) {
  if (s.T().stack.size() > 700) { violation(s, "stack", "unbounded recursion (call depth over 700)", s.model); return false; }
  Frame* fr = new Frame; fr->f = f; fr->r.resize(f->nregs); fr->hook = h; fr->hookArg = ha;
  size_t k = 0; for (size_t i = 0; i < f->argSlot.size(); i++) for (int j = 0; j < f->argN[i]; j++) { if (k < args.size()) fr->r[f->argSlot[i] + j] = args[k]; k++; }
  s.T().stack.push_back(RC<Frame>(fr)); return true;
}
bool Engine::popFrame(State& s) {
  Frame* f = s.T().stack.back().p;
  for (uint64_t a : f->allocas) s.mem.del(a);
  s.T().stack.pop_back(); return true;
}
bool Engine::doReturn(State& s, std::vector<Val>& rv) {
  Frame* f = s.T().stack.back().p; RetHook h = f->hook; uint64_t ha = f->hookArg;
  popFrame(s);
  switch (h) {
    case H_NONE: { Frame* c = s.T().stack.back().p; const DInst& d = c->f->code[c->pc]; setRes(s, d, rv); advance(s, d); return true; }
    case H_DROP: return true;
    case H_CTOR_NEXT: return true;
    case H_ENTRY: endPath(s); return false;
    case H_EXC_FREE: { s.mem.del(ha >> ASHIFT); return true; }
    case H_THREAD_END: {
      Thread& t = s.T(); t.st = T_DONE; vcTick(t);
      if (t.team >= 0) { s.teams[t.team].live--; }
      vcJoin(s.syncVC[0xF000000000000000ull + t.id], t.vc);
      return schedule(s, true); }
    case H_OMP_MASTER: {  // master finished the microtask: wait for the team
      Thread& t = s.T(); t.st = T_BLOCK_TEAM; t.waitOn = ha; return schedule(s, true); }
  }
  return true;
}
void Engine::endPath(State& s) {
  nPaths++;
  for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].st != T_DONE) { violation(s, "thread", "a started thread is still running at the end", s.model); return; }
  sampleSeen++;
  bool keep = (int)samples.size() < O.samples; size_t at = samples.size();
  if (!keep && O.samples > 0) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; size_t r = (rng >> 33) % sampleSeen; if (r < samples.size()) { keep = true; at = r; } }
  if (keep) {
    std::ostringstream o; o << "{\"inputs\":[";
    for (size_t i = 0; i < s.inputs.size(); i++) o << (i ? "," : "") << "[\"" << s.inputs[i].name << "\",\"" << hex128(s.model->eval(s.inputs[i].e)) << "\"," << (int)s.inputs[i].w << "]";
    o << "],\"observed\":[";
    for (size_t i = 0; i < s.obs.size(); i++) o << (i ? "," : "") << "\"" << hex128(s.model->eval(s.obs[i].e)) << "\"";
    o << "],\"undef\":" << s.undefN << ",\"env\":[";
    for (size_t i = 0; i < s.sched.size(); i++) o << (i ? "," : "") << s.sched[i];
    o << "],\"log\":[";
    for (size_t i = 0; i < s.log.size(); i++) o << (i ? "," : "") << "\"" << s.log[i] << "\"";
    o << "],\"pc\":" << (s.pc ? s.pc->depth : 0) << ",\"instructions\":" << s.ninstr << "}";
    if (at == samples.size()) samples.push_back(o.str()); else samples[at] = o.str();
  }
}

// ------------------------------------------------------------------ exceptions
static const std::map<std::string, std::vector<std::string>> stdTI = {
  {"_ZTISt9exception", {}}, {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc"}}, {"_ZTISt8bad_cast", {"_ZTISt9exception"}},
  {"_ZTISt11logic_error", {"_ZTISt9exception"}}, {"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}},
  {"_ZTISt12length_error", {"_ZTISt11logic_error"}}, {"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}}, {"_ZTISt12domain_error", {"_ZTISt11logic_error"}},
  {"_ZTISt11range_error", {"_ZTISt13runtime_error"}}, {"_ZTISt14overflow_error", {"_ZTISt13runtime_error"}}, {"_ZTISt15underflow_error", {"_ZTISt13runtime_error"}},
  {"_ZTISt17bad_function_call", {"_ZTISt9exception"}}, {"_ZTISt18bad_variant_access", {"_ZTISt9exception"}}, {"_ZTISt19bad_optional_access", {"_ZTISt9exception"}}, {"_ZTISt12system_error", {"_ZTISt13runtime_error"}}, {"_ZTISt12future_error", {"_ZTISt11logic_error"}},
  {"_ZTISt8bad_typeid", {"_ZTISt9exception"}}, {"_ZTISt12bad_weak_ptr", {"_ZTISt9exception"}}};
bool Engine::typeMatch(State& s, uint64_t thrown, uint64_t caught) {
  if (!caught || thrown == caught) return true;
  auto n1 = addrName.find(thrown), n2 = addrName.find(caught);
  if (n1 != addrName.end() && n2 != addrName.end() && n1->second == n2->second) return true;
  auto it = tiBases.find(thrown);
  if (it != tiBases.end()) { for (uint64_t b : it->second) if (typeMatch(s, b, caught)) return true; return false; }
  if (n1 != addrName.end()) { auto st = stdTI.find(n1->second); if (st != stdTI.end()) for (auto& b : st->second) { auto e = extAddr.find(b); if (e != extAddr.end() && typeMatch(s, e->second, caught)) return true; } }
  return false;
}
bool Engine::unwind(State& s, uint64_t exc) {
  Thread& t = s.T(); uint64_t tinfo = s.exc[exc].ti;
  auto match = [&](const DInst& lp, bool phase1, int& sel) -> bool {
    for (auto& c : lp.cl) {
      if (c.isCatch) { if (typeMatch(s, tinfo, c.ti)) { sel = c.ti ? tiIds[c.ti] : 0x7ffffff; return true; } }
      else { bool ok = false; for (uint64_t x : c.fl) if (typeMatch(s, tinfo, x)) ok = true; if (!ok) { sel = -1; return true; } }
    }
    sel = 0; return false;
  };
  // phase 1: is there a handler at all?
  bool found = false;
  for (int i = (int)t.stack.size() - 1; i >= 0 && !found; i--) {
    Frame* f = t.stack[i].p; const DInst& d = f->f->code[f->pc];
    if (d.k == D_CALL && d.inv) { int lpc = d.edges[1].pc; const DInst* lp = &f->f->code[lpc]; int sel; if (lp->k == D_LP && match(*lp, true, sel)) found = true; }
    if (f->hook == H_ENTRY || f->hook == H_THREAD_END || f->hook == H_CTOR_NEXT || f->hook == H_EXC_FREE) break;
    if (f->f->F->doesNotThrow()) break;
  }
  if (!found) {
    auto n = addrName.find(tinfo); std::string nm = n == addrName.end() ? "?" : llvm::demangle(n->second);
    violation(s, "exception", "an exception that nobody catches ends the process: " + nm, s.model); return false;
  }
  while (!t.stack.empty()) {
    Frame* f = t.stack.back().p; const DInst& d = f->f->code[f->pc];
    if (d.k == D_CALL && d.inv) {
      int lpc = d.edges[1].pc; const DInst& lp = f->f->code[lpc]; int sel = 0; bool m = match(lp, false, sel);
      if (m || lp.cleanup) {
        Frame* w = t.stack.back().w(); takeEdge(s, w, d.edges[1]); 
        std::vector<Val> r(2); r[0].c = exc; r[1].c = (uint32_t)sel; setRes(s, lp, r); w = t.stack.back().w(); w->f->blkHit[lp.blk] = 1; w->pc++; return true;
      }
    }
    popFrame(s);
  }
  return false;
}
bool Engine::throwObj(State& s, uint64_t obj, uint64_t tinfo, uint64_t dtor) {
  Exc& e = s.exc[obj]; e.ti = tinfo; e.dtor = dtor; e.handlers = 0; s.T().uncaught++;
  return unwind(s, obj);
}
bool Engine::throwStd(State& s, const char* nm) {
  auto it = extAddr.find(nm); if (it == extAddr.end()) { unsupported(s, std::string("typeinfo ") + nm); return false; }
  uint64_t a = alloc(s, 64, K_EXC, 0); s.mem.getW(a >> ASHIFT)->uninit.clear();
  s.exc[a] = Exc(); return throwObj(s, a, it->second, 0);
}
void Engine::destroyExc(State& s, uint64_t obj) {
  uint64_t dt = s.exc[obj].dtor; s.exc.erase(obj);
  if (dt && faddr.count(dt) && !faddr[dt]->isDeclaration()) { Val v; v.c = obj; pushCall(s, getF(faddr[dt]), {v}, H_EXC_FREE, obj); }
  else s.mem.del(obj >> ASHIFT);
}

// ------------------------------------------------------------------ threads
int Engine::newThread(State& s) {
  Thread n; n.id = s.th.size(); n.vc = s.T().vc; if ((int)n.vc.size() <= n.id) n.vc.resize(n.id + 1, 0); n.vc[n.id] = 1; n.maxThreadsIcv = s.ompMaxThreads;
  vcTick(s.T()); 
  if (!s.mt) { s.mt = true; }
  s.th.push_back(n); return n.id;
}
bool Engine::enabled(State& s, int i) {
  Thread& t = s.th[i];
  switch (t.st) {
    case T_RUN: return true;
    case T_BLOCK_MUTEX: return s.mutexOwner[t.waitOn] == 0;
    case T_BLOCK_COND: return (t.condSignaled || t.timedWait) && s.mutexOwner[t.condMutex] == 0;
    case T_BLOCK_JOIN: return s.th[t.waitOn].st == T_DONE;
    case T_BLOCK_TEAM: return s.teams[t.waitOn].live == 0;
    case T_BLOCK_BARRIER: return s.teams[t.team].barGen > (int)t.waitOn;
    default: return false;
  }
}
// switch to some enabled thread (forking over the choices); forced = current thread cannot or need not continue
bool Engine::schedule(State& s, bool forced) {
  std::vector<int> en; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].st != T_DONE && enabled(s, i)) en.push_back(i);
  // fairness: a thread that polled in vain once for every other thread lets another one run
  if (forced && s.T().polls < 0) { std::vector<int> o; for (int i : en) if (i != s.cur) o.push_back(i); if (!o.empty()) en = o; }
  if (en.empty()) { violation(s, "deadlock", "no thread can run: deadlock", s.model); return false; }
  if (!forced && O.preemptBound >= 0 && s.preempt >= O.preemptBound) en = {s.cur};
  size_t pick = 0;
  if (en.size() > 1) {
    nSwitches++;
    if (replaying) { int want = 0; if ((size_t)s.nestSched < replaySched.size()) want = replaySched[s.nestSched]; s.nestSched++; for (size_t i = 0; i < en.size(); i++) if (en[i] == want) pick = i; s.sched.push_back(en[pick]); }
    else {
      // current thread first when possible
      size_t c0 = 0; if (!forced) for (size_t i = 0; i < en.size(); i++) if (en[i] == s.cur) c0 = i;
      std::swap(en[0], en[c0]);
      for (size_t i = en.size(); i-- > 1;) {
        State* n = fork(s); n->cur = en[i]; n->sched.push_back(en[i]); if (!forced) n->preempt++;
        n->th[en[i]].yielded = true; n->wantEnv = 1; for (auto& t : n->th) if (t.id != n->cur) t.polls = 0;
          work.push_back(n);
      }
      s.sched.push_back(en[0]);
    }
  }
  s.cur = en[pick]; s.T().yielded = true; s.wantEnv = 1; for (auto& t : s.th) if (t.id != s.cur) t.polls = 0;
  return true;
}
// complete the blocking operation of the thread that was just scheduled
static bool wake(Engine& en, State& s) {
  Thread& t = s.T(); s.wantEnv = 0;
  switch (t.st) {
    case T_BLOCK_MUTEX: t.st = T_RUN; s.mutexOwner[t.waitOn] = t.id + 1; en.acquire(s, t.waitOn); { Frame* f = t.stack.back().p; const DInst& d = f->f->code[f->pc]; std::vector<Val> r(1); en.setRes(s, d, r); en.advance(s, d); } t.yielded = false; return true;
    case T_BLOCK_COND: {
      bool timed = !t.condSignaled; t.st = T_RUN; t.condSignaled = false; t.timedWait = false; s.mutexOwner[t.condMutex] = t.id + 1; en.acquire(s, t.condMutex); if (!timed) en.acquire(s, t.waitOn);
      Frame* f = t.stack.back().p; const DInst& d = f->f->code[f->pc]; std::vector<Val> r(1); r[0].c = timed ? 110 : 0; en.setRes(s, d, r); en.advance(s, d); t.yielded = false; return true; }
    case T_BLOCK_JOIN: t.st = T_RUN; en.acquire(s, 0xF000000000000000ull + t.waitOn); { Frame* f = t.stack.back().p; const DInst& d = f->f->code[f->pc]; std::vector<Val> r(1); en.setRes(s, d, r); en.advance(s, d); } t.yielded = false; return true;
    case T_BLOCK_BARRIER: t.st = T_RUN; en.vcJoin(t.vc, s.teams[t.team].barVC); { Frame* f = t.stack.back().p; const DInst& d = f->f->code[f->pc]; std::vector<Val> r(1); en.setRes(s, d, r); en.advance(s, d); } t.yielded = false; return true;
    case T_BLOCK_TEAM: {
      int tm = t.waitOn; t.st = T_RUN;
      for (auto& o : s.th) if (o.team == tm && o.id != t.id) en.acquire(s, 0xF000000000000000ull + o.id);
      // leave the region
      t.team = -1; t.ompLevel = 0; t.ompTid = 0; t.loopIdx = 0; t.singleIdx = 0;
      bool others = false; for (auto& o : s.th) if (o.id != t.id && o.st != T_DONE) others = true;
      if (!others) { s.mt = false; s.mtEpoch++; while ((int)s.th.size() > t.id + 1 && s.th.back().st == T_DONE && t.id == 0) { s.syncVC.erase(0xF000000000000000ull + s.th.back().id); s.th.pop_back(); } }
      Thread& tt = s.T(); Frame* f = tt.stack.back().p; const DInst& d = f->f->code[f->pc]; std::vector<Val> r(1); en.setRes(s, d, r); en.advance(s, d); tt.yielded = false; return true; }
    default: return true;
  }
}
bool Engine::syncPoint(State& s) {
  if (!s.mt) return true;
  if (s.T().yielded) { s.T().yielded = false; return true; }
  int me = s.cur;
  if (!schedule(s, false)) return false;
  if (s.cur == me) { s.T().yielded = false; s.wantEnv = 0; return true; }
  return false;
}
int Engine::envChoice(State& s, int lo, int hi, const char* name) {
  if (lo >= hi) return lo;
  if (replaying) { int v = lo; if ((size_t)s.nestSched < replaySched.size()) v = replaySched[s.nestSched]; s.nestSched++; s.sched.push_back(v); return v; }
  // fork through a solver variable so that the choice is part of the symbolic input
  unsigned w = 1; while (((unsigned)(hi - lo)) >> w) w++;
  std::string nm = std::string("env:") + name;
  std::string key = nm + std::to_string(s.sched.size()) + ":" + std::to_string(lo) + ":" + std::to_string(hi);
  E& v = symCache[key]; if (!v) v = mkVar(nm, w, 0, hi - lo);
  Val x = fromE(v); if (!concretize(s, x, w)) return -1;
  s.sched.push_back(lo + (int)x.c); return lo + (int)x.c;
}

// ------------------------------------------------------------------ instruction execution
static uint64_t binC(unsigned op, unsigned w, uint64_t a, uint64_t b, bool& ok) {
  uint64_t m = mask64(w); ok = true;
  switch (op) {
    case Instruction::Add: return (a + b) & m;
    case Instruction::Sub: return (a - b) & m;
    case Instruction::Mul: return (a * b) & m;
    case Instruction::UDiv: if (!b) { ok = false; return 0; } return a / b;
    case Instruction::URem: if (!b) { ok = false; return 0; } return a % b;
    case Instruction::SDiv: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y || (y == -1 && a == (1ull << (w - 1)))) { ok = false; return 0; } return (uint64_t)(x / y) & m; }
    case Instruction::SRem: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y || (y == -1 && a == (1ull << (w - 1)))) { ok = false; return 0; } return (uint64_t)(x % y) & m; }
    case Instruction::Shl: return b >= w ? 0 : (a << b) & m;
    case Instruction::LShr: return b >= w ? 0 : a >> b;
    case Instruction::AShr: return (uint64_t)(sext64(a, w) >> (b >= w ? w - 1 : b)) & m;
    case Instruction::And: return a & b;
    case Instruction::Or: return a | b;
    case Instruction::Xor: return a ^ b;
    case Instruction::FAdd: return fpBin(FADD, w, a, b);
    case Instruction::FSub: return fpBin(FSUB, w, a, b);
    case Instruction::FMul: return fpBin(FMUL, w, a, b);
    case Instruction::FDiv: return fpBin(FDIV, w, a, b);
    case Instruction::FRem: return fpBin(FREM, w, a, b);
  }
  ok = false; return 0;
}
static E binE(unsigned op, E a, E b) {
  switch (op) {
    case Instruction::Add: return mkBin(ADD, a, b); case Instruction::Sub: return mkBin(SUB, a, b); case Instruction::Mul: return mkBin(MUL, a, b);
    case Instruction::UDiv: return mkBin(UDIV, a, b); case Instruction::URem: return mkBin(UREM, a, b); case Instruction::SDiv: return mkBin(SDIV, a, b); case Instruction::SRem: return mkBin(SREM, a, b);
    case Instruction::Shl: return mkBin(SHL, a, b); case Instruction::LShr: return mkBin(LSHR, a, b); case Instruction::AShr: return mkBin(ASHR, a, b);
    case Instruction::And: return mkBin(AND, a, b); case Instruction::Or: return mkBin(OR, a, b); case Instruction::Xor: return mkBin(XOR, a, b);
    case Instruction::FAdd: return mkFBin(FADD, a, b); case Instruction::FSub: return mkFBin(FSUB, a, b); case Instruction::FMul: return mkFBin(FMUL, a, b); case Instruction::FDiv: return mkFBin(FDIV, a, b); case Instruction::FRem: return mkFBin(FREM, a, b);
  }
  return nullptr;
}
static E icmpE(unsigned p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkBin(EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(EQ, a, b));
    case CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(ULE, a, b); case CmpInst::ICMP_UGT: return mkBin(ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(SLE, a, b); case CmpInst::ICMP_SGT: return mkBin(SLT, b, a); default: return mkBin(SLE, b, a);
  }
}
static bool icmpC(unsigned p, unsigned w, uint64_t a, uint64_t b) {
  int64_t x = sext64(a, w), y = sext64(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; default: return x >= y;
  }
}
E fcmpE(unsigned p, E a, E b) {
  auto un = [&]() { return mkOrB(mkNot(mkFCmp(FEQ, a, a)), mkNot(mkFCmp(FEQ, b, b))); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return mkFCmp(FEQ, a, b); case CmpInst::FCMP_OGT: return mkFCmp(FLT, b, a); case CmpInst::FCMP_OGE: return mkFCmp(FLE, b, a); case CmpInst::FCMP_OLT: return mkFCmp(FLT, a, b); case CmpInst::FCMP_OLE: return mkFCmp(FLE, a, b);
    case CmpInst::FCMP_ONE: return mkOrB(mkFCmp(FLT, a, b), mkFCmp(FLT, b, a));
    case CmpInst::FCMP_ORD: return mkNot(un()); case CmpInst::FCMP_UNO: return un();
    case CmpInst::FCMP_UEQ: return mkNot(mkOrB(mkFCmp(FLT, a, b), mkFCmp(FLT, b, a)));
    case CmpInst::FCMP_UGT: return mkNot(mkFCmp(FLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkFCmp(FLT, a, b)); case CmpInst::FCMP_ULT: return mkNot(mkFCmp(FLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkFCmp(FLT, b, a));
    default: return mkNot(mkFCmp(FEQ, a, b));
  }
}
static E castE(unsigned op, E a, unsigned w2) {
  switch (op) {
    case Instruction::Trunc: return mkExtract(a, 0, w2);
    case Instruction::ZExt: return mkZExt(a, w2);
    case Instruction::SExt: return mkSExt(a, w2);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a->width > w2 ? mkExtract(a, 0, w2) : mkZExt(a, w2);
    case Instruction::SIToFP: return mkSIToFP(a, w2);
    case Instruction::UIToFP: return mkUIToFP(a, w2);
    case Instruction::FPToSI: return mkFPToSI(a, w2);
    case Instruction::FPToUI: return mkFPToUI(a, w2);
    case Instruction::FPExt: case Instruction::FPTrunc: return mkFCvt(a, w2);
  }
  return nullptr;
}

bool Engine::step(State& s) {
  if (s.wantEnv) { if (!wake(*this, s)) return false; }
  Thread& t = s.T();
  Frame* f = t.stack.back().w();
  const DInst& d = f->f->code[f->pc];
  f->f->blkHit[d.blk] = 1;
  nInstr++; if (++s.ninstr > O.maxInstrPath) { violation(s, "nontermination", "the execution does not end within " + std::to_string(O.maxInstrPath) + " instructions", s.model); return false; }
  if (gTrace) { std::string o; raw_string_ostream os(o); d.I->print(os); fprintf(stderr, "[%llu t%d] %s: %s\n", (unsigned long long)s.id, s.cur, f->f->F->getName().str().c_str(), o.c_str()); }
  auto R = [&](int i) -> const Val& { int id = d.ops[i]; return id >= 0 ? f->r[id] : f->f->consts[~id]; };
  switch (d.k) {
    case D_NOP: f->pc++; return true;
    case D_MOVE: {
      if (d.ndst == 1) f->r[d.dst] = R(0);
      else { std::vector<Val> tmp(d.ndst); for (int i = 0; i < d.ndst; i++) tmp[i] = R(i); for (int i = 0; i < d.ndst; i++) f->r[d.dst + i] = tmp[i]; }
      f->pc++; return true; }
    case D_BIN: {
      for (int i = 0; i < d.ndst; i++) {
        const Val &a = R(i), &b = R(i + d.ndst); Val& o = f->r[d.dst + i];
        if (!a.e && !b.e) {
          bool ok; uint64_t r = binC(d.sub, d.w, a.c, b.c, ok);
          if (!ok) { violation(s, "arith", "division by zero or overflowing division", s.model); return false; }
          o.e = nullptr; o.c = r; continue;
        }
        E x = toE(a, d.w), y = toE(b, d.w);
        if (d.sub == Instruction::UDiv || d.sub == Instruction::SDiv || d.sub == Instruction::URem || d.sub == Instruction::SRem) {
          E bad = mkEq(y, mkC(0, d.w));
          if (d.sub == Instruction::SDiv || d.sub == Instruction::SRem) bad = mkOrB(bad, mkAndB(mkEq(y, mkC(maskW(d.w), d.w)), mkEq(x, mkC((u128)1 << (d.w - 1), d.w))));
          int k = decide(s, bad); if (k < 0) return false;
          if (k) { violation(s, "arith", "division by zero or overflowing division", s.model); return false; }
        }
        f = s.T().stack.back().w(); f->r[d.dst + i] = fromE(binE(d.sub, x, y));
        if (d.w > 64 && !f->r[d.dst + i].e) {}
      }
      f->pc++; return true; }
    case D_ICMP: {
      for (int i = 0; i < d.ndst; i++) {
        const Val &a = R(i), &b = R(i + d.ndst); Val& o = f->r[d.dst + i];
        if (!a.e && !b.e) { o.e = nullptr; o.c = icmpC(d.sub, d.w, a.c, b.c); continue; }
        o = fromE(icmpE(d.sub, toE(a, d.w), toE(b, d.w)));
      }
      f->pc++; return true; }
    case D_FCMP: {
      for (int i = 0; i < d.ndst; i++) { E r = fcmpE(d.sub, toE(R(i), d.w), toE(R(i + d.ndst), d.w)); f->r[d.dst + i] = fromE(r); }
      f->pc++; return true; }
    case D_FNEG: for (int i = 0; i < d.ndst; i++) f->r[d.dst + i] = fromE(mkFNeg(toE(R(i), d.w))); f->pc++; return true;
    case D_CAST: {
      for (int i = 0; i < d.ndst; i++) {
        const Val& a = R(i);
        if (!a.e && d.w2 <= 64) {
          switch (d.sub) {
            case Instruction::Trunc: f->r[d.dst + i] = {nullptr, a.c & mask64(d.w2)}; continue;
            case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: f->r[d.dst + i] = {nullptr, a.c & mask64(d.w2)}; continue;
            case Instruction::SExt: f->r[d.dst + i] = {nullptr, (uint64_t)sext64(a.c, d.w) & mask64(d.w2)}; continue;
          }
        }
        E r = castE(d.sub, toE(a, d.w), d.w2); if (!r) { unsupported(s, "cast"); return false; }
        f->r[d.dst + i] = fromE(r);
      }
      f->pc++; return true; }
    case D_SELECT: {
      int nc = d.w2; std::vector<Val> out(d.ndst);
      for (int i = 0; i < d.ndst; i++) {
        const Val& c = R(nc == 1 ? 0 : i); const Val &a = R(nc + i), &b = R(nc + d.ndst + i); unsigned w = d.ty->leaves[i].w;
        if (!c.e) out[i] = c.c ? a : b; else out[i] = fromE(mkITE(c.e, toE(a, w), toE(b, w)));
      }
      for (int i = 0; i < d.ndst; i++) f->r[d.dst + i] = out[i];
      f->pc++; return true; }
    case D_BR: takeEdge(s, f, d.edges[0]); return true;
    case D_CBR: {
      const Val& c = R(0); int k;
      if (!c.e) k = c.c != 0; else { k = decide(s, c.e); if (k < 0) return false; f = s.T().stack.back().w(); }
      takeEdge(s, f, d.edges[k ? 0 : 1]); return true; }
    case D_SWITCH: {
      const Val& c = R(0);
      if (!c.e) { int e = 0; for (auto& x : d.cases) if (x.first == c.c) { e = x.second; break; } takeEdge(s, f, d.edges[e]); return true; }
      E v = c.e; u128 mv = s.model->eval(v); int e = 0; E cond = nullptr;
      // group cases by target for the model's value; default otherwise
      for (auto& x : d.cases) if (x.first == mv) e = x.second;
      if (e) { int tgt = d.edges[e].pc; bool simple = d.edges[e].moves.empty(); cond = mkFalse(); for (auto& x : d.cases) if ((simple && d.edges[x.second].pc == tgt && d.edges[x.second].moves.empty()) || x.second == e) cond = mkOrB(cond, mkEq(v, mkC(x.first, d.w))); }
      else { cond = mkTrue(); for (auto& x : d.cases) cond = mkAndB(cond, mkNot(mkEq(v, mkC(x.first, d.w)))); }
      int k = decide(s, cond); if (k < 0) return false; if (!k) return true;  // not expected: the model satisfies cond
      f = s.T().stack.back().w(); takeEdge(s, f, d.edges[e]); return true; }
    case D_RET: { std::vector<Val> rv(d.ops.size()); for (size_t i = 0; i < d.ops.size(); i++) rv[i] = R(i); return doReturn(s, rv); }
    case D_UNREACH: violation(s, "unreachable", "execution reaches a point the compiler proved unreachable (undefined behaviour)", s.model); return false;
    case D_ALLOCA: {
      Val n = R(0); if (!concretize(s, n, d.w)) return false; f = s.T().stack.back().w();
      uint64_t a = alloc(s, d.goff * n.c, K_STACK, 0); f->allocas.push_back(a >> ASHIFT); f->r[d.dst] = {nullptr, a}; f->pc++; return true; }
    case D_LOAD: {
      if (d.atomic && !syncPoint(s)) return s.th[s.cur].st != T_DONE && !stopAll;
      f = s.T().stack.back().w();
      Val p = R(0);
      if (!p.e && !s.mt && d.ty->leaves.size() == 1) {  // fast path
        uint64_t id = p.c >> ASHIFT; const Obj* o = s.mem.get(id); uint64_t off = p.c - addrOf(id);
        if (o && off <= o->size && off + d.ty->size <= o->size && o->kind != K_FUNC) { Val v = loadC(s, o, off, d.ty->leaves[0]); f->r[d.dst] = v; f->pc++; return true; }
      }
      std::vector<Val> out; if (!load(s, p, d.ty, out, d.atomic)) return false;
      if (d.atomic && s.mt && !p.e) acquire(s, p.c);
      setRes(s, d, out); s.T().stack.back().w()->pc++; return true; }
    case D_STORE: {
      if (d.atomic && !syncPoint(s)) return s.th[s.cur].st != T_DONE && !stopAll;
      f = s.T().stack.back().w();
      std::vector<Val> v(d.ops.size() - 1); for (size_t i = 0; i < v.size(); i++) v[i] = R(i + 1);
      if (!store(s, R(0), d.ty, v.data(), d.atomic)) return false;
      f = s.T().stack.back().w(); if (d.atomic && s.mt && !R(0).e) release(s, R(0).c);
      s.T().stack.back().w()->pc++; return true; }
    case D_GEP: {
      Val p = R(0); int64_t off = d.goff; E se = p.e; uint64_t base = p.c; E symoff = nullptr;
      for (auto& g : d.g) {
        const Val& ix = g.op >= 0 ? f->r[g.op] : f->f->consts[~g.op];
        if (!ix.e) off += sext64(ix.c, g.w) * (int64_t)g.scale;
        else { E x = g.w < 64 ? mkSExt(ix.e, 64) : (g.w > 64 ? mkExtract(ix.e, 0, 64) : ix.e); E m = mkBin(MUL, x, mkC(g.scale, 64)); symoff = symoff ? mkBin(ADD, symoff, m) : m; }
      }
      Val o;
      if (!se && !symoff) o.c = base + off;
      else { E r = se ? se : mkC(base, 64); r = mkBin(ADD, r, mkC((uint64_t)off, 64)); if (symoff) r = mkBin(ADD, r, symoff); o = fromE(r); }
      f->r[d.dst] = o; f->pc++; return true; }
    case D_INSELT: {
      int n = d.ndst; std::vector<Val> out(n); const Val& v = R(n); const Val& ix = R(n + 1);
      for (int i = 0; i < n; i++) {
        if (!ix.e) out[i] = ix.c == (uint64_t)i ? v : R(i);
        else out[i] = fromE(mkITE(mkEq(ix.e, mkC(i, d.w2)), toE(v, d.ty ? d.ty->leaves[0].w : d.w), toE(R(i), d.w)));
      }
      for (int i = 0; i < n; i++) f->r[d.dst + i] = out[i];
      f->pc++; return true; }
    case D_EXTELT: {
      int n = d.ops.size() - 1; const Val& ix = R(n);
      if (!ix.e) f->r[d.dst] = R(ix.c < (uint64_t)n ? ix.c : 0);
      else { E r = toE(R(0), d.w); for (int i = 1; i < n; i++) r = mkITE(mkEq(ix.e, mkC(i, d.w2)), toE(R(i), d.w), r); f->r[d.dst] = fromE(r); }
      f->pc++; return true; }
    case D_FENCE: f->pc++; return true;
    case D_RMW: {
      if (!syncPoint(s)) return s.th[s.cur].st != T_DONE && !stopAll;
      f = s.T().stack.back().w(); std::vector<Val> old; Val p = R(0), v = R(1); if (!load(s, p, d.ty, old, true)) return false;
      E a = toE(old[0], d.w), b = toE(v, d.w), r = nullptr;
      switch (d.sub) {
        case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = mkBin(ADD, a, b); break; case AtomicRMWInst::Sub: r = mkBin(SUB, a, b); break; case AtomicRMWInst::And: r = mkBin(AND, a, b); break; case AtomicRMWInst::Or: r = mkBin(OR, a, b); break; case AtomicRMWInst::Xor: r = mkBin(XOR, a, b); break;
        case AtomicRMWInst::Max: r = mkITE(mkBin(SLT, a, b), b, a); break; case AtomicRMWInst::Min: r = mkITE(mkBin(SLT, b, a), b, a); break; case AtomicRMWInst::FAdd: r = mkFBin(FADD, a, b); break; case AtomicRMWInst::FSub: r = mkFBin(FSUB, a, b); break;
        default: unsupported(s, "atomicrmw"); return false;
      }
      Val nv = fromE(r); if (s.mt && !p.e) acquire(s, p.c); if (!store(s, p, d.ty, &nv, true)) return false; if (s.mt && !p.e) release(s, p.c);
      setRes(s, d, old); s.T().stack.back().w()->pc++; return true; }
    case D_CMPX: {
      if (!syncPoint(s)) return s.th[s.cur].st != T_DONE && !stopAll;
      f = s.T().stack.back().w(); std::vector<Val> old; Val p = R(0), c = R(1), v = R(2); if (!load(s, p, d.ty, old, true)) return false;
      E eq = mkEq(toE(old[0], d.w), toE(c, d.w)); Val nv = fromE(mkITE(eq, toE(v, d.w), toE(old[0], d.w)));
      if (s.mt && !p.e) acquire(s, p.c); if (!store(s, p, d.ty, &nv, true)) return false; if (s.mt && !p.e) release(s, p.c);
      old.push_back(fromE(eq)); setRes(s, d, old); s.T().stack.back().w()->pc++; return true; }
    case D_RESUME: { uint64_t exc = R(0).c; // continue unwinding in the caller
      popFrame(s); return unwind(s, exc); }
    case D_LP: unsupported(s, "landingpad reached directly"); return false;
    case D_UNSUP: { std::string o; raw_string_ostream os(o); d.I->print(os); unsupported(s, "instruction " + o); return false; }
    case D_CALL: {
      const Function* F = d.callee; BFn bf = d.bfn; DFunc* df = d.dcallee;
      if (!F) {
        Val p = d.calleeOp >= 0 ? f->r[d.calleeOp] : f->f->consts[~d.calleeOp];
        if (!concretize(s, p, 64)) return false; f = s.T().stack.back().w();
        auto it = faddr.find(p.c); if (it == faddr.end()) { violation(s, "memory", "call through an invalid function pointer", s.model); return false; }
        F = it->second; bf = findBuiltin(F->getName().str(), F);
      }
      std::vector<Val> args(d.ops.size()); for (size_t i = 0; i < d.ops.size(); i++) args[i] = R(i);
      if (bf) {
        std::vector<Val> res; BRes r = bf(*this, s, d, args, res);
        switch (r) {
          case B_DONE: setRes(s, d, res); advance(s, d); return !stopAll;
          case B_PUSHED: return true;
          case B_RETRY: return true;
          case B_UNWIND: return true;
          case B_STOP: return false;
        }
      }
      if (F->isDeclaration()) { unsupported(s, "call of external function " + llvm::demangle(F->getName().str())); return false; }
      if (!df) { df = getF(F); if (d.callee) const_cast<DInst&>(d).dcallee = df; }
      size_t k = 0;
      for (size_t i = 0; i < d.argN.size(); i++) { if (i < d.byval.size() && d.byval[i]) { uint64_t c = alloc(s, d.byval[i], K_STACK, 0); Val dv; dv.c = c; s.T().stack.back().w()->allocas.push_back(c >> ASHIFT); if (!memcopy(s, dv, args[k], d.byval[i])) return false; args[k] = dv; } k += d.argN[i]; }
      return pushCall(s, df, args); }
  }
  return false;
}

void Engine::runState(State* sp) {
  State& s = *sp; int k = 0;
  while (!stopAll) {
    if (!step(s)) break;
    if ((++k & 1023) == 0 && nowS() - t0 > O.timeLimit) { nIncomplete++; nKilled++; unsup["time limit"]++; break; }
  }
  delete sp;
}

static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

void Engine::run() {
  t0 = nowS(); S.deadline = t0 + O.timeLimit; gTrace = O.trace; rng = O.seed * 7919 + 17;
  State* s = new State; initState = s; s->model = std::make_shared<Model>(); Thread t0_; t0_.id = 0; t0_.vc = {1}; s->th.push_back(t0_);
  for (auto& k : stdTI) externalObj(k.first, 64);
  initGlobals(*s);
  int nti = 1; for (auto& G : M->globals()) if (G.getName().starts_with("_ZTI")) { uint64_t a = addrOfGlobal(&G); if (!tiIds.count(a)) tiIds[a] = nti++; }
  for (auto& k : extAddr) if (k.first.compare(0, 4, "_ZTI") == 0 && !tiIds.count(k.second)) tiIds[k.second] = nti++;
  for (auto& F : *M) { if (!F.isIntrinsic()) addrOfGlobal(&F); }
  for (auto& F : *M) if (!F.isDeclaration()) getF(&F);
  for (auto& kv : dfs) for (auto& d : kv.second->code) if (d.k == D_CALL && d.callee && !d.bfn && !d.callee->isDeclaration()) d.dcallee = getF(d.callee);
  auto it = O.params.find("omp_max"); s->ompMaxThreads = it == O.params.end() ? 4 : (int)it->second; s->th[0].maxThreadsIcv = s->ompMaxThreads;
  const Function* EF = M->getFunction(O.entry); if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", O.entry.c_str()); exit(3); }
  // constructors then entry: push entry first, ctors above it (run in order)
  pushCall(*s, getF(EF), {}, H_ENTRY);
  std::vector<std::pair<int, const Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (size_t i = ctors.size(); i-- > 0;) pushCall(*s, getF(ctors[i].second), {}, H_CTOR_NEXT);
  initState = s;
  work.push_back(s);
  while (!work.empty() && !stopAll) {
    if (nowS() - t0 > O.timeLimit) break;
    size_t at = work.size() - 1;
    if (O.search == "random" || (O.search == "mixed" && (nowS() - t0) > O.timeLimit * 0.5)) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; at = (rng >> 33) % work.size(); }
    State* n = work[at]; work.erase(work.begin() + at);
    runState(n);
  }
  bool complete = work.empty() && nIncomplete == 0 && !stopAll;
  printf("%s\n", finishJSON(complete).c_str());
}

std::string Engine::finishJSON(bool complete) {
  std::ostringstream o; double wall = nowS() - t0;
  o << "{\"entry\":\"" << O.entry << "\",\"complete\":" << (complete ? "true" : "false") << ",\"pending\":" << work.size() << ",\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInstr
    << ",\"asserts\":" << nAssert << ",\"checks\":" << nChecks << ",\"decisions\":" << nDecide << ",\"schedule_choices\":" << nSwitches << ",\"queries\":" << S.nq << ",\"sat\":" << S.nsat << ",\"unsat\":" << S.nunsat << ",\"unknown\":" << S.nunknown << ",\"query_cache_hits\":" << S.ncache << ",\"fresh_queries\":" << S.nfresh
    << ",\"solver_s\":" << S.tsolve << ",\"solver_max_s\":" << S.tmax << ",\"wall_s\":" << wall << ",\"nodes\":" << CX->arena.size();
  o << ",\"violations\":[";
  for (size_t i = 0; i < viols.size(); i++) {
    auto& v = viols[i]; o << (i ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"stack\":[";
    for (size_t k = 0; k < v.stack.size(); k++) o << (k ? "," : "") << "\"" << jesc(v.stack[k]) << "\"";
    o << "],\"inputs\":["; for (size_t k = 0; k < v.inputs.size(); k++) o << (k ? "," : "") << "[\"" << jesc(v.inputs[k].first) << "\",\"" << v.inputs[k].second << "\"," << v.widths[k] << "]";
    o << "],\"env\":["; for (size_t k = 0; k < v.sched.size(); k++) o << (k ? "," : "") << v.sched[k];
    o << "],\"log\":["; for (size_t k = 0; k < v.log.size(); k++) o << (k ? "," : "") << "\"" << jesc(v.log[k]) << "\"";
    o << "]}";
  }
  o << "],\"covers\":{"; bool f = true; for (auto& c : covers) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"unsupported\":{"; f = true; for (auto& c : unsup) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"assumed_away\":{"; f = true; for (auto& c : assumes) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << samples[i];
  o << "],\"functions\":["; 
  // functions of the repository whose code was executed (including inlined ones), with lines
  std::map<std::string, std::set<int>> fl; std::map<std::string, bool> lines;   // VERIF_LINES names a file the lines (1 executed, 0 not) are added to
  for (auto& kv : dfs) for (auto& d : kv.second->code) if (d.I)
    for (const DILocation* l = d.I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
      std::string fn = l->getFilename().str(); if (fn.find("/repo/") != 0 && fn.find("common_robotics_utilities") == std::string::npos) continue; if (fn.find("/verif/") == 0) continue;
      bool hit = kv.second->blkHit[d.blk]; auto& was = lines[fn + ":" + std::to_string(l->getLine())]; was = was || hit; if (!hit) continue;
      auto* sp = l->getScope()->getSubprogram(); if (!sp) continue; size_t p = fn.rfind('/'); fl[fn.substr(p + 1) + ":" + sp->getName().str()].insert(l->getLine());
    }
  if (const char* e = getenv("VERIF_LINES")) if (FILE* out = fopen(e, "a")) { for (auto& k : lines) fprintf(out, "%d %s\n", k.second ? 1 : 0, k.first.c_str()); fclose(out); }
  f = true; for (auto& k : fl) { o << (f ? "" : ",") << "[\"" << jesc(k.first) << "\"," << k.second.size() << "]"; f = false; }
  o << "]}";
  return o.str();
}
