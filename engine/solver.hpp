// Z3 back end: translation of Expr DAG to Z3 terms, incremental path-condition solver.
#pragma once
#include "expr.hpp"
#include <z3++.h>
#include <chrono>
#include <memory>
#include <set>
#include <unordered_set>

inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Model {
  std::vector<u128> v;
  mutable std::unordered_map<uint32_t, u128> memo;
  u128 var(int i) const { return i < (int)v.size() ? v[i] : 0; }
  void set(int i, u128 x) { if ((int)v.size() <= i) v.resize(i + 1, 0); v[i] = x; memo.clear(); }
  u128 eval(E e) const;
};
typedef std::shared_ptr<Model> ModelP;

struct PCNode { std::shared_ptr<PCNode> parent; E cond; int depth; ~PCNode() { auto p = std::move(parent); while (p && p.use_count() == 1) { auto n = std::move(p->parent); p = std::move(n); } } };
typedef std::shared_ptr<PCNode> PCP;

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Solver {
  z3::context c;
  z3::solver inc;
  std::vector<PCP> stack;                 // asserted nodes
  std::vector<Z3_ast> bv, fp;             // caches by expr id
  std::vector<E> vars;                    // VAR nodes by index
  uint64_t nq = 0, nsat = 0, nunsat = 0, nunknown = 0, ncache = 0, nfresh = 0;
  double tsolve = 0, tmax = 0;
  int incTimeout = 400, hardTimeout = 60000;
  double deadline = 1e300;
  std::unordered_map<uint64_t, std::vector<std::pair<std::vector<E>, int>>> qcache;
  std::vector<std::vector<int>> varsets;  // by expr id (lazily)
  std::vector<uint8_t> vsDone;
  Solver();
  Z3_ast tBV(E e);
  Z3_ast tFP(E e);
  const std::vector<int>& varsOf(E e);
  // is pc && extra satisfiable? on SAT fills m (copy of base model overwritten)
  Res check(const PCP& pc, E extra, const ModelP& base, ModelP& out);
  void addTo(z3::solver& s, E cond, std::set<int>* seen);
  std::unordered_map<uint32_t, std::pair<Z3_ast, unsigned>> narT;
  std::pair<Z3_ast, unsigned> nar(E e);
  Z3_ast narrowOp(E e);
  std::unordered_map<uint32_t, z3::expr> intS, intU, intB; std::vector<std::pair<int, z3::expr>> intSide; std::unordered_set<uint32_t> noInt; uint64_t nint = 0;
  z3::expr iS(E e); z3::expr iU(E e); z3::expr iB(E e);
  Res checkInt(const std::vector<E>& slice, const ModelP& base, ModelP& out, unsigned to);
 private:
  z3::expr ex(Z3_ast a) { return z3::expr(c, a); }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(c, a); return a; }
  Res finish(z3::model m, const std::vector<E>& slice, const ModelP& base, ModelP& out);
};
