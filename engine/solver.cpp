#include "solver.hpp"
#include <fstream>
#include <algorithm>

// every intermediate term is kept alive (the context is reference counted)
static Z3_context g_c;
static inline Z3_ast kp(Z3_ast a) { Z3_inc_ref(g_c, a); return a; }
static inline Z3_sort kp(Z3_sort a) { Z3_inc_ref(g_c, Z3_sort_to_ast(g_c, a)); return a; }
#define Z3_mk_and(...) kp(Z3_mk_and(__VA_ARGS__))
#define Z3_mk_bool_sort(...) kp(Z3_mk_bool_sort(__VA_ARGS__))
#define Z3_mk_bv_sort(...) kp(Z3_mk_bv_sort(__VA_ARGS__))
#define Z3_mk_bvadd(...) kp(Z3_mk_bvadd(__VA_ARGS__))
#define Z3_mk_bvand(...) kp(Z3_mk_bvand(__VA_ARGS__))
#define Z3_mk_bvashr(...) kp(Z3_mk_bvashr(__VA_ARGS__))
#define Z3_mk_bvlshr(...) kp(Z3_mk_bvlshr(__VA_ARGS__))
#define Z3_mk_bvmul(...) kp(Z3_mk_bvmul(__VA_ARGS__))
#define Z3_mk_bvor(...) kp(Z3_mk_bvor(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) kp(Z3_mk_bvsdiv(__VA_ARGS__))
#define Z3_mk_bvshl(...) kp(Z3_mk_bvshl(__VA_ARGS__))
#define Z3_mk_bvsle(...) kp(Z3_mk_bvsle(__VA_ARGS__))
#define Z3_mk_bvslt(...) kp(Z3_mk_bvslt(__VA_ARGS__))
#define Z3_mk_bvsrem(...) kp(Z3_mk_bvsrem(__VA_ARGS__))
#define Z3_mk_bvsub(...) kp(Z3_mk_bvsub(__VA_ARGS__))
#define Z3_mk_bvudiv(...) kp(Z3_mk_bvudiv(__VA_ARGS__))
#define Z3_mk_bvule(...) kp(Z3_mk_bvule(__VA_ARGS__))
#define Z3_mk_bvult(...) kp(Z3_mk_bvult(__VA_ARGS__))
#define Z3_mk_bvurem(...) kp(Z3_mk_bvurem(__VA_ARGS__))
#define Z3_mk_bvxor(...) kp(Z3_mk_bvxor(__VA_ARGS__))
#define Z3_mk_concat(...) kp(Z3_mk_concat(__VA_ARGS__))
#define Z3_mk_const(...) kp(Z3_mk_const(__VA_ARGS__))
#define Z3_mk_eq(...) kp(Z3_mk_eq(__VA_ARGS__))
#define Z3_mk_extract(...) kp(Z3_mk_extract(__VA_ARGS__))
#define Z3_mk_false(...) kp(Z3_mk_false(__VA_ARGS__))
#define Z3_mk_fpa_abs(...) kp(Z3_mk_fpa_abs(__VA_ARGS__))
#define Z3_mk_fpa_add(...) kp(Z3_mk_fpa_add(__VA_ARGS__))
#define Z3_mk_fpa_div(...) kp(Z3_mk_fpa_div(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) kp(Z3_mk_fpa_eq(__VA_ARGS__))
#define Z3_mk_fpa_geq(...) kp(Z3_mk_fpa_geq(__VA_ARGS__))
#define Z3_mk_fpa_gt(...) kp(Z3_mk_fpa_gt(__VA_ARGS__))
#define Z3_mk_fpa_is_negative(...) kp(Z3_mk_fpa_is_negative(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) kp(Z3_mk_fpa_leq(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) kp(Z3_mk_fpa_lt(__VA_ARGS__))
#define Z3_mk_fpa_mul(...) kp(Z3_mk_fpa_mul(__VA_ARGS__))
#define Z3_mk_fpa_neg(...) kp(Z3_mk_fpa_neg(__VA_ARGS__))
#define Z3_mk_fpa_numeral_double(...) kp(Z3_mk_fpa_numeral_double(__VA_ARGS__))
#define Z3_mk_fpa_numeral_float(...) kp(Z3_mk_fpa_numeral_float(__VA_ARGS__))
#define Z3_mk_fpa_rem(...) kp(Z3_mk_fpa_rem(__VA_ARGS__))
#define Z3_mk_fpa_rna(...) kp(Z3_mk_fpa_rna(__VA_ARGS__))
#define Z3_mk_fpa_rne(...) kp(Z3_mk_fpa_rne(__VA_ARGS__))
#define Z3_mk_fpa_round_to_integral(...) kp(Z3_mk_fpa_round_to_integral(__VA_ARGS__))
#define Z3_mk_fpa_rtn(...) kp(Z3_mk_fpa_rtn(__VA_ARGS__))
#define Z3_mk_fpa_rtp(...) kp(Z3_mk_fpa_rtp(__VA_ARGS__))
#define Z3_mk_fpa_rtz(...) kp(Z3_mk_fpa_rtz(__VA_ARGS__))
#define Z3_mk_fpa_sort_double(...) kp(Z3_mk_fpa_sort_double(__VA_ARGS__))
#define Z3_mk_fpa_sort_single(...) kp(Z3_mk_fpa_sort_single(__VA_ARGS__))
#define Z3_mk_fpa_sqrt(...) kp(Z3_mk_fpa_sqrt(__VA_ARGS__))
#define Z3_mk_fpa_sub(...) kp(Z3_mk_fpa_sub(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) kp(Z3_mk_fpa_to_fp_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_float(...) kp(Z3_mk_fpa_to_fp_float(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_signed(...) kp(Z3_mk_fpa_to_fp_signed(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_unsigned(...) kp(Z3_mk_fpa_to_fp_unsigned(__VA_ARGS__))
#define Z3_mk_fpa_to_ieee_bv(...) kp(Z3_mk_fpa_to_ieee_bv(__VA_ARGS__))
#define Z3_mk_fpa_to_sbv(...) kp(Z3_mk_fpa_to_sbv(__VA_ARGS__))
#define Z3_mk_int(...) kp(Z3_mk_int(__VA_ARGS__))
#define Z3_mk_ite(...) kp(Z3_mk_ite(__VA_ARGS__))
#define Z3_mk_not(...) kp(Z3_mk_not(__VA_ARGS__))
#define Z3_mk_or(...) kp(Z3_mk_or(__VA_ARGS__))
#define Z3_mk_sign_ext(...) kp(Z3_mk_sign_ext(__VA_ARGS__))
#define Z3_mk_true(...) kp(Z3_mk_true(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) kp(Z3_mk_unsigned_int64(__VA_ARGS__))
#define Z3_mk_xor(...) kp(Z3_mk_xor(__VA_ARGS__))
#define Z3_mk_zero_ext(...) kp(Z3_mk_zero_ext(__VA_ARGS__))

u128 Model::eval(E root) const {
  if (root->op == CONST) return root->c;
  if (root->op == VAR) return var(root->aux) & maskW(root->width);
  auto it = memo.find(root->id);
  if (it != memo.end()) return it->second;
  std::vector<E> st{root};
  auto get = [&](E e, u128& v) -> bool {
    if (e->op == CONST) { v = e->c; return true; }
    if (e->op == VAR) { v = var(e->aux) & maskW(e->width); return true; }
    auto i = memo.find(e->id); if (i == memo.end()) return false; v = i->second; return true;
  };
  while (!st.empty()) {
    E e = st.back(); u128 a[3] = {0, 0, 0}; bool ok = true;
    if (e->op == ITE) {
      if (!get(e->k[0], a[0])) { st.push_back(e->k[0]); continue; }
      int s = a[0] ? 1 : 2; if (!get(e->k[s], a[s])) { st.push_back(e->k[s]); continue; }
      memo[e->id] = a[s]; st.pop_back(); continue;
    }
    for (int i = 0; i < 3; i++) if (e->k[i] && !get(e->k[i], a[i])) { st.push_back(e->k[i]); ok = false; }
    if (!ok) continue;
    memo[e->id] = evalOp(e->op, e->width, e->aux, e->k, a[0], a[1], a[2]) & maskW(e->width);
    st.pop_back();
  }
  return memo[root->id];
}

Solver::Solver() : inc(c, z3::solver::simple()) {
  g_c = c;
  z3::params p(c); p.set("timeout", (unsigned)incTimeout); inc.set(p);
}

const std::vector<int>& Solver::varsOf(E e) {
  if (varsets.size() <= e->id) { varsets.resize(CX->arena.size() + 1024); vsDone.resize(varsets.size(), 0); }
  if (vsDone[e->id]) return varsets[e->id];
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (vsDone[x->id]) { st.pop_back(); continue; }
    bool ok = true;
    for (int i = 0; i < 3; i++) if (x->k[i] && !vsDone[x->k[i]->id]) { st.push_back(x->k[i]); ok = false; }
    if (!ok) continue;
    std::vector<int> r;
    if (x->op == VAR) { r.push_back(x->aux); if ((int)vars.size() <= x->aux) vars.resize(x->aux + 1, nullptr); vars[x->aux] = x; }
    else for (int i = 0; i < 3; i++) if (x->k[i]) { auto& o = varsets[x->k[i]->id]; if (r.empty()) r = o; else if (!o.empty() && r != o) { std::vector<int> m; std::set_union(r.begin(), r.end(), o.begin(), o.end(), std::back_inserter(m)); r.swap(m); } }
    varsets[x->id].swap(r); vsDone[x->id] = 1; st.pop_back();
  }
  return varsets[e->id];
}

// minimal signed width for the known range of e
static unsigned sbits(E e) { unsigned k = 1; while (k < e->width && !(e->smin >= -((i128)1 << (k - 1)) && e->smax < ((i128)1 << (k - 1)))) k++; return k; }
std::pair<Z3_ast, unsigned> Solver::nar(E e) {
  auto it = narT.find(e->id); if (it != narT.end()) return it->second;
  if (e->op == CONST) { unsigned k = sbits(e); if (k < 2) k = 2; if (k > e->width) k = e->width; if (k < e->width) { auto r = std::make_pair(Z3_mk_unsigned_int64(c, (uint64_t)e->c & mask64(k), Z3_mk_bv_sort(c, k)), k); narT[e->id] = r; return r; } }
  return {bv[e->id], e->width};
}
// arithmetic whose operands and result are known to fit fewer bits is encoded at that width (kids are already translated)
Z3_ast Solver::narrowOp(E e) {
  switch (e->op) { case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case EQ: case ULT: case ULE: case SLT: case SLE: case ITE: case ZEXT: case SEXT: case EXTRACT: break; default: return nullptr; }
  int lo = e->op == ITE ? 1 : 0, n = (e->op == ZEXT || e->op == SEXT || e->op == EXTRACT) ? 1 : lo + 2;
  for (int i = lo; i < n; i++) if (e->k[i]->width < 4 || e->k[i]->width > 64) return nullptr;
  bool cmp = e->op == EQ || (e->op >= ULT && e->op <= SLE);
  if (!cmp && (e->width < 4 || e->width > 64)) return nullptr;
  if (e->op == EXTRACT && !(e->aux == 0 && e->k[0]->smin == e->smin && e->k[0]->smax == e->smax)) return nullptr;
  if ((e->op == ULT || e->op == ULE || e->op == UDIV || e->op == UREM) && !(e->k[0]->smin >= 0 && e->k[1]->smin >= 0)) return nullptr;
  if (e->op == ZEXT && e->k[0]->smin < 0) return nullptr;
  if ((e->op == UDIV || e->op == SDIV || e->op == UREM || e->op == SREM) && e->k[1]->smin <= 0 && e->k[1]->smax >= 0) return nullptr;
  unsigned K = 2; for (int i = lo; i < n; i++) K = std::max(K, sbits(e->k[i]));
  unsigned ke = cmp ? K : std::max(2u, sbits(e)); K = std::max(K, ke);
  if (cmp) { if (K + 4 > e->k[0]->width) return nullptr; } else if (ke + 4 > e->width || K + 4 > e->k[lo]->width + (e->op == ZEXT || e->op == SEXT ? 4 : 0)) { if (!(e->op == EXTRACT)) return nullptr; if (ke + 4 > e->width) return nullptr; }
  auto arg = [&](int i) -> Z3_ast { auto p = nar(e->k[i]); if (p.second == K) return p.first; return p.second < K ? Z3_mk_sign_ext(c, K - p.second, p.first) : Z3_mk_extract(c, K - 1, 0, p.first); };
  Z3_ast a = arg(lo), b = n > lo + 1 ? arg(lo + 1) : nullptr, r = nullptr;
  switch (e->op) {
    case ADD: r = Z3_mk_bvadd(c, a, b); break; case SUB: r = Z3_mk_bvsub(c, a, b); break; case MUL: r = Z3_mk_bvmul(c, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(c, a, b); break; case UREM: r = Z3_mk_bvurem(c, a, b); break; case SDIV: r = Z3_mk_bvsdiv(c, a, b); break; case SREM: r = Z3_mk_bvsrem(c, a, b); break;
    case EQ: return Z3_mk_eq(c, a, b); case ULT: return Z3_mk_bvult(c, a, b); case ULE: return Z3_mk_bvule(c, a, b); case SLT: return Z3_mk_bvslt(c, a, b); case SLE: return Z3_mk_bvsle(c, a, b);
    case ITE: r = Z3_mk_ite(c, bv[e->k[0]->id], a, b); break;
    default: r = a;
  }
  if (K > ke) r = Z3_mk_extract(c, ke - 1, 0, r);
  narT[e->id] = {r, ke};
  return Z3_mk_sign_ext(c, e->width - ke, r);
}
Z3_ast Solver::tBV(E root) {
  if (bv.size() <= root->id) { bv.resize(CX->arena.size() + 4096, nullptr); fp.resize(bv.size(), nullptr); }
  if (bv[root->id]) return bv[root->id];
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (bv[e->id]) { st.pop_back(); continue; }
    bool ok = true;
    if (!(isFPOp(e->op) && e->op != SCALED) && e->op != FTOS && e->op != FTOU)
      for (int i = 0; i < 3; i++) if (e->k[i] && !bv[e->k[i]->id]) { st.push_back(e->k[i]); ok = false; }
    if (!ok) continue;
    auto K = [&](int i) { return bv[e->k[i]->id]; };
    auto mkv = [&](u128 v, unsigned w) -> Z3_ast {
      if (w == 1) return v ? Z3_mk_true(c) : Z3_mk_false(c);
      if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)v, Z3_mk_bv_sort(c, w));
      z3::expr hi = c.bv_val((uint64_t)(v >> 64), w - 64), lo = c.bv_val((uint64_t)v, 64); z3::expr r = z3::concat(hi, lo);
      Z3_inc_ref(c, r); return r;
    };
    auto b2bv = [&](Z3_ast a) { Z3_sort s1 = Z3_mk_bv_sort(c, 1); return Z3_mk_ite(c, a, Z3_mk_int(c, 1, s1), Z3_mk_int(c, 0, s1)); };
    auto K1 = [&](int i) { return e->k[i]->width == 1 ? b2bv(K(i)) : K(i); };
    Z3_ast r = nullptr; unsigned w = e->width;
    if ((r = narrowOp(e))) { if (bv.size() <= CX->arena.size()) { bv.resize(CX->arena.size() + 4096, nullptr); fp.resize(bv.size(), nullptr); } bv[e->id] = r; st.pop_back(); continue; }
    switch (e->op) {
      case CONST: r = mkv(e->c, w); break;
      case VAR: {
        if ((int)vars.size() <= e->aux) vars.resize(e->aux + 1, nullptr); vars[e->aux] = e;
        std::string n = "v" + std::to_string(e->aux); Z3_symbol s = Z3_mk_string_symbol(c, n.c_str());
        r = Z3_mk_const(c, s, w == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, w)); break; }
      case ADD: r = w == 1 ? Z3_mk_xor(c, K(0), K(1)) : Z3_mk_bvadd(c, K(0), K(1)); break;
      case SUB: r = w == 1 ? Z3_mk_xor(c, K(0), K(1)) : Z3_mk_bvsub(c, K(0), K(1)); break;
      case MUL: if (w == 1) { Z3_ast a[2] = {K(0), K(1)}; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvmul(c, K(0), K(1)); break;
      case UDIV: r = Z3_mk_bvudiv(c, K(0), K(1)); break;
      case SDIV: r = Z3_mk_bvsdiv(c, K(0), K(1)); break;
      case UREM: r = Z3_mk_bvurem(c, K(0), K(1)); break;
      case SREM: r = Z3_mk_bvsrem(c, K(0), K(1)); break;
      case AND: if (w == 1) { Z3_ast a[2] = {K(0), K(1)}; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvand(c, K(0), K(1)); break;
      case OR: if (w == 1) { Z3_ast a[2] = {K(0), K(1)}; r = Z3_mk_or(c, 2, a); } else r = Z3_mk_bvor(c, K(0), K(1)); break;
      case XOR: if (w == 1) { r = isC(e->k[1], 1) ? Z3_mk_not(c, K(0)) : Z3_mk_xor(c, K(0), K(1)); } else r = Z3_mk_bvxor(c, K(0), K(1)); break;
      case SHL: r = w == 1 ? Z3_mk_ite(c, K(1), Z3_mk_false(c), K(0)) : Z3_mk_bvshl(c, K(0), K(1)); break;
      case LSHR: r = w == 1 ? Z3_mk_ite(c, K(1), Z3_mk_false(c), K(0)) : Z3_mk_bvlshr(c, K(0), K(1)); break;
      case ASHR: r = w == 1 ? K(0) : Z3_mk_bvashr(c, K(0), K(1)); break;
      case CONCAT: r = Z3_mk_concat(c, K1(0), K1(1)); break;
      case EXTRACT: {
        Z3_ast x = Z3_mk_extract(c, e->aux + w - 1, e->aux, K1(0));
        r = w == 1 ? Z3_mk_eq(c, x, Z3_mk_int(c, 1, Z3_mk_bv_sort(c, 1))) : x; break; }
      case ZEXT: if (e->k[0]->width == 1) r = Z3_mk_ite(c, K(0), mkv(1, w), mkv(0, w)); else r = Z3_mk_zero_ext(c, w - e->k[0]->width, K(0)); break;
      case SEXT: if (e->k[0]->width == 1) r = Z3_mk_ite(c, K(0), mkv(maskW(w), w), mkv(0, w)); else r = Z3_mk_sign_ext(c, w - e->k[0]->width, K(0)); break;
      case EQ: r = Z3_mk_eq(c, K(0), K(1)); break;
      case ULT: r = Z3_mk_bvult(c, K1(0), K1(1)); break;
      case ULE: r = Z3_mk_bvule(c, K1(0), K1(1)); break;
      case SLT: r = Z3_mk_bvslt(c, K1(0), K1(1)); break;
      case SLE: r = Z3_mk_bvsle(c, K1(0), K1(1)); break;
      case ITE: r = Z3_mk_ite(c, K(0), K(1), K(2)); break;
      case FLT: case FLE: case FEQ: {
        E a = e->k[0], b = e->k[1];
        auto plain = [](E x) { return !isFPOp(x->op) && x->op != ITE; };
        if (plain(a) && plain(b)) {  // both raw bit patterns: integer encoding of IEEE comparison
          unsigned fw = a->width; u128 inf = fw == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u;
          E m = mkC(maskW(fw - 1), fw), I = mkC(inf, fw), Z = mkC(0, fw);
          E aa = mkBin(AND, a, m), bb = mkBin(AND, b, m);
          E nan = mkOrB(mkBin(ULT, I, aa), mkBin(ULT, I, bb)); E bz = mkAndB(mkEq(aa, Z), mkEq(bb, Z));
          E res;
          E sa = mkBin(SLT, a, Z), sb = mkBin(SLT, b, Z);
          if (e->op == FEQ) res = mkAndB(mkNot(nan), mkOrB(bz, mkEq(a, b)));
          else {
            E lt = mkITE(sa, mkITE(sb, mkBin(ULT, b, a), mkTrue()), mkITE(sb, mkFalse(), mkBin(ULT, a, b)));
            E eq = mkEq(a, b);
            res = e->op == FLT ? mkAndB(mkNot(nan), mkAndB(mkNot(bz), lt)) : mkAndB(mkNot(nan), mkOrB(bz, mkOrB(eq, lt)));
          }
          r = tBV(res); break;
        }
        Z3_ast x = tFP(a), y = tFP(b);
        r = e->op == FLT ? Z3_mk_fpa_lt(c, x, y) : e->op == FLE ? Z3_mk_fpa_leq(c, x, y) : Z3_mk_fpa_eq(c, x, y); break; }
      case FTOS: case FTOU: {
        E a = e->k[0]; Z3_ast x = tFP(a); unsigned fw = a->width; unsigned cw = e->op == FTOU ? 64 : (w <= 32 ? 32 : 64);
        auto fc = [&](double d) { return fw == 64 ? Z3_mk_fpa_numeral_double(c, d, Z3_mk_fpa_sort_double(c)) : Z3_mk_fpa_numeral_float(c, (float)d, Z3_mk_fpa_sort_single(c)); };
        Z3_ast rtz = Z3_mk_fpa_rtz(c);
        auto conv = [&](Z3_ast x, unsigned cw) {
          Z3_ast lo = cw == 64 ? Z3_mk_fpa_geq(c, x, fc(-9223372036854775808.0)) : (fw == 64 ? Z3_mk_fpa_gt(c, x, fc(-2147483649.0)) : Z3_mk_fpa_geq(c, x, fc(-2147483648.0)));
          Z3_ast hi = Z3_mk_fpa_lt(c, x, fc(cw == 64 ? 9223372036854775808.0 : 2147483648.0));
          Z3_ast both[2] = {lo, hi};
          return Z3_mk_ite(c, Z3_mk_and(c, 2, both), Z3_mk_fpa_to_sbv(c, rtz, x, cw), mkv((u128)1 << (cw - 1), cw));
        };
        Z3_ast v = conv(x, cw);
        if (e->op == FTOU && w > 32) {
          Z3_ast hi = conv(Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), x, fc(9223372036854775808.0)), 64);
          v = Z3_mk_bvor(c, v, Z3_mk_bvand(c, hi, Z3_mk_bvashr(c, v, mkv(63, 64)))); cw = 64;
        }
        r = w < cw ? Z3_mk_extract(c, w - 1, 0, v) : v; break; }
      case SCALED: r = Z3_mk_fpa_to_ieee_bv(c, tFP(e)); break;
      default: r = Z3_mk_fpa_to_ieee_bv(c, tFP(e)); break;
    }
    if (bv.size() <= CX->arena.size()) { bv.resize(CX->arena.size() + 4096, nullptr); fp.resize(bv.size(), nullptr); }
    bv[e->id] = keep(r); st.pop_back();
  }
  return bv[root->id];
}

Z3_ast Solver::tFP(E e) {
  if (bv.size() <= e->id) { bv.resize(CX->arena.size() + 4096, nullptr); fp.resize(bv.size(), nullptr); }
  if (fp[e->id]) return fp[e->id];
  unsigned w = e->width; Z3_sort s = w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c);
  Z3_ast rne = Z3_mk_fpa_rne(c); Z3_ast r = nullptr;
  switch (e->op) {
    case CONST: r = w == 64 ? Z3_mk_fpa_numeral_double(c, asD((uint64_t)e->c), s) : Z3_mk_fpa_numeral_float(c, asF((uint32_t)e->c), s); break;
    case SCALED: {
      Z3_ast x = Z3_mk_fpa_to_fp_signed(c, rne, tBV(e->k[0]), s);
      if (e->aux) { double f = std::ldexp(1.0, -e->aux); x = Z3_mk_fpa_mul(c, rne, x, w == 64 ? Z3_mk_fpa_numeral_double(c, f, s) : Z3_mk_fpa_numeral_float(c, (float)f, s)); }
      r = x; break; }
    case FADD: r = Z3_mk_fpa_add(c, rne, tFP(e->k[0]), tFP(e->k[1])); break;
    case FSUB: r = Z3_mk_fpa_sub(c, rne, tFP(e->k[0]), tFP(e->k[1])); break;
    case FMUL: r = Z3_mk_fpa_mul(c, rne, tFP(e->k[0]), tFP(e->k[1])); break;
    case FDIV: r = Z3_mk_fpa_div(c, rne, tFP(e->k[0]), tFP(e->k[1])); break;
    case FSQRT: r = Z3_mk_fpa_sqrt(c, rne, tFP(e->k[0])); break;
    case FNEG: r = Z3_mk_fpa_neg(c, tFP(e->k[0])); break;
    case FABS: r = Z3_mk_fpa_abs(c, tFP(e->k[0])); break;
    case FRND: {
      Z3_ast m = e->aux == R_FLOOR ? Z3_mk_fpa_rtn(c) : e->aux == R_CEIL ? Z3_mk_fpa_rtp(c) : e->aux == R_TRUNC ? Z3_mk_fpa_rtz(c) : e->aux == R_ROUND ? Z3_mk_fpa_rna(c) : rne;
      r = Z3_mk_fpa_round_to_integral(c, m, tFP(e->k[0])); break; }
    case FFROMS: r = Z3_mk_fpa_to_fp_signed(c, rne, tBV(e->k[0]), s); break;
    case FFROMU: r = Z3_mk_fpa_to_fp_unsigned(c, rne, tBV(e->k[0]), s); break;
    case FCVT: r = Z3_mk_fpa_to_fp_float(c, rne, tFP(e->k[0]), s); break;
    case FREM: { // fmod(x,y): remainder with truncation; z3's fp.rem is IEEE remainder -> adjust
      Z3_ast x = tFP(e->k[0]), y = Z3_mk_fpa_abs(c, tFP(e->k[1])); Z3_ast ax = Z3_mk_fpa_abs(c, x);
      Z3_ast q = Z3_mk_fpa_rem(c, ax, y);
      Z3_ast rr = Z3_mk_ite(c, Z3_mk_fpa_is_negative(c, q), Z3_mk_fpa_add(c, rne, q, y), q);
      r = Z3_mk_ite(c, Z3_mk_fpa_is_negative(c, x), Z3_mk_fpa_neg(c, rr), rr); break; }
    case ITE: r = Z3_mk_ite(c, tBV(e->k[0]), tFP(e->k[1]), tFP(e->k[2])); break;
    default: r = Z3_mk_fpa_to_fp_bv(c, tBV(e), s); break;
  }
  if (bv.size() <= CX->arena.size()) { bv.resize(CX->arena.size() + 4096, nullptr); fp.resize(bv.size(), nullptr); }
  fp[e->id] = keep(r);
  return r;
}

// ---- integer encoding (exact, modular): used when bit-blasting does not answer quickly
static z3::expr p2(z3::context& c, unsigned k) { std::string s; u128 v = (u128)1 << k; if (k >= 128) abort(); char b[64]; int i = 63; b[i] = 0; while (v) { b[--i] = '0' + (int)(v % 10); v /= 10; } return c.int_val(b + i); }
static z3::expr iv(z3::context& c, i128 v) { bool n = v < 0; u128 u = n ? (u128)(-v) : (u128)v; char b[64]; int i = 63; b[i] = 0; if (!u) b[--i] = '0'; while (u) { b[--i] = '0' + (int)(u % 10); u /= 10; } if (n) b[--i] = '-'; return c.int_val(b + i); }
static i128 sminOf(E e) { return e->width <= 64 ? (i128)e->smin : -((i128)1 << (e->width - 1)); }
z3::expr Solver::iS(E e) {  // signed value
  auto it = intS.find(e->id); if (it != intS.end()) return it->second;
  unsigned w = e->width; z3::expr r(c);
  bool fit = false;
  if (w <= 64 && w > 1 && (e->op == ADD || e->op == SUB || e->op == MUL)) {
    E a = e->k[0], b = e->k[1]; i128 lo, hi;
    if (e->op == ADD) { lo = (i128)a->smin + b->smin; hi = (i128)a->smax + b->smax; }
    else if (e->op == SUB) { lo = (i128)a->smin - b->smax; hi = (i128)a->smax - b->smin; }
    else { i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
    if (lo >= -((i128)1 << (w - 1)) && hi < ((i128)1 << (w - 1))) { fit = true; z3::expr x = iS(a), y = iS(b); r = e->op == ADD ? x + y : e->op == SUB ? x - y : x * y; }
  }
  if (!fit) {
    if (e->op == CONST) r = iv(c, sextW(e->c, w));
    else if (e->op == SEXT) r = iS(e->k[0]);
    else if (e->op == ZEXT) r = iU(e->k[0]);
    else if (e->op == ITE) r = z3::ite(iB(e->k[0]), iS(e->k[1]), iS(e->k[2]));
    else { z3::expr u = iU(e); r = (w <= 64 && e->smin >= 0) ? u : z3::ite(u >= p2(c, w - 1), u - p2(c, w), u); }
  }
  intS.emplace(e->id, r); return r;
}
z3::expr Solver::iU(E e) {  // unsigned value
  auto it = intU.find(e->id); if (it != intU.end()) return it->second;
  unsigned w = e->width; z3::expr r(c); if (w > 126) throw z3::exception("wide");
  auto sgnOK = [&](E x) { return x->width <= 64; };
  switch (e->op) {
    case CONST: r = iv(c, (i128)e->c); break;
    case VAR: { std::string n = "i" + std::to_string(e->aux); r = c.int_const(n.c_str()); if ((int)vars.size() <= e->aux) vars.resize(e->aux + 1, nullptr); vars[e->aux] = e; intSide.push_back({e->aux, r >= 0 && r < p2(c, w)}); if (w <= 64) intSide.push_back({e->aux, r >= iv(c, e->umin) && r <= iv(c, (i128)e->umax)}); break; }
    case ADD: case SUB: case MUL: {
      E a = e->k[0], b = e->k[1]; if (w == 1) throw z3::exception("bit");
      if (sgnOK(e) && e->smin >= 0) { // signed evaluation may be exact
        i128 lo, hi; if (e->op == ADD) { lo = (i128)a->smin + b->smin; hi = (i128)a->smax + b->smax; } else if (e->op == SUB) { lo = (i128)a->smin - b->smax; hi = (i128)a->smax - b->smin; } else { i128 p[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
        if (lo >= -((i128)1 << (w - 1)) && hi < ((i128)1 << (w - 1))) { r = iS(e); break; }
      }
      z3::expr x = iU(a), y = iU(b), m = p2(c, w);
      if (e->op == ADD) { if (isC(b)) { i128 k = sextW(b->c, w); z3::expr t = x + iv(c, k); r = k >= 0 ? z3::ite(t >= m, t - m, t) : z3::ite(t < 0, t + m, t); } else { z3::expr t = x + y; r = (w <= 64 && (u128)a->umax + b->umax <= mask64(w)) ? t : z3::ite(t >= m, t - m, t); } }
      else if (e->op == SUB) { z3::expr t = x - y; r = z3::ite(t < 0, t + m, t); }
      else { z3::expr t = x * y; r = (w <= 64 && (u128)a->umax * b->umax <= mask64(w)) ? t : z3::mod(t, m); }
      break; }
    case UDIV: case UREM: { E b = e->k[1]; if (b->width > 64 || !b->umin) throw z3::exception("div0"); z3::expr x = iU(e->k[0]), y = iU(b); r = e->op == UDIV ? x / y : z3::mod(x, y); break; }
    case SDIV: case SREM: {
      E b = e->k[1]; if (b->width > 64 || (b->smin <= 0 && b->smax >= 0) || (b->smin <= -1 && b->smax >= -1)) throw z3::exception("sdiv");
      z3::expr x = iS(e->k[0]), y = iS(b); z3::expr ax = z3::ite(x < 0, -x, x), ay = z3::ite(y < 0, -y, y); z3::expr q = ax / ay; z3::expr sq = z3::ite((x < 0) != (y < 0), -q, q); z3::expr v = e->op == SDIV ? sq : x - sq * y; r = z3::ite(v < 0, v + p2(c, w), v); break; }
    case ZEXT: r = e->k[0]->width == 1 ? z3::ite(iB(e->k[0]), c.int_val(1), c.int_val(0)) : iU(e->k[0]); break;
    case SEXT: { if (e->k[0]->width == 1) { r = z3::ite(iB(e->k[0]), p2(c, w) - 1, c.int_val(0)); break; } z3::expr v = iS(e->k[0]); r = sminOf(e->k[0]) >= 0 ? v : z3::ite(v < 0, v + p2(c, w), v); break; }
    case EXTRACT: { if (e->k[0]->width > 126) throw z3::exception("wide"); z3::expr x = iU(e->k[0]); if (e->aux) x = x / p2(c, e->aux); r = (e->aux + w == e->k[0]->width || (e->k[0]->width <= 64 && (e->k[0]->umax >> e->aux) <= mask64(w))) ? x : z3::mod(x, p2(c, w)); break; }
    case CONCAT: if (e->k[0]->width == 1 || e->k[1]->width == 1) throw z3::exception("bit"); r = iU(e->k[0]) * p2(c, e->k[1]->width) + iU(e->k[1]); break;
    case SHL: { if (!isC(e->k[1])) throw z3::exception("shl"); z3::expr t = iU(e->k[0]) * p2(c, (unsigned)e->k[1]->c); r = (w <= 64 && ((u128)e->k[0]->umax << (unsigned)e->k[1]->c) <= mask64(w)) ? t : z3::mod(t, p2(c, w)); break; }
    case ITE: r = z3::ite(iB(e->k[0]), iU(e->k[1]), iU(e->k[2])); break;
    default: throw z3::exception("no integer form");
  }
  intU.emplace(e->id, r); return r;
}
z3::expr Solver::iB(E e) {
  auto it = intB.find(e->id); if (it != intB.end()) return it->second;
  z3::expr r(c);
  switch (e->op) {
    case CONST: r = c.bool_val(e->c != 0); break;
    case VAR: { std::string n = "ib" + std::to_string(e->aux); r = c.bool_const(n.c_str()); if ((int)vars.size() <= e->aux) vars.resize(e->aux + 1, nullptr); vars[e->aux] = e; break; }
    case AND: r = iB(e->k[0]) && iB(e->k[1]); break;
    case OR: r = iB(e->k[0]) || iB(e->k[1]); break;
    case XOR: r = isC(e->k[1], 1) ? !iB(e->k[0]) : iB(e->k[0]) != iB(e->k[1]); break;
    case ITE: r = z3::ite(iB(e->k[0]), iB(e->k[1]), iB(e->k[2])); break;
    case EQ: if (e->k[0]->width == 1) r = iB(e->k[0]) == iB(e->k[1]); else if (e->k[0]->width <= 64 && (e->k[0]->smin < 0 || e->k[1]->smin < 0)) r = iS(e->k[0]) == iS(e->k[1]); else r = iU(e->k[0]) == iU(e->k[1]); break;
    case ULT: r = iU(e->k[0]) < iU(e->k[1]); break;
    case ULE: r = iU(e->k[0]) <= iU(e->k[1]); break;
    case SLT: r = iS(e->k[0]) < iS(e->k[1]); break;
    case SLE: r = iS(e->k[0]) <= iS(e->k[1]); break;
    case EXTRACT: if (e->k[0]->width == 1) { r = iB(e->k[0]); break; } { z3::expr x = iU(e->k[0]); if (e->aux) x = x / p2(c, e->aux); r = z3::mod(x, c.int_val(2)) == 1; } break;
    default: throw z3::exception("no integer form");
  }
  intB.emplace(e->id, r); return r;
}
Res Solver::checkInt(const std::vector<E>& slice, const ModelP& base, ModelP& out, unsigned to) {
  try {
    for (E e : slice) if (noInt.count(e->id)) return UNKNOWN;
    z3::solver s(c, "QF_NIA"); z3::params p(c); p.set("timeout", to); s.set(p);
    std::set<int> vs; std::vector<z3::expr> fs;
    for (E e : slice) { try { fs.push_back(iB(e)); } catch (z3::exception&) { noInt.insert(e->id); return UNKNOWN; } for (int v : varsOf(e)) vs.insert(v); }
    for (auto& f : fs) s.add(f);
    for (auto& sd : intSide) if (vs.count(sd.first)) s.add(sd.second);
    z3::check_result r = s.check();
    if (r == z3::unsat) return UNSAT;
    if (r != z3::sat) return UNKNOWN;
    z3::model m = s.get_model(); auto nm = std::make_shared<Model>(); if (base) nm->v = base->v;
    for (int v : vs) {
      E ve = vars[v]; u128 x = 0;
      if (ve->width == 1) { auto ib = intB.find(ve->id); auto iu = intU.find(ve->id); if (ib != intB.end()) x = m.eval(ib->second, true).is_true(); else if (iu != intU.end()) x = m.eval(iu->second, true).to_string() == "1"; }
      else { std::string t = m.eval(iU(ve), true).to_string(); for (char ch : t) if (ch >= '0' && ch <= '9') x = x * 10 + (ch - '0'); }
      if ((int)nm->v.size() <= v) nm->v.resize(v + 1, 0); nm->v[v] = x;
    }
    for (E e : slice) if (!nm->eval(e)) return UNKNOWN;   // defensive: the model must satisfy the original terms
    out = nm; return SAT;
  } catch (z3::exception&) { return UNKNOWN; }
}
Res Solver::finish(z3::model m, const std::vector<E>& slice, const ModelP& base, ModelP& out) {
  auto nm = std::make_shared<Model>();
  if (base) nm->v = base->v;
  std::set<int> vs; for (E e : slice) for (int v : varsOf(e)) vs.insert(v);
  for (int v : vs) {
    E ve = vars[v]; z3::expr val = m.eval(ex(tBV(ve)), true); u128 x = 0;
    if (ve->width == 1) x = val.is_true();
    else if (ve->width <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(c, val, &u); x = u; }
    else {
      std::string s = Z3_get_numeral_string(c, val); for (char ch : s) x = x * 10 + (ch - '0');
    }
    if ((int)nm->v.size() <= v) nm->v.resize(v + 1, 0);
    nm->v[v] = x;
  }
  out = nm; return SAT;
}

// the declared range of an input variable as a constraint (null when it is the full range)
static E rangeOf(E v) {
  if (v->width > 64 || (v->umin == 0 && v->umax >= mask64(v->width))) return nullptr;
  E r = rawN(ULE, 1, 0, v, mkC(v->umax, v->width));
  return v->umin ? rawN(AND, 1, 0, r, rawN(ULE, 1, 0, mkC(v->umin, v->width), v)) : r;
}
void Solver::addTo(z3::solver& s, E cond, std::set<int>* seen) {
  s.add(ex(tBV(cond)));
  std::vector<int> vs = varsOf(cond);
  for (int v : vs) { if (seen && !seen->insert(v).second) continue; if (E r = rangeOf(vars[v])) s.add(ex(tBV(r))); }
}
Res Solver::check(const PCP& pc, E extra, const ModelP& base, ModelP& out) {
  // slice: constraints sharing variables (transitively) with extra
  std::vector<E> all; for (PCNode* p = pc.get(); p; p = p->parent.get()) all.push_back(p->cond);
  std::vector<E> slice; 
  {
    std::set<int> vs; for (int v : varsOf(extra)) vs.insert(v);
    std::vector<uint8_t> in(all.size(), 0); bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < all.size(); i++) if (!in[i]) {
        auto& o = varsOf(all[i]); bool hit = false; for (int v : o) if (vs.count(v)) { hit = true; break; }
        if (hit) { in[i] = 1; ch = true; for (int v : o) vs.insert(v); }
      }
    }
    for (size_t i = 0; i < all.size(); i++) if (in[i]) slice.push_back(all[i]);
  }
  slice.push_back(extra);
  std::sort(slice.begin(), slice.end(), [](E a, E b) { return a->id < b->id; }); slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  uint64_t h = 1469598103934665603ull; for (E e : slice) h = (h ^ e->id) * 1099511628211ull;
  auto& bucket = qcache[h];
  for (auto& q : bucket) if (q.second == UNSAT && q.first == slice) { ncache++; return UNSAT; }
  nq++;
  double t0 = nowS();
  auto fin = [&](Res r) { double dt = nowS() - t0;
    if (const char* dir = getenv("SYMX_DUMP")) if (dt > (getenv("SYMX_DUMP_T") ? atof(getenv("SYMX_DUMP_T")) : 3.0)) { z3::solver ds(c); std::set<int> seen; for (E e : slice) addTo(ds, e, &seen); std::ofstream f(std::string(dir) + "/q" + std::to_string(nq) + ".smt2"); f << ds.to_smt2(); std::ofstream g(std::string(dir) + "/q" + std::to_string(nq) + ".txt"); for (E e : slice) g << exprStr(e, 12) << "\n"; g << "== " << exprStr(extra, 20) << "\n"; }
    tsolve += dt; if (dt > tmax) tmax = dt; if (r == SAT) nsat++; else if (r == UNSAT) { nunsat++; bucket.push_back({slice, UNSAT}); } else nunknown++; return r; };
  if (t0 > deadline) return fin(UNKNOWN);
  // incremental: sync stack with pc
  std::vector<PCP> want; for (PCP p = pc; p; p = p->parent) want.push_back(p);
  std::reverse(want.begin(), want.end());
  size_t common = 0; while (common < want.size() && common < stack.size() && want[common] == stack[common]) common++;
  if (stack.size() > common) { inc.pop(stack.size() - common); stack.resize(common); }
  for (size_t i = common; i < want.size(); i++) { inc.push(); addTo(inc, want[i]->cond, nullptr); stack.push_back(want[i]); }
  inc.push(); addTo(inc, extra, nullptr);
  z3::check_result r = z3::unknown;
  try { r = inc.check(); } catch (z3::exception&) { r = z3::unknown; }
  if (r == z3::unsat) { inc.pop(); return fin(UNSAT); }
  if (r == z3::sat) { z3::model m = inc.get_model(); inc.pop(); all.push_back(extra); finish(m, all, base, out); return fin(SAT); }
  inc.pop();
  nfresh++;
  // fresh solver, sliced, with preprocessing and a SAT back end
  double left = deadline - nowS(); int to = hardTimeout; if (left * 1000 < to) to = left * 1000 < 100 ? 100 : (int)(left * 1000);
  { Res ri = checkInt(slice, base, out, std::min(to, 8000)); if (ri != UNKNOWN) { nint++; return fin(ri); } }
  for (int round = 0; round < 2; round++) {
    z3::tactic t = round == 0 ? (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "fpa2bv") & z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "elim-uncnstr") & z3::tactic(c, "max-bv-sharing") & z3::tactic(c, "bit-blast") & z3::tactic(c, "simplify") & z3::tactic(c, "sat"))
                              : z3::tactic(c, "default");
    z3::solver s = t.mk_solver(); z3::params p(c); p.set("timeout", (unsigned)(round == 0 ? to : to / 2)); s.set(p);
    std::set<int> seen; for (E e : slice) addTo(s, e, &seen);
    try { r = s.check(); } catch (z3::exception&) { r = z3::unknown; }
    if (r == z3::unsat) return fin(UNSAT);
    if (r == z3::sat) { finish(s.get_model(), slice, base, out); return fin(SAT); }
    if (nowS() > deadline) break;
  }
  return fin(UNKNOWN);
}
